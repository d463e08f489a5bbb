//! The model client: an independent SSH client that generates load, decodes everything the
//! server sends and checks it against what it asked for and what the processes did.
use crate::{
	crypto::{Sealer, TAG},
	hostile,
	wire::{b, wrap, Put, Rd},
	world::*,
};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
	Normal,
	KexOnly,
	BadAlgo,
	/// Offers an ephemeral key of the wrong length or of low order.
	BadKey,
	Tamper,
	Mitm,
	Replay(usize),
	Hostile,
	AuthOnly,
	Probe,
}

/// What a run asks of its clients.
#[derive(Clone, Debug, Default)]
pub struct Prof {
	pub daemon: bool,
	pub in_max: u32,
	pub out_max: u32,
	pub big: u32, // of 64
	pub fibers: u32,
	pub chans: u32,
	pub ops: u32,
	pub tries: u32,
	pub long: u32, // of 32
	pub proc_faults: bool,
	pub stalls: bool,
	pub odd_req: u32,
	/// Messages and channel types nobody supports.
	pub unsup: u32,
	/// Of 16 clients: more input than the server allows.
	pub overrun: u32,
	/// Of 256 clients: hundreds of channels at once.
	pub many: u32,
	/// Of 16 clients: many processes that all keep writing.
	pub dense: u32,
	pub tiny_win: u32, // of 4
	/// Of 64 clients: the last request is malformed.
	pub garble: u32,
	/// Of 128 channels: a process with a lot to say, and for some no window for it until the faults stop.
	pub hold: u32,
	/// Hundreds of channels one after the other.
	pub churn: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Rx {
	Ident,
	Kex,
	Reply,
	NewKeys,
	Enc,
}

#[derive(Clone, Debug)]
pub enum Op {
	Open,
	WaitOpen,
	Exec(bool, Box<ProcPlan>), // shell?
	Req,
	Data(u32),
	Tag,
	Eof,
	Close,
	WaitReplies,
	WaitOut(u32),
	WaitClosed,
	Sleep(u32),
}

#[derive(Clone, Debug)]
pub enum Reply {
	Success,
	Failure,
	PkOk(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct AuthPend {
	pub pkt: u32,
	pub reply: Reply,
	pub hist: Option<Hist>,
	pub user: Vec<u8>,
}

#[derive(Clone, Copy, Debug)]
pub enum Credit {
	Huge,
	Half(u32),
	Exact(u32),
}

pub struct Chan {
	pub cid: u32,
	pub sid: Option<u32>,
	pub open_pkt: u32,
	pub opened: bool,
	pub refused: bool,
	pub credit: Credit,
	/// a process with a lot to say
	pub flood: bool,
	/// no more window until the faults stop
	pub hold: bool,
	pub win0: u32,
	pub maxp: u32,
	pub granted: u64,
	pub got: u64,
	pub srv_win: u64,
	pub srv_win0: u64,
	/// sent more than the server allowed
	pub overrun: bool,
	pub srv_max: u32,
	pub replies: VecDeque<(bool, u32)>,
	pub has_proc: bool,
	pub spawn: Option<usize>,
	pub sent: usize,
	pub sent_by: Vec<(u32, usize)>,
	pub prefix: Vec<u8>,
	pub eof_sent: Option<(u64, u32)>,
	pub close_sent: Option<(u64, u32)>,
	pub out: usize,
	pub err: usize,
	pub status: Option<u32>,
	pub eof_rcvd: bool,
	pub close_rcvd: bool,
	pub blocked: bool,
	pub salt: u32,
}

impl Chan {
	/// The bytes this client sends on the channel.
	pub fn in_byte(&self, pos: usize) -> u8 {
		if pos < self.prefix.len() {
			return self.prefix[pos];
		}
		let x = (pos as u32 ^ self.salt)
			.wrapping_mul(0x9e3779b1)
			.rotate_left(13)
			.wrapping_mul(0x85ebca6b)
			.wrapping_add(self.salt);
		(x >> 11) as u8
	}
	pub fn open(&self) -> bool {
		self.opened && self.close_sent.is_none() && !self.close_rcvd
	}
	/// Bytes sent in packets before `intact`.
	pub fn sent_upto(&self, intact: u32) -> usize {
		self.sent_by
			.iter()
			.filter(|(p, _)| *p < intact)
			.map(|(_, n)| *n)
			.sum()
	}
}

pub struct Fiber {
	pub chan: Option<usize>,
	pub ops: VecDeque<Op>,
	pub todo: VecDeque<VecDeque<Op>>,
	pub sleeping: bool,
	pub data_left: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mk {
	Flip,
	FlipLen,
	Drop,
	Dup,
	Swap,
	Insert,
	Truncate,
	Old,
	Extend,
	/// messages in the clear during key exchange, then as many encrypted ones left out
	Prefix,
}

#[derive(Clone, Debug)]
pub struct Mitm {
	pub at: u32,
	pub kind: Mk,
	pub intact: u32,
	pub done: bool,
	pub held: Option<Vec<u8>>,
	pub must_end: bool,
	pub older: Vec<Vec<u8>>,
	/// where in the handshake `Prefix` inserts
	pub stage: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tam {
	CIdent,
	CKex,
	CEph,
	SIdent,
	SKex,
	SHost,
	SEph,
	SSig,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
	Stay,
	Disconnect,
	Fin,
	Rst,
	DiscStay,
}

pub struct Attempt {
	pub payload: Vec<u8>,
	pub pend: AuthPend,
}

pub struct Client {
	pub idx: usize,
	pub kind: Kind,
	pub prof: Prof,
	pub started: bool,
	pub scheduled: bool,
	// handshake
	pub ident: Vec<u8>,
	/// lines sent before it, to be skipped
	pub preamble: Vec<u8>,
	pub kexinit: Vec<u8>,
	pub secret: [u8; 32],
	pub pubkey: Vec<u8>,
	pub guess: Option<bool>, // Some(right?)
	pub wait_ident: bool,
	pub wait_kex: bool,
	pub wait_nk: bool,
	pub ident_sent: bool,
	pub kex_sent: bool,
	pub ecdh_sent: bool,
	pub nk_sent: bool,
	pub clear_sent: u64,
	pub srv_ident: Vec<u8>,
	pub srv_kex: Vec<u8>,
	pub verified: bool,
	pub reply_seen: bool,
	pub session: Vec<u8>,
	pub keys: Option<([u8; 64], [u8; 64])>,
	pub rx: Rx,
	pub rxbuf: Vec<u8>,
	pub enc: Option<Sealer>,
	pub dec: Option<Sealer>,
	pub tamper: Option<(Tam, u32)>,
	pub mitm: Option<Mitm>,
	pub cut_after: Option<(u64, bool)>,
	/// falls silent, without leaving, after so many bytes
	pub mute_after: Option<u64>,
	pub wire_sent: u64,
	// end
	pub end_cause: Option<u64>,
	/// number of the packet that said so
	pub disconnected: Option<u32>,
	pub fin: bool,
	pub server_ended: bool,
	pub lenient: bool,
	// auth
	pub pkts: u32,
	pub service_sent: bool,
	/// the one service there is was asked for
	pub service_asked: bool,
	/// authentication requests after success
	pub late_auth: bool,
	pub garbled: bool,
	/// After how many channels the server kept how much allocated.
	pub heap_marks: Vec<(u32, i64)>,
	/// extended data, which no process has a use for
	pub sent_ext: bool,
	pub service_pending: bool,
	pub attempts: VecDeque<Attempt>,
	pub pipeline: bool,
	pub auth_pending: VecDeque<AuthPend>,
	pub expect_hist: Vec<(u32, Hist)>,
	pub accept_sent: bool,
	pub authed: bool,
	pub user: Vec<u8>,
	pub tries: u32,
	// channels
	pub chans: Vec<Chan>,
	/// Packet and sequence number of each message nobody knows, unanswered so far.
	pub unknown: VecDeque<(u32, u32)>,
	/// Packet and number of each channel of a type nobody knows.
	pub refusals: Vec<(u32, u32)>,
	pub fibers: Vec<Fiber>,
	pub urgent: VecDeque<(usize, Vec<u8>, bool)>,
	pub end: End,
	pub end_done: bool,
	pub noise: u32,
	pub hostile: Option<hostile::Hostile>,
	pub execs: u32,
	pub broken_rx: bool,
	pub pad: u32,
	pub frag: u32,
	pub want_auth: bool,
	pub stats: BTreeMap<&'static str, u64>,
	pub chan_total: u32,
	pub odd_ids: bool,
}

const KEX: &str = "curve25519-sha256";
const HOST: &str = "ecdsa-sha2-nistp256";
const CIPHER: &str = "chacha20-poly1305@openssh.com";

fn name(w: &mut World, st: u32) -> String {
	let decoys = [
		"curve25519-sha256@libssh.org", "diffie-hellman-group14-sha256", "ssh-ed25519",
		"ecdsa-sha2-nistp256-cert-v01@openssh.com", "ecdsa-sha2-nistp384", "aes128-ctr",
		"chacha20-poly1305", "chacha20-poly1305@openssh.com2", "curve25519-sha25", "x", "none",
		"ecdsa-sha2-nistp25", "curve25519-sha2566", "Curve25519-sha256", "xecdsa-sha2-nistp256",
		"chacha20-poly1305@openssh.co", "ext-info-c", "hmac-sha2-256", "kex-strict-c-v00@openssh.com",
		"aes256-gcm@openssh.com", "aes128-gcm@openssh.com", "aes256-ctr", "aes192-ctr", "3des-cbc", "zlib",
		"zlib@openssh.com", "rsa-sha2-512", "rsa-sha2-256", "ssh-rsa", "ssh-dss", "ecdsa-sha2-nistp521",
		"sntrup761x25519-sha512@openssh.com", "mlkem768x25519-sha256", "ecdh-sha2-nistp256",
		"ecdh-sha2-nistp521", "diffie-hellman-group-exchange-sha256", "diffie-hellman-group16-sha512",
		"diffie-hellman-group1-sha1", "curve448-sha512", "arcfour",
	];
	if w.ch.chance(st, 1, 3) {
		let n = 1 + w.ch.choose(st, 24);
		let mut s = String::new();
		for _ in 0..n {
			let mut c = 33 + w.ch.choose(st, 94) as u8;
			if c == b',' {
				c = b'-';
			}
			s.push(c as char);
		}
		if [KEX, HOST, CIPHER, "none"].contains(&&s[..]) {
			s.push('x');
		}
		s
	} else {
		decoys[w.ch.choose(st, decoys.len() as u32) as usize].to_string()
	}
}

/// No secret comes of these.
pub fn low_order() -> Vec<[u8; 32]> {
	let hex = |s: &str| -> [u8; 32] { std::array::from_fn(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()) };
	let end = |first: u8| -> [u8; 32] {
		let mut v = [0xff; 32];
		v[0] = first;
		v[31] = 0x7f;
		v
	};
	let mut one = [0; 32];
	one[0] = 1;
	vec![
		[0; 32],
		one,
		hex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
		hex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
		end(0xec),
		end(0xed),
		end(0xee),
	]
}

fn bad_key(w: &mut World, st: u32) -> Vec<u8> {
	if w.ch.chance(st, 1, 3) {
		let n = [0, 1, 16, 31, 33, 40, 64][w.ch.choose(st, 7) as usize];
		return w.ch.bytes(st, n);
	}
	let l = low_order();
	let mut k = l[w.ch.choose(st, l.len() as u32) as usize].to_vec();
	if w.ch.chance(st, 1, 3) {
		k[31] |= 0x80;
	}
	k
}

/// A name list that does or does not contain `want`.
fn list(w: &mut World, st: u32, want: Option<&str>, long: bool) -> Vec<u8> {
	let n = match w.ch.choose(st, 4) {
		0 => 0,
		1 => w.ch.choose(st, 3),
		2 => w.ch.choose(st, 12),
		_ if long => w.ch.choose(st, 120),
		_ => w.ch.choose(st, 5),
	};
	let mut l: Vec<String> = Vec::new();
	for _ in 0..n {
		let mut s = name(w, st);
		if long && w.ch.chance(st, 1, 24) {
			// longer than names may be
			s = s.repeat(1 + w.ch.choose(st, 40) as usize);
		}
		l.push(s);
	}
	if let Some(x) = want {
		let i = w.ch.choose(st, l.len() as u32 + 1) as usize;
		l.insert(i, x.to_string());
	}
	l.join(",").into_bytes()
}

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
	let mut d = Sha256::new();
	for p in parts {
		d.update(p);
	}
	d.finalize().into()
}

pub fn toy_sig(key: &[u8], msg: &[u8]) -> Vec<u8> {
	sha(&[b"toy", &(key.len() as u32).to_be_bytes(), key, msg]).to_vec()
}

pub fn key_known(key: &[u8]) -> bool {
	key.first().map_or(false, |b| b & 1 == 0)
}

pub fn none_ok(user: &[u8]) -> bool {
	user.windows(9).any(|w| w == b".none-ok.")
}

/// The client index in the first `u<index>.` found.
pub fn owner_of(s: &[u8]) -> Option<usize> {
	tag_of(s, b'u')
}

pub fn tag_of(s: &[u8], mark: u8) -> Option<usize> {
	for i in 0..s.len() {
		if s[i] == b'~' && s.get(i + 1) == Some(&mark) {
			let r = &s[i + 2..];
			let n = r.iter().take_while(|c| c.is_ascii_digit()).count();
			if n > 0 && n < 6 && r.get(n) == Some(&b'.') {
				return std::str::from_utf8(&r[..n]).unwrap().parse().ok();
			}
		}
	}
	None
}

/// The name of another algorithm than ssh-ed25519.
fn near_alg(w: &mut World, st: u32) -> Vec<u8> {
	let v: [&[u8]; 14] = [
		b"ecdsa-sha2-nistp256", b"ssh-ed25519x", b"xssh-ed25519", b"ed25519", b"ssh-ed2551", b"SSH-ED25519", b"ssh-ed25519\0",
		b"ssh-ed25519 ", b"sk-ssh-ed25519@openssh.com", b"ssh-ed25519-cert-v01@openssh.com", b"ssh-rsa", b"", b"ssh-ed448",
		b"ssh-ed25518",
	];
	v[w.ch.choose(st, v.len() as u32) as usize].to_vec()
}

/// A boolean as RFC 4251 has it: any non-zero byte means true.
fn flag(w: &mut World, st: u32, yes: bool) -> u8 {
	match yes {
		false => 0,
		true if w.ch.chance(st, 1, 6) => {
			w.probe("odd_boolean");
			[2, 255, 128, 16][w.ch.choose(st, 4) as usize]
		}
		true => 1,
	}
}

pub fn sign_data(session: &[u8], user: &[u8], service: &[u8], alg: &[u8], blob: &[u8]) -> Vec<u8> {
	b().s(session).u8(50).s(user).s(service).s(b"publickey").u8(1).s(alg).s(blob)
}

/// The eight points of small order.
const SMALL_ORDER: [[u8; 32]; 8] = {
	let mut p = [[0; 32]; 8];
	p[0][0] = 1;
	p[1] = [0xff; 32];
	p[1][0] = 0xec;
	p[1][31] = 0x7f;
	p[3][31] = 0x80;
	p[4] = *b"\x26\xe8\x95\x8f\xc2\xb2\x27\xb0\x45\xc3\xf4\x89\xf2\xef\x98\xf0\xd5\xdf\xac\x05\xd3\xc6\x33\x39\xb1\x38\x02\x88\x6d\x53\xfc\x05";
	p[5] = p[4];
	p[5][31] |= 0x80;
	p[6] = *b"\xc7\x17\x6a\x70\x3d\x4d\xd8\x4f\xba\x3c\x0b\x76\x0d\x10\x67\x0f\x2a\x20\x53\xfa\x2c\x39\xcc\xc6\x4e\xc7\xfd\x77\x92\xac\x03\x7a";
	p[7] = p[6];
	p[7][31] |= 0x80;
	p
};

fn ed_key(seed: [u8; 32]) -> ed25519_dalek::Keypair {
	let secret = ed25519_dalek::SecretKey::from_bytes(&seed).unwrap();
	let public = (&secret).into();
	ed25519_dalek::Keypair { secret, public }
}

impl Client {
	pub fn new(w: &mut World, idx: usize, kind: Kind, prof: &Prof) -> Self {
		let st = ST_CLIENT + idx as u32;
		let mut c = Client {
			idx,
			kind,
			prof: prof.clone(),
			started: false,
			scheduled: false,
			ident: Vec::new(),
			preamble: Vec::new(),
			kexinit: Vec::new(),
			secret: [0; 32],
			pubkey: Vec::new(),
			guess: None,
			wait_ident: false,
			wait_kex: false,
			wait_nk: false,
			ident_sent: false,
			kex_sent: false,
			ecdh_sent: false,
			nk_sent: false,
			clear_sent: 0,
			srv_ident: Vec::new(),
			srv_kex: Vec::new(),
			verified: false,
			reply_seen: false,
			session: Vec::new(),
			keys: None,
			rx: Rx::Ident,
			rxbuf: Vec::new(),
			enc: None,
			dec: None,
			tamper: None,
			mitm: None,
			cut_after: None,
			mute_after: None,
			wire_sent: 0,
			end_cause: None,
			disconnected: None,
			fin: false,
			server_ended: false,
			lenient: false,
			pkts: 0,
			service_sent: false,
			service_asked: false,
			late_auth: false,
			garbled: false,
			heap_marks: Vec::new(),
			sent_ext: false,
			service_pending: false,
			attempts: VecDeque::new(),
			pipeline: false,
			auth_pending: VecDeque::new(),
			expect_hist: Vec::new(),
			accept_sent: false,
			authed: false,
			user: Vec::new(),
			tries: 0,
			chans: Vec::new(),
			unknown: VecDeque::new(),
			refusals: Vec::new(),
			fibers: Vec::new(),
			urgent: VecDeque::new(),
			end: End::Stay,
			end_done: false,
			noise: 0,
			hostile: None,
			execs: 0,
			broken_rx: false,
			pad: 0,
			frag: 0,
			want_auth: false,
			stats: BTreeMap::new(),
			chan_total: 0,
			odd_ids: false,
		};
		let long = w.ch.chance(st, prof.long, 32);
		if prof.overrun > 0 && !w.ch.chance(st, prof.overrun, 16) {
			c.prof.overrun = 0;
		}
		// identification string
		c.ident = b"SSH-2.0-".to_vec();
		let n = match w.ch.choose(st, 4) {
			0 => 8,
			1 => 1 + w.ch.choose(st, 12),
			2 => 1 + w.ch.choose(st, 245),
			_ => 245 - w.ch.choose(st, 3),
		};
		for i in 0..n {
			let mut x = 33 + w.ch.choose(st, 94) as u8;
			if x == b'-' && !c.ident.contains(&b' ') {
				x = b'_';
			}
			// comments follow a space; nothing says what they look like
			if i > 2 && (w.ch.chance(st, 1, 16) || i + 1 == n && w.ch.chance(st, 1, 6)) {
				x = b' ';
			}
			c.ident.push(x);
		}
		if w.ch.chance(st, 1, 8) {
			for _ in 0..1 + w.ch.choose(st, 4) {
				let l: &[u8] = match w.ch.choose(st, 8) {
					0 => b"",
					1 => b"S",
					2 => b"SS",
					3 => b"SSH",
					4 => b" SSH-2.0-x",
					5 => b"SSSH-2.0-x",
					6 => b"ssh-2.0-x",
					_ => {
						let n = w.ch.choose(st, 300);
						for i in 0..n {
							let x = 32 + w.ch.choose(st, 95) as u8;
							c.preamble.push(if i == 0 && x == b'S' { b's' } else { x });
						}
						b""
					}
				};
				c.preamble.extend_from_slice(l);
				c.preamble.extend_from_slice(b"\r\n");
			}
		}
		c.secret = Sha256::digest(w.ch.bytes(st, 8)).into();
		c.pubkey = x25519_dalek::PublicKey::from(&x25519_dalek::StaticSecret::from(c.secret)).as_bytes().to_vec();
		if kind == Kind::BadKey {
			c.pubkey = bad_key(w, st);
		} else if w.ch.chance(st, 1, 16) {
			// to be ignored in the computation, but not in the transcript
			c.pubkey[31] |= 0x80;
		}
		// proposal
		let bad = if kind == Kind::BadAlgo { 1 + w.ch.choose(st, 63) } else { 0 };
		let mut k = b().u8(20).raw(&w.ch.bytes(st, 16));
		let mut first = [false; 2];
		for (i, x) in [KEX, HOST, CIPHER, CIPHER].iter().enumerate() {
			let l = list(w, st, (bad >> i & 1 == 0).then(|| *x), long);
			if i < 2 {
				first[i] = l.split(|c| *c == b',').next() == Some(x.as_bytes());
			}
			k = k.s(&l);
		}
		for _ in 0..2 {
			k = k.s(&list(w, st, None, long));
		}
		for i in 4..6 {
			let mut l = list(w, st, (bad >> i & 1 == 0).then(|| "none"), false);
			if bad >> i & 1 != 0 {
				l = l.split(|c| *c == b',').filter(|n| n != b"none").collect::<Vec<_>>().join(&b',');
			}
			k = k.s(&l);
		}
		for _ in 0..2 {
			k = k.s(&list(w, st, None, false));
		}
		if w.ch.chance(st, 1, 4) {
			c.guess = Some(first[0] && first[1]);
		}
		let f = flag(w, st, c.guess.is_some());
		c.kexinit = k.u8(f).u32(0);
		c.wait_ident = w.ch.chance(st, 1, 3);
		c.wait_kex = w.ch.chance(st, 1, 3);
		c.wait_nk = w.ch.chance(st, 1, 3);
		c.pad = w.ch.choose(st, 3);
		c.frag = [0, 0, 1, 4][w.ch.choose(st, 4) as usize];
		c.noise = [0, 0, 2, 6][w.ch.choose(st, 4) as usize];
		c.pipeline = w.ch.chance(st, 1, 3);
		c.odd_ids = w.ch.chance(st, 1, 2);
		c.end = [End::Stay, End::Disconnect, End::Fin, End::Rst, End::DiscStay][w.ch.choose(st, 5) as usize];
		match kind {
			Kind::Tamper => {
				let t = [
					Tam::CIdent, Tam::CKex, Tam::CEph, Tam::SIdent, Tam::SKex, Tam::SHost, Tam::SEph, Tam::SSig,
				][w.ch.choose(st, 8) as usize];
				c.tamper = Some((t, w.ch.choose(st, 1 << 20)));
				c.guess = None;
				let n = c.kexinit.len();
				c.kexinit[n - 5] = 0;
			}
			Kind::Mitm => {
				let kind = [
					Mk::Flip, Mk::Flip, Mk::Flip, Mk::Drop, Mk::Dup, Mk::Swap, Mk::Insert, Mk::Truncate, Mk::Old,
					Mk::FlipLen, Mk::Extend, Mk::Prefix,
				][w.ch.choose(st, 12) as usize];
				let at = match w.ch.choose(st, 4) {
					0 => w.ch.choose(st, 3),
					1 | 2 => w.ch.choose(st, 12),
					_ if prof.ops + prof.chans + prof.fibers + prof.tries > 60 => w.ch.choose(st, 600),
					_ => w.ch.choose(st, 60),
				};
				let at = if kind == Mk::Prefix { 1 + at % 3 } else { at };
				c.mitm = Some(Mitm {
					at,
					kind,
					intact: u32::MAX,
					done: false,
					held: None,
					must_end: false,
					older: Vec::new(),
					stage: w.ch.choose(st, 3),
				});
			}
			Kind::Hostile => c.hostile = Some(hostile::Hostile::new(w, idx)),
			Kind::Probe => {
				c.frag = 0;
				c.noise = 0;
				c.pipeline = false;
				c.end = End::Stay;
			}
			_ => {}
		}
		c.want_auth = match kind {
			Kind::AuthOnly => w.ch.chance(st, 1, 2),
			_ => true,
		};
		c.tries = if prof.tries > 0 && kind != Kind::Probe { w.ch.choose(st, prof.tries + 1) } else { 0 };
		let nf = match kind {
			Kind::Normal | Kind::Mitm | Kind::Hostile => 1 + w.ch.choose(st, prof.fibers),
			Kind::Probe => 1,
			_ => 0,
		};
		let many = kind == Kind::Normal && prof.many > 0 && w.ch.chance(st, prof.many, 256);
		if !many && kind == Kind::Normal && prof.dense > 0 && !w.ch.chance(st, prof.dense, 16) {
			c.prof.dense = 0;
		}
		let nf = match (nf, many, kind == Kind::Normal && c.prof.dense > 0) {
			(_, true, _) => {
				w.probe("client_with_many_channels");
				200 + w.ch.choose(st, 200)
			}
			(_, _, true) => 3 + w.ch.choose(st, 6),
			_ => nf,
		};
		if prof.churn && kind != Kind::Probe {
			if w.ch.chance(st, 1, 3) {
				// or just one that stays, and thousands of messages on it
				let steps = vec![PStep::Echo, PStep::Exit(0)];
				let mut ops = VecDeque::from([Op::Open, Op::WaitOpen, Op::Exec(false, Box::new(ProcPlan { steps, ..ProcPlan::default() }))]);
				let mut sum = 0;
				let (size, ahead) = (1 + w.ch.choose(st, 60), w.ch.choose(st, 80));
				for _ in 0..1200 {
					let n = 1 + w.ch.choose(st, size);
					sum += n;
					ops.push_back(Op::Data(n));
					if sum > ahead {
						ops.push_back(Op::WaitOut(sum - ahead));
					}
				}
				ops.extend([Op::Eof, Op::WaitClosed]);
				c.fibers.push(Fiber { chan: None, ops: VecDeque::new(), todo: VecDeque::from([ops]), sleeping: false, data_left: 0 });
				return c;
			}
			let all = (w.ch.chance(st, 2, 3)).then(|| w.ch.choose(st, 8));
			let mut todo = VecDeque::new();
			for _ in 0..300 {
				todo.push_back(c.gen_churn_ops(w, all));
			}
			c.fibers.push(Fiber { chan: None, ops: VecDeque::new(), todo, sleeping: false, data_left: 0 });
			return c;
		}
		for _ in 0..nf {
			if many {
				let ops = c.gen_short_ops(w);
				c.fibers.push(Fiber { chan: None, ops: VecDeque::new(), todo: VecDeque::from([ops]), sleeping: false, data_left: 0 });
				continue;
			}
			let n = if kind == Kind::Probe { 1 } else { 1 + w.ch.choose(st, prof.chans) };
			let mut todo = VecDeque::new();
			for _ in 0..n {
				todo.push_back(c.gen_ops(w));
			}
			c.fibers.push(Fiber {
				chan: None,
				ops: VecDeque::new(),
				todo,
				sleeping: false,
				data_left: 0,
			});
		}
		c
	}

	fn stat(&mut self, k: &'static str) {
		*self.stats.entry(k).or_default() += 1;
	}

	// ---- plans ---------------------------------------------------------------------------

	fn gen_plan(&mut self, w: &mut World) -> (ProcPlan, bool) {
		let st = ST_PLAN + self.idx as u32;
		let pr = self.prof.clone();
		let mut p = ProcPlan::default();
		let mut wants_eof = false;
		if self.kind == Kind::Probe {
			p.steps = vec![PStep::Out(100), PStep::Echo, PStep::Err(10), PStep::Exit(7)];
			return (p, true);
		}
		let out = |w: &mut World| -> u32 {
			if w.ch.chance(st, pr.big, 64) {
				w.ch.choose(st, 400_000)
			} else {
				w.ch.size(st, pr.out_max)
			}
		};
		let s = &mut p.steps;
		if pr.dense > 0 && w.ch.chance(st, 3, 4) {
			for _ in 0..2 + w.ch.choose(st, 12) {
				let n = 1 + w.ch.size(st, 300);
				s.push(if w.ch.chance(st, 1, 2) { PStep::Out(n) } else { PStep::Err(n) });
				if w.ch.chance(st, 1, 4) {
					s.push(PStep::Sleep(w.ch.choose(st, 200)));
				}
			}
			if pr.stalls && w.ch.chance(st, 2, 3) {
				s.push(PStep::Stall);
			}
			s.push(PStep::Exit(3));
			return (p, false);
		}
		if pr.in_max >= 20_000 && w.ch.chance(st, 1, 8) {
			// wants no input
			s.push(PStep::CloseIn);
			s.push(if w.ch.chance(st, 2, 3) { PStep::Stall } else { PStep::Sleep(w.ch.choose(st, 3_000_000)) });
			s.push(PStep::Exit(0));
			return (p, false);
		}
		match w.ch.choose(st, 8) {
			0 => {
				let n = out(w);
				s.push(PStep::Out(n));
			}
			1 => {
				s.push(PStep::Echo);
				wants_eof = true;
			}
			2 => {
				let n = out(w);
				s.push(PStep::ReadEof);
				s.push(PStep::Out(n));
				wants_eof = true;
			}
			3 => {
				for _ in 0..1 + w.ch.choose(st, 6) {
					let (a, bb) = (out(w), out(w));
					s.push(PStep::Out(a));
					s.push(PStep::Err(bb));
				}
			}
			4 => {
				let n = out(w);
				for _ in 0..1 + w.ch.choose(st, 4) {
					s.push(PStep::Read(1 + w.ch.choose(st, 64)));
					s.push(PStep::Sleep(w.ch.choose(st, 2000)));
				}
				s.push(PStep::Out(n));
				s.push(PStep::ReadEof);
				wants_eof = true;
			}
			_ => {
				for _ in 0..w.ch.choose(st, 8) {
					let x = match w.ch.choose(st, 13) {
						0 | 1 => PStep::Out(out(w)),
						2 => PStep::Err(out(w)),
						3 | 4 => PStep::Read(1 + w.ch.size(st, pr.in_max)),
						5 => PStep::Sleep(w.ch.choose(st, 20_000)),
						6 => PStep::CloseIn,
						7 => PStep::CloseOut,
						8 => PStep::CloseErr,
						9 if pr.stalls => PStep::Stall,
						10 if pr.proc_faults => PStep::OutFault,
						11 if pr.proc_faults => PStep::ErrFault,
						12 if pr.daemon && w.ch.chance(st, 1, 3) => {
							PStep::Kill([1, 2, 6, 9, 11, 15][w.ch.choose(st, 6) as usize])
						}
						_ => PStep::Sleep(1),
					};
					wants_eof |= matches!(x, PStep::Read(_));
					s.push(x);
				}
			}
		}
		if pr.daemon && w.ch.chance(st, 1, 8) {
			s.push(PStep::Kill([9, 2, 6, 1, 11, 15, 64][w.ch.choose(st, 7) as usize]));
		} else {
			let code = match w.ch.choose(st, 5) {
				0 => 0,
				1 => 1,
				2 => w.ch.choose(st, 256),
				_ if pr.daemon => w.ch.choose(st, 256),
				3 => u32::MAX - w.ch.choose(st, 3),
				_ => w.ch.choose(st, u32::MAX),
			};
			s.push(PStep::Exit(code));
			// something lives on and still writes
			if w.ch.chance(st, 1, 6) {
				let n = w.ch.choose(st, 300);
				s.push(PStep::Sleep(w.ch.choose(st, 5000)));
				s.push(PStep::Out(n));
			}
		}
		if !pr.daemon {
			p.no_stdin = w.ch.chance(st, 1, 16);
			p.no_stdout = w.ch.chance(st, 1, 16);
			p.no_stderr = w.ch.chance(st, 1, 16);
		}
		(p, wants_eof)
	}

	/// One of hundreds of channels that come and go.
	fn gen_churn_ops(&mut self, w: &mut World, how: Option<u32>) -> VecDeque<Op> {
		let st = ST_CLIENT + self.idx as u32;
		let mut o = VecDeque::from([Op::Open, Op::WaitOpen]);
		let plan = |steps: Vec<PStep>, fail: bool| Op::Exec(false, Box::new(ProcPlan { steps, fail, ..ProcPlan::default() }));
		match how.unwrap_or_else(|| w.ch.choose(st, 8)) {
			0 => o.push_back(Op::Close),
			1 => o.extend([Op::Data(20), Op::Close]),
			2 => o.extend([plan(vec![PStep::Out(20), PStep::ReadEof, PStep::Exit(0)], false), Op::Data(20), Op::Eof, Op::WaitClosed]),
			3 => o.extend([plan(vec![PStep::Exit(1)], false), Op::WaitClosed]),
			4 => o.extend([plan(vec![PStep::ReadEof, PStep::Exit(0)], true), Op::WaitReplies, Op::Close]),
			5 => o.extend([plan(vec![PStep::ReadEof, PStep::Err(9), PStep::Exit(0)], false), Op::Data(20), Op::WaitReplies, Op::Close]),
			6 => o.extend([Op::Req, Op::Eof, Op::Close]),
			_ => o.extend([plan(vec![PStep::Out(300), PStep::Exit(0)], false), Op::WaitOut(10), Op::Close]),
		}
		o
	}

	/// One of hundreds of channels.
	fn gen_short_ops(&mut self, w: &mut World) -> VecDeque<Op> {
		let st = ST_CLIENT + self.idx as u32;
		let mut o = VecDeque::from([Op::Open, Op::WaitOpen]);
		match w.ch.choose(st, 8) {
			0 => o.push_back(Op::Close),
			1 | 2 => {
				o.push_back(Op::Sleep(20_000 + w.ch.choose(st, 40_000)));
				let plan = ProcPlan { steps: vec![PStep::Out(30), PStep::Read(20), PStep::Exit(0)], ..ProcPlan::default() };
				o.push_back(Op::Exec(false, Box::new(plan)));
				o.push_back(Op::Data(20));
				o.push_back(Op::WaitClosed);
			}
			3 => {
				o.push_back(Op::Sleep(w.ch.choose(st, 60_000)));
				o.push_back(Op::Req);
				o.push_back(Op::Close);
			}
			4 => {
				o.push_back(Op::Data(20));
				o.push_back(Op::Sleep(w.ch.choose(st, 60_000)));
				o.push_back(Op::Exec(false, Box::new(ProcPlan { steps: vec![PStep::ReadEof, PStep::Err(5), PStep::Exit(1)], ..ProcPlan::default() })));
				o.push_back(Op::Eof);
				o.push_back(Op::WaitClosed);
			}
			_ => {}
		}
		o
	}

	fn gen_ops(&mut self, w: &mut World) -> VecDeque<Op> {
		let st = ST_CLIENT + self.idx as u32;
		let pr = self.prof.clone();
		let mut o = VecDeque::from([Op::Open, Op::WaitOpen]);
		if self.kind == Kind::Probe {
			let (p, _) = self.gen_plan(w);
			o.push_back(Op::Exec(false, Box::new(p)));
			o.push_back(Op::Data(300));
			o.push_back(Op::Eof);
			o.push_back(Op::WaitClosed);
			return o;
		}
		let data = |w: &mut World| -> u32 {
			if w.ch.chance(st, pr.big, 64) {
				300_000 + w.ch.choose(st, 900_000)
			} else {
				w.ch.size(st, pr.in_max)
			}
		};
		let (mut plan, wants_eof) = self.gen_plan(w);
		let shell = w.ch.chance(st, 1, 5);
		if !(pr.daemon && shell) {
			for _ in 0..w.ch.choose(st, 3) {
				match w.ch.choose(st, 3) {
					0 => o.push_back(Op::Req),
					1 => o.push_back(Op::Data(w.ch.size(st, pr.in_max.min(2000)))),
					_ => o.push_back(Op::Sleep(w.ch.choose(st, 3000))),
				}
			}
			if w.ch.chance(st, 1, 6) {
				let mut q = plan.clone();
				q.fail = true;
				o.push_back(Op::Exec(!pr.daemon && w.ch.chance(st, 1, 4), Box::new(q)));
			}
			// all of the input may come before there is a process
			if w.ch.chance(st, 1, 16) {
				o.push_back(Op::Eof);
			}
		}
		if w.ch.chance(st, 1, 16) {
			plan.fail = !(pr.daemon && shell);
		}
		let none = w.ch.chance(st, 1, 14);
		if !none {
			o.push_back(Op::Exec(shell, Box::new(plan.clone())));
			if pr.daemon && shell {
				o.push_back(Op::Tag);
			}
			if w.ch.chance(st, 1, 2) {
				o.push_back(Op::WaitReplies);
			}
		}
		for _ in 0..w.ch.choose(st, pr.ops + 1) {
			let x = match w.ch.choose(st, 10) {
				0..=3 => Op::Data(data(w)),
				4 | 5 => {
					if w.ch.chance(st, pr.odd_req, 16) {
						Op::Req
					} else {
						Op::Data(w.ch.size(st, 300))
					}
				}
				6 => Op::Sleep(w.ch.choose(st, 20_000)),
				7 => Op::WaitOut(w.ch.choose(st, 300)),
				8 if !pr.daemon => Op::Exec(w.ch.chance(st, 1, 4), Box::new(ProcPlan::default())),
				_ => Op::WaitReplies,
			};
			o.push_back(x);
		}
		let eof = w.ch.choose(st, 4);
		if eof < 2 || (wants_eof && eof == 2) {
			o.push_back(Op::Eof);
			if w.ch.chance(st, 1, 6) {
				o.push_back(Op::Req);
			}
		}
		match w.ch.choose(st, 6) {
			0 | 1 | 2 => o.push_back(Op::WaitClosed),
			3 | 4 => {
				if w.ch.chance(st, 1, 2) {
					o.push_back(Op::Sleep(w.ch.choose(st, 30_000)));
				}
				o.push_back(Op::Close);
				if w.ch.chance(st, 1, 2) {
					o.push_back(Op::WaitClosed);
				}
			}
			_ => {}
		}
		o
	}

	// ---- sending -------------------------------------------------------------------------

	pub fn intact(&self) -> u32 {
		self.mitm.as_ref().map_or(u32::MAX, |m| m.intact)
	}

	pub fn cause(&mut self, w: &World) {
		if self.end_cause.is_none() {
			self.end_cause = Some(w.events);
		}
	}

	/// The faults have stopped.
	pub fn heal(&mut self, w: &mut World) {
		for ci in 0..self.chans.len() {
			if self.chans[ci].hold {
				self.credit(w, ci);
			}
		}
		self.kick(w);
	}

	pub fn kick(&mut self, w: &mut World) {
		if self.scheduled || !self.started || self.fin {
			return;
		}
		let d = if w.no_faults {
			0
		} else {
			let lat = w.conns[self.idx].lat;
			if lat == 0 {
				0
			} else {
				w.ch.choose(ST_THINK + self.idx as u32, lat.min(2000) + 1) as u64
			}
		};
		self.scheduled = true;
		w.after(d, Ev::Client(self.idx));
	}

	pub fn raw(&mut self, w: &mut World, bytes: Vec<u8>) {
		if self.fin || bytes.is_empty() {
			return;
		}
		if let Some(n) = self.mute_after {
			let left = n.saturating_sub(self.wire_sent);
			if (bytes.len() as u64) > left {
				if self.end_cause.is_none() {
					w.fault("client_silent");
					self.cause(w);
				}
				let part = bytes[..left as usize].to_vec();
				self.wire_sent += left;
				if !part.is_empty() {
					w.net_send(self.idx, Seg::Bytes(part));
				}
				return;
			}
		}
		w.sh.recorded.entry(self.idx).or_default().push(bytes.clone());
		if let Some((n, rst)) = self.cut_after {
			let left = n.saturating_sub(self.wire_sent);
			if (bytes.len() as u64) > left {
				w.fault(if rst { "cut_rst_midstream" } else { "cut_fin_midstream" });
				let part = bytes[..left as usize].to_vec();
				self.wire_sent += left;
				if !part.is_empty() {
					w.net_send(self.idx, Seg::Bytes(part));
				}
				self.finish(w, rst);
				return;
			}
		}
		self.wire_sent += bytes.len() as u64;
		let st = ST_C2S + self.idx as u32;
		if self.frag > 0 && bytes.len() > 1 && !w.no_faults && w.ch.chance(st, self.frag, 8) {
			let k = 1 + w.ch.choose(st, bytes.len() as u32 - 1) as usize;
			w.fault("segment_split");
			w.net_send(self.idx, Seg::Bytes(bytes[..k].to_vec()));
			w.net_send(self.idx, Seg::Bytes(bytes[k..].to_vec()));
		} else {
			w.net_send(self.idx, Seg::Bytes(bytes));
		}
	}

	/// The client's end of the connection goes away.
	pub fn finish(&mut self, w: &mut World, rst: bool) {
		if self.fin {
			return;
		}
		self.cause(w);
		self.fin = true;
		w.net_send(self.idx, if rst { Seg::Reset } else { Seg::Eof });
		if rst {
			w.conns[self.idx].client_gone = true;
		}
	}

	pub fn clear_packet(&self, w: &mut World, payload: &[u8]) -> Vec<u8> {
		let st = ST_CLIENT + self.idx as u32;
		let extra = if self.pad == 0 { 0 } else { w.ch.choose(st, if self.pad == 1 { 3 } else { 32 }) };
		wrap(payload, extra as usize, true, 0x5a)
	}

	pub fn clear(&mut self, w: &mut World, payload: &[u8]) {
		let p = self.clear_packet(w, payload);
		self.clear_sent += 1;
		self.raw(w, p);
	}

	/// Seal and send; returns the packet's index among the encrypted ones.
	pub fn sealed(&mut self, w: &mut World, payload: &[u8]) -> u32 {
		let st = ST_CLIENT + self.idx as u32;
		let extra = if self.pad == 0 || self.kind == Kind::Probe {
			0
		} else {
			w.ch.choose(st, if self.pad == 1 { 3 } else { 31 })
		};
		let rawp = wrap(payload, extra as usize, false, 0xa5);
		if !self.service_asked {
			self.service_asked = payload.windows(12).any(|x| x == b"ssh-userauth");
		}
		self.sealed_raw(w, &rawp)
	}

	pub fn sealed_raw(&mut self, w: &mut World, rawp: &[u8]) -> u32 {
		let bytes = self.enc.as_mut().unwrap().seal(rawp);
		let pkt = self.pkts;
		self.pkts += 1;
		w.ev("c-pkt", self.idx as u64, pkt as u64);
		let idx = self.idx;
		w.note(|| format!("client {idx} packet {pkt} type {} len {}", rawp[5], rawp.len()));
		let Some(mut m) = self.mitm.take() else {
			self.raw(w, bytes);
			return pkt;
		};
		let st = ST_MITM + self.idx as u32;
		if let Some(h) = m.held.take() {
			self.raw(w, bytes);
			self.raw(w, h);
			self.mitm = Some(m);
			return pkt;
		}
		if m.kind == Mk::Prefix && pkt < m.at {
			w.fault("mitm_prefix_drop");
			self.mitm = Some(m);
			return pkt;
		}
		if m.done || pkt < m.at {
			if m.older.len() < 40 {
				m.older.push(bytes.clone());
			}
			self.raw(w, bytes);
			self.mitm = Some(m);
			return pkt;
		}
		m.done = true;
		m.intact = pkt;
		self.cause(w);
		match m.kind {
			Mk::Flip => {
				w.fault("mitm_bitflip");
				let same = bytes.clone();
				let mut v = bytes;
				let region = w.ch.choose(st, 4);
				let lo = if region == 1 { v.len() - TAG } else { 4 };
				let i = lo + w.ch.choose(st, (v.len() - lo) as u32) as usize;
				if region == 3 {
					// patterns that a sloppy comparison of tags might miss
					let t = v.len() - TAG;
					let (i, j) = (t + w.ch.choose(st, 16) as usize, t + w.ch.choose(st, 16) as usize);
					match w.ch.choose(st, 10) {
						0 => v.swap(i, j),
						1 => v[t..].fill(0),
						2 => v[t..].fill(0xff),
						3 => {
							let x = 1 << w.ch.choose(st, 8);
							v[i] ^= x;
							v[j] ^= x;
						}
						4 => {
							v[i] = v[i].wrapping_add(1);
							v[j] = v[j].wrapping_sub(1);
						}
						5 => {
							if let Some(o) = m.older.last() {
								v[t..].copy_from_slice(&o[o.len() - TAG..]);
							}
						}
						6 => v[t..].reverse(),
						7 => v[t..].iter_mut().for_each(|x| *x = !*x),
						8 => v[t..].rotate_left(i - t),
						_ => {
							let l = w.ch.choose(st, 16) as usize;
							let r = w.ch.bytes(st, 16 - l);
							v[t + l..].copy_from_slice(&r);
						}
					}
				}
				if region < 3 || v == same {
					v[i] ^= 1 << w.ch.choose(st, 8);
				}
				m.must_end = true;
				self.raw(w, v);
			}
			Mk::FlipLen => {
				w.fault("mitm_length_bitflip");
				let mut v = bytes;
				let i = w.ch.choose(st, 4) as usize;
				v[3 - i] ^= 1 << w.ch.choose(st, 8);
				self.raw(w, v);
			}
			Mk::Prefix => unreachable!(),
			Mk::Drop => w.fault("mitm_drop"),
			Mk::Dup => {
				w.fault("mitm_duplicate");
				m.intact = pkt + 1;
				self.raw(w, bytes.clone());
				self.raw(w, bytes);
			}
			Mk::Swap => {
				w.fault("mitm_reorder");
				m.held = Some(bytes);
			}
			Mk::Insert => {
				w.fault("mitm_insert");
				let n = 1 + w.ch.choose(st, 60) as usize;
				let g = w.ch.bytes(st, n);
				self.raw(w, g);
				self.raw(w, bytes);
			}
			Mk::Truncate => {
				w.fault("mitm_truncate");
				let mut v = bytes;
				let i = w.ch.choose(st, v.len() as u32) as usize;
				let n = 1 + w.ch.choose(st, (v.len() - i) as u32) as usize;
				v.drain(i..(i + n).min(v.len()));
				self.raw(w, v);
			}
			Mk::Extend => {
				w.fault("mitm_insert_inside");
				let mut v = bytes;
				let i = w.ch.choose(st, v.len() as u32) as usize;
				let x = w.ch.choose(st, 256) as u8;
				v.insert(i, x);
				// an inserted byte equal to what it displaces alters nothing up to the end
				if i + 1 < v.len() && v[i + 1..].iter().all(|y| *y == x) {
					m.intact = pkt + 1;
				}
				self.raw(w, v);
			}
			Mk::Old => {
				if m.older.is_empty() {
					w.fault("mitm_drop");
				} else {
					w.fault("mitm_replay_older");
					let i = w.ch.choose(st, m.older.len() as u32) as usize;
					let o = m.older[i].clone();
					self.raw(w, o);
					self.raw(w, bytes);
				}
			}
		}
		self.mitm = Some(m);
		pkt
	}

	// ---- stepping ------------------------------------------------------------------------

	pub fn step(&mut self, w: &mut World) {
		self.scheduled = false;
		if self.fin {
			return;
		}
		w.ev("client", self.idx as u64, self.pkts as u64);
		let act = if self.hostile.is_some() { hostile::step(self, w) } else { hostile::Act::Normal };
		let did = if let Kind::Replay(j) = self.kind {
			self.step_replay(w, j)
		} else if act != hostile::Act::Normal {
			act == hostile::Act::Did
		} else if self.enc.is_none() {
			self.step_clear(w)
		} else {
			self.step_enc(w)
		};
		if did {
			self.kick(w);
		}
	}

	fn step_replay(&mut self, w: &mut World, j: usize) -> bool {
		// `execs` counts what has been played so far
		let Some(x) = w.sh.recorded.get(&j).and_then(|r| r.get(self.execs as usize)).cloned() else {
			return false;
		};
		w.fault("replayed_recording");
		self.cause(w);
		self.execs += 1;
		self.raw(w, x);
		true
	}

	fn step_clear(&mut self, w: &mut World) -> bool {
		if !self.ident_sent {
			if self.wait_ident && self.rx == Rx::Ident {
				return false;
			}
			self.ident_sent = true;
			let mut v = self.ident.clone();
			if let Some((Tam::CIdent, n)) = self.tamper {
				let i = 8 + n as usize % (v.len() - 8);
				v[i] ^= 1;
				self.tampered(w);
			}
			v.extend_from_slice(b"\r\n");
			v.splice(..0, self.preamble.iter().copied());
			self.raw(w, v);
			return true;
		}
		if !self.kex_sent {
			if self.wait_kex && self.rx <= Rx::Kex {
				return false;
			}
			self.kex_sent = true;
			self.prefix(w, 0);
			let mut v = self.kexinit.clone();
			if let Some((Tam::CKex, n)) = self.tamper {
				// cookie half of the time: always parses
				let span = if n & 1 == 0 { 16 } else { v.len() - 1 };
				let i = 1 + (n as usize >> 4) % span;
				v[i] ^= 1 << (n >> 1 & 7);
				self.tampered(w);
			}
			self.clear(w, &v);
			match self.guess {
				Some(true) => {
					self.ecdh_sent = true;
					let p = b().u8(30).s(&self.pubkey);
					self.clear(w, &p);
				}
				Some(false) => {
					let st = ST_CLIENT + self.idx as u32;
					let n = w.ch.choose(st, 200) as usize;
					let p = b().u8(30).raw(&w.ch.bytes(st, n));
					self.clear(w, &p);
					w.probe("wrong_guess");
				}
				None => {}
			}
			return true;
		}
		if !self.ecdh_sent {
			if self.rx <= Rx::Kex && self.kind != Kind::BadAlgo {
				return false;
			}
			self.ecdh_sent = true;
			self.prefix(w, 1);
			let mut k = self.pubkey.clone();
			if let Some((Tam::CEph, n)) = self.tamper {
				k[n as usize / 8 % 32] ^= 1 << (n & 7);
				self.tampered(w);
			}
			let p = b().u8(30).s(&k);
			self.clear(w, &p);
			return true;
		}
		if self.refused() {
			if !self.nk_sent {
				self.nk_sent = true;
				self.clear(w, &[21]);
				return true;
			}
			return false;
		}
		if self.reply_seen && !self.nk_sent {
			if !self.verified {
				// a client that cannot verify the server goes away
				let rst = w.ch.chance(ST_CLIENT + self.idx as u32, 1, 2);
				self.finish(w, rst);
				return false;
			}
			if self.wait_nk && self.rx < Rx::Enc {
				return false;
			}
			self.nk_sent = true;
			self.prefix(w, 2);
			self.clear(w, &[21]);
			let (k, _) = self.keys.unwrap();
			self.enc = Some(Sealer::new(&k, self.clear_sent));
			return true;
		}
		false
	}

	/// Must the server refuse to go on with the key exchange?
	pub fn refused(&self) -> bool {
		matches!(self.kind, Kind::BadAlgo | Kind::BadKey)
	}

	/// Messages of someone in between, to shift the server's count of packets.
	fn prefix(&mut self, w: &mut World, stage: u32) {
		let Some(m) = &mut self.mitm else { return };
		if m.kind != Mk::Prefix || m.done || (stage != m.stage && stage < 2) {
			return;
		}
		m.done = true;
		m.intact = 0;
		let n = m.at;
		self.cause(w);
		let st = ST_MITM + self.idx as u32;
		for _ in 0..n {
			w.fault("mitm_insert_in_handshake");
			let p = match w.ch.choose(st, 4) {
				0 | 1 => {
					let n = w.ch.choose(st, 40) as usize;
					b().u8(2).s(&w.ch.bytes(st, n))
				}
				2 => b().u8(4).u8(0).s(b"").s(b""),
				_ => b().u8(3).u32(w.ch.choose(st, 4)),
			};
			let p = wrap(&p, 0, true, 0);
			self.raw(w, p);
		}
	}

	fn tampered(&mut self, w: &mut World) {
		w.fault("handshake_altered");
		self.cause(w);
	}

	fn noise(&mut self, w: &mut World) {
		let st = ST_CLIENT + self.idx as u32;
		if self.noise > 0 && w.ch.chance(st, self.noise, 16) {
			let p = match w.ch.choose(st, if self.authed { 5 } else { 3 }) {
				4 => {
					let open: Vec<u32> =
						self.chans.iter().filter(|c| c.open() && c.eof_sent.is_none()).filter_map(|c| c.sid).collect();
					if open.is_empty() {
						return;
					}
					let sid = open[w.ch.choose(st, open.len() as u32) as usize];
					let n = w.ch.choose(st, 40) as usize;
					let x = w.ch.bytes(st, n);
					w.probe("extended_data_sent");
					self.sent_ext = true;
					b().u8(95).u32(sid).u32(1 + w.ch.choose(st, 2)).s(&x)
				}
				3 => {
					// too late for the server to care
					let good = w.ch.chance(st, 1, 2);
					w.probe("auth_after_success");
					self.late_auth = true;
					self.gen_attempt(w, good).payload
				}
				0 => {
					let n = w.ch.choose(st, 80) as usize;
					b().u8(2).s(&w.ch.bytes(st, n))
				}
				1 => b().u8(4).u8(w.ch.choose(st, 2) as u8).s(b"debugging").s(b"en"),
				_ => b().u8(3).u32(w.ch.choose(st, 1000)),
			};
			w.probe("noise_message");
			self.sealed(w, &p);
		}
		if self.authed && self.prof.unsup > 0 && w.ch.chance(st, self.prof.unsup, 32) {
			self.unsupported(w);
		}
	}

	/// Something to be refused, whereafter everything goes on.
	fn unsupported(&mut self, w: &mut World) {
		let st = ST_CLIENT + self.idx as u32;
		if w.ch.chance(st, 1, 3) {
			let n = self.chans.len() as u32;
			let mut cid = if self.odd_ids { w.ch.choose(st, u32::MAX) } else { w.ch.choose(st, n + 3) };
			while self.live(cid) {
				cid = cid.wrapping_add(1);
			}
			let (ty, more): (&[u8], usize) = match w.ch.choose(st, 8) {
				0 => (b"direct-tcpip", 1),
				1 => (b"x11", 1),
				2 => (b"session@openssh.com", 2),
				3 => (b"", 2),
				4 => (b"sessio", 2),
				5 => (b"Session", 2),
				6 => (b"session\0", 2),
				_ => (b"tun@openssh.com", 2),
			};
			let mut p = b().u8(90).s(ty).u32(cid).u32(w.ch.choose(st, u32::MAX)).u32(w.ch.choose(st, 40_000));
			if more == 1 {
				let n = w.ch.choose(st, 60) as usize;
				let host = w.ch.bytes(st, n);
				p = p.s(&host).u32(22).s(b"127.0.0.1").u32(40_000);
			} else if w.ch.chance(st, 1, 2) {
				let n = w.ch.choose(st, 40) as usize;
				p.extend(w.ch.bytes(st, n));
			}
			let pkt = self.sealed(w, &p);
			self.refusals.push((pkt, cid));
			w.probe("unsupported_channel");
			return;
		}
		let seq = self.enc.as_ref().unwrap().seq as u32;
		let p = match w.ch.choose(st, 4) {
			0 => b().u8(80).s(b"keepalive@openssh.com").u8(1),
			1 => b().u8(80).s(b"no-more-sessions@openssh.com").u8(0),
			2 => b().u8(80).s(b"tcpip-forward").u8(1).s(b"0.0.0.0").u32(8022),
			_ => {
				let ty = match w.ch.choose(st, 6) {
					0 => 7 + w.ch.choose(st, 13),
					1 => 22 + w.ch.choose(st, 8),
					2 => 32 + w.ch.choose(st, 18),
					3 => 80 + w.ch.choose(st, 10),
					4 => 101 + w.ch.choose(st, 27),
					_ => 128 + w.ch.choose(st, 128),
				} as u8;
				let long = w.ch.chance(st, 1, 8);
				let n = w.ch.choose(st, if long { 2000 } else { 40 }) as usize;
				b().u8(ty).raw(&w.ch.bytes(st, n))
			}
		};
		let pkt = self.sealed(w, &p);
		self.unknown.push_back((pkt, seq));
		w.probe("unknown_message");
	}

	/// Is this number of a channel in use?
	fn live(&self, cid: u32) -> bool {
		self.chans.iter().any(|c| c.cid == cid && !(c.close_sent.is_some() && c.close_rcvd)) || self.refusals.iter().any(|r| r.1 == cid)
	}

	fn step_enc(&mut self, w: &mut World) -> bool {
		let st = ST_CLIENT + self.idx as u32;
		if self.disconnected.is_some() || self.broken_rx {
			return false;
		}
		if self.kind == Kind::KexOnly && self.service_sent && !self.service_pending {
			return self.do_end(w);
		}
		if !self.service_sent {
			// what a peer can do without
			let idle = self.mitm.as_ref().filter(|m| m.kind == Mk::Prefix).map_or(0, |m| m.at);
			for i in 0..idle {
				let p = if i % 2 == 0 { b().u8(2).s(b"") } else { b().u8(4).u8(0).s(b"").s(b"") };
				self.sealed(w, &p);
			}
			self.noise(w);
			self.service_sent = true;
			self.service_pending = true;
			self.sealed(w, &b().u8(5).s(b"ssh-userauth"));
			return true;
		}
		if self.kind == Kind::KexOnly || (self.service_pending && !self.pipeline) {
			return false;
		}
		if !self.authed {
			if !self.auth_pending.is_empty() && !self.pipeline {
				return false;
			}
			let a = if let Some(a) = self.attempts.pop_front() {
				a
			} else if self.garbled {
				return false;
			} else if self.tries == 0 && !self.accept_sent && self.kind != Kind::Probe && self.prof.garble > 0 && w.ch.chance(st, self.prof.garble, 64) {
				// something no server may make sense of, which ends this connection
				let good = w.ch.chance(st, 1, 2);
				let a = self.garble(w, good);
				self.garbled = true;
				self.cause(w);
				a
			} else if self.accept_sent {
				return false;
			} else if self.tries > 0 {
				self.tries -= 1;
				self.gen_attempt(w, false)
			} else if self.want_auth {
				self.gen_attempt(w, true)
			} else if self.auth_pending.is_empty() {
				return self.do_end(w);
			} else {
				return false;
			};
			self.noise(w);
			self.send_attempt(w, a);
			return true;
		}
		// channels
		let mut cand: Vec<usize> = Vec::new(); // 0: urgent, 1+f: fiber
		if !self.urgent.is_empty() {
			cand.push(0);
		}
		let mut all_done = true;
		for f in 0..self.fibers.len() {
			let done = self.fibers[f].ops.is_empty() && self.fibers[f].todo.is_empty();
			all_done &= done;
			if !done && self.runnable(f) {
				cand.push(1 + f);
			}
		}
		if cand.is_empty() {
			if all_done && self.chans_settled() {
				return self.do_end(w);
			}
			return false;
		}
		let k = cand[w.ch.choose(st, cand.len() as u32) as usize];
		self.noise(w);
		if k == 0 {
			let (c, p, close) = self.urgent.pop_front().unwrap();
			if self.chans[c].close_sent.is_none() {
				let pkt = self.sealed(w, &p);
				if close {
					self.chans[c].close_sent = Some((w.events, pkt));
				} else {
					let n = u32::from_be_bytes(p[5..9].try_into().unwrap());
					self.chans[c].granted += n as u64;
				}
			}
		} else {
			self.fiber_step(w, k - 1);
		}
		true
	}

	/// Nothing this client asked for is still on its way (clients end when done).
	fn chans_settled(&self) -> bool {
		self.unknown.is_empty()
			&& self.refusals.is_empty()
			&& self
			.chans
			.iter()
			.all(|c| c.replies.is_empty() || c.close_rcvd || c.close_sent.is_some())
	}

	fn do_end(&mut self, w: &mut World) -> bool {
		if self.end_done {
			return false;
		}
		self.end_done = true;
		match self.end {
			End::Stay => {}
			End::Disconnect | End::DiscStay => {
				self.cause(w);
				let st = ST_CLIENT + self.idx as u32;
				let why = match w.ch.choose(st, 4) {
					0 => 11,
					1 => w.ch.choose(st, 17),
					2 => 2,
					_ => w.ch.choose(st, u32::MAX),
				};
				let (text, lang) = (self.rnd_bytes(w, 20), w.ch.choose(st, 3) as usize);
				let n = self.sealed(w, &b().u8(1).u32(why).s(&text).s([&b""[..], b"en", b"\xff"][lang]));
				self.disconnected = Some(n);
				w.probe("disconnect_message");
				if self.end == End::Disconnect {
					self.finish(w, false);
				}
			}
			End::Fin => self.finish(w, false),
			End::Rst => self.finish(w, true),
		}
		false
	}

	// ---- authentication ------------------------------------------------------------------

	fn rnd_bytes(&mut self, w: &mut World, max: u32) -> Vec<u8> {
		let st = ST_CLIENT + self.idx as u32;
		let n = if w.ch.chance(st, self.prof.long, 32) {
			match w.ch.choose(st, 5) {
				0..=2 => w.ch.choose(st, 9000),
				3 => w.ch.choose(st, 32_600),
				_ => 32_600 - w.ch.choose(st, 64),
			}
		} else {
			w.ch.size(st, max)
		};
		if n > 64 {
			// long ones from a short seed
			let seed = w.ch.choose(st, u32::MAX);
			(0..n).map(|i| (i ^ seed).wrapping_mul(0x9e3779b1).rotate_left(11) as u8).collect()
		} else {
			w.ch.bytes(st, n as usize)
		}
	}

	pub fn gen_attempt(&mut self, w: &mut World, good: bool) -> Attempt {
		let long = self.prof.long;
		loop {
			let a = self.gen_any_attempt(w, good);
			// the longest payload every implementation must take
			if a.payload.len() <= 32768 {
				self.prof.long = long;
				return a;
			}
			self.prof.long = 0;
		}
	}

	/// A malformed request: too much or too little of it, or not in the form it has to have.
	fn garble(&mut self, w: &mut World, good: bool) -> Attempt {
		let st = ST_CLIENT + self.idx as u32;
		w.probe("malformed_auth");
		let mut a = self.gen_attempt(w, good);
		let mut r = Rd(&a.payload[1..]);
		let (user, service, m) = (r.s().unwrap().to_vec(), r.s().unwrap().to_vec(), r.s().unwrap().to_vec());
		let known = [&b"none"[..], b"password", b"publickey", b"hostbased"].contains(&&m[..]);
		if !known || w.ch.chance(st, 1, 6) {
			// text that is not text
			let bad = [&b"\xff"[..], b"a\x80", b"\xc3("][w.ch.choose(st, 3) as usize];
			let (host, them) = if w.ch.chance(st, 1, 2) { (bad, &b"me"[..]) } else { (&b"here"[..], bad) };
			a.payload = b().u8(50).s(&user).s(&service).s(b"hostbased").s(b"ssh-rsa").s(b"key").s(host).s(them).s(b"sig");
		} else if w.ch.chance(st, 1, 2) {
			let n = 1 + w.ch.choose(st, 9) as usize;
			let x = w.ch.bytes(st, n);
			a.payload.extend(x);
		} else {
			let n = 1 + w.ch.choose(st, 12) as usize;
			let l = a.payload.len();
			a.payload.truncate(l - n.min(l - 1));
		}
		a.pend.reply = Reply::Failure;
		a.pend.hist = None;
		a
	}

	fn gen_any_attempt(&mut self, w: &mut World, good: bool) -> Attempt {
		let st = ST_CLIENT + self.idx as u32;
		let daemon = self.prof.daemon;
		let tag = format!("~u{}.{}.", self.idx, w.events).into_bytes();
		let mut user = self.rnd_bytes(w, 24);
		let mut service = b"ssh-connection".to_vec();
		if w.ch.chance(st, 1, 6) {
			service = self.rnd_bytes(w, 20);
		}
		if daemon && (good || w.ch.chance(st, 1, 2)) {
			user = user.iter().map(|c| b'a' + c % 26).collect();
		}
		if daemon && w.ch.chance(st, 1, 4) {
			// names that may get a treatment of their own
			user = match w.ch.choose(st, 8) {
				0 | 1 => Vec::new(),
				2 => b"root".to_vec(),
				3 => b"admin".to_vec(),
				4 => b"\0".to_vec(),
				k @ (5 | 6) => {
					// long, with characters of several bytes; one of them cut short
					let n = w.ch.choose(st, 1000);
					let mut u: Vec<u8> = (0..n).flat_map(|i| ["\u{fc}", "x", "\u{65e5}"][(i as usize + n as usize) % 3].bytes()).collect();
					if k == 6 {
						u.push(0xe6);
					}
					u
				}
				_ => w.ch.bytes(st, 1),
			};
		} else if !daemon && w.ch.chance(st, 1, 6) {
			// the name may be empty; the tag goes elsewhere
			if w.ch.chance(st, 1, 2) {
				user.clear();
			}
			service.extend_from_slice(&tag);
		} else if w.ch.chance(st, 1, 2) {
			user.splice(0..0, tag.iter().copied());
		} else {
			user.extend_from_slice(&tag);
		}
		let again = if !w.sh.creds.is_empty() && w.ch.chance(st, 1, 4) {
			let n = w.sh.creds.len() as u32;
			let c = w.sh.creds[w.ch.choose(st, n) as usize].clone();
			if (daemon || c.owner == self.idx) && w.ch.chance(st, 2, 3) {
				(user, service) = (c.user.clone(), c.service.clone());
			}
			w.probe("credential_reused");
			Some(c)
		} else {
			None
		};
		let utf8 = std::str::from_utf8(&user).is_ok();
		if good && !utf8 && daemon {
			user = tag.clone();
		}
		let utf8 = utf8 || good && daemon;
		let head = |m: &[u8], user: &[u8], service: &[u8]| b().u8(50).s(user).s(service).s(m);
		let kind = if good {
			if daemon {
				4
			} else {
				[4, 1, 0][w.ch.choose(st, 3) as usize]
			}
		} else {
			w.ch.choose(st, 9)
		};
		let mut hist = None;
		let mut reply = Reply::Failure;
		let payload = match kind {
			0 => {
				if good {
					user.extend_from_slice(b".none-ok.");
				}
				let ok = none_ok(&user);
				hist = Some(Hist::Auth { user: user.clone(), service: service.clone(), m: AuthM::None, ok });
				if ok && !daemon {
					reply = Reply::Success;
				}
				head(b"none", &user, &service)
			}
			1 => {
				let mut pw = self.rnd_bytes(w, 24);
				if good {
					pw.splice(0..0, b"ok".iter().copied());
				} else if pw.starts_with(b"ok") {
					pw[0] = b'x';
				}
				hist = Some(Hist::Auth {
					user: user.clone(),
					service: service.clone(),
					m: AuthM::Password(pw.clone()),
					ok: good,
				});
				if good && !daemon {
					reply = Reply::Success;
				}
				head(b"password", &user, &service).u8(0).s(&pw)
			}
			2 => {
				// probe
				let (alg, key) = self.gen_key(w);
				let (blob, ok) = self.gen_blob(w, &alg, &key);
				if ok {
					let known = if daemon { alg == b"ssh-ed25519" } else { key_known(&key) };
					hist = Some(Hist::Exists {
						user: user.clone(),
						service: service.clone(),
						alg: alg.clone(),
						key,
						ok: known,
					});
					if known {
						reply = Reply::PkOk(b().s(&alg).s(&blob));
					}
				}
				head(b"publickey", &user, &service).u8(0).s(&alg).s(&blob)
			}
			3 | 4 | 5 => {
				// signed
				let (mut alg, mut key) = self.gen_key(w);
				let mut seed: [u8; 32] = sha(&[&w.ch.bytes(st, 4)]);
				if let Some(c) = &again {
					(alg, key, seed) = (c.alg.clone(), c.key.clone(), c.seed);
				}
				let pair = ed_key(seed);
				if daemon && (good || !w.ch.chance(st, 1, 6)) {
					alg = b"ssh-ed25519".to_vec();
					key = pair.public.as_bytes().to_vec();
				}
				if w.sh.creds.len() < 24 {
					w.sh.creds.push(Cred {
						owner: self.idx,
						user: user.clone(),
						service: service.clone(),
						alg: alg.clone(),
						key: key.clone(),
						seed,
					});
				}
				let (mut blob, mut blob_ok) = (b().s(&alg).s(&key), true);
				let how = if good { 0 } else { 1 + w.ch.choose(st, if daemon { 14 } else { 12 }) };
				if how == 13 {
					// some part of the key or the whole key and more, signed by it
					let mut k = key.clone();
					match w.ch.choose(st, 5) {
						0 => k.push(0),
						1 => k.extend_from_slice(&key),
						2 => {
							let n = 1 + w.ch.choose(st, 64) as usize;
							k.extend(w.ch.bytes(st, n));
						}
						3 => k.truncate(31),
						_ => k.splice(0..0, [0]).for_each(drop),
					}
					if daemon {
						key = k;
						blob = b().s(&alg).s(&key);
						w.probe("sig_key_resized");
					}
				}
				if how == 14 {
					// a key of small order: what passes for its signatures can be made by anyone
					key = SMALL_ORDER[w.ch.choose(st, SMALL_ORDER.len() as u32) as usize].to_vec();
					blob = b().s(&alg).s(&key);
					w.probe("sig_weak_key");
				}
				if how == 12 {
					// everything right but for the algorithm's name
					alg = near_alg(w, st);
					blob = b().s(&alg).s(&key);
					w.probe("sig_other_algorithm");
				}
				if how == 1 {
					(blob, blob_ok) = self.gen_blob(w, &alg, &key);
				}
				// what gets signed
				let mut sess = self.session.clone();
				let (mut u2, mut s2, mut a2, mut b2) = (user.clone(), service.clone(), alg.clone(), blob.clone());
				match how {
					2 => {
						// a signature carried over from another session
						let other: Vec<_> = w.sh.sessions.iter().filter(|s| **s != sess).cloned().collect();
						sess = if other.is_empty() {
							sha(&[&sess]).to_vec()
						} else {
							other[w.ch.choose(st, other.len() as u32) as usize].clone()
						};
						w.probe("sig_other_session");
					}
					3 => u2.push(b'x'),
					4 => s2.push(b'x'),
					5 => a2.push(b'x'),
					6 => b2.push(0),
					_ => {}
				}
				let mut msg = sign_data(&sess, &u2, &s2, &a2, &b2);
				match how {
					7 => {
						// everything but the session
						msg.drain(..4 + sess.len());
					}
					8 => msg[4 + sess.len() + 1] ^= 1,
					_ => {}
				}
				let mut sig = if daemon {
					use ed25519_dalek::Signer;
					pair.sign(&msg).to_bytes().to_vec()
				} else {
					toy_sig(&key, &msg)
				};
				match how {
					9 => {
						let i = w.ch.choose(st, sig.len() as u32 * 8) as usize;
						sig[i / 8] ^= 1 << (i % 8);
					}
					10 => {
						if w.ch.chance(st, 1, 2) {
							sig.pop();
						} else {
							sig.push(0);
						}
					}
					11 => {
						// another key's signature
						sig = if daemon {
							use ed25519_dalek::Signer;
							ed_key(sha(&[&seed])).sign(&msg).to_bytes().to_vec()
						} else {
							toy_sig(&sha(&[&key]), &msg)
						};
					}
					14 => {
						sig = SMALL_ORDER[w.ch.choose(st, SMALL_ORDER.len() as u32) as usize].to_vec();
						sig.resize(64, 0);
					}
					_ => {}
				}
				let (mut sblob, mut sig_ok) = (b().s(&alg).s(&sig), true);
				if how == 1 && blob_ok {
					(sblob, sig_ok) = self.gen_blob(w, &alg, &sig);
				}
				let real = sign_data(&self.session, &user, &service, &alg, &blob);
				let ok = if !blob_ok || !sig_ok {
					false
				} else if daemon {
					alg == b"ssh-ed25519"
						&& utf8 && ed25519_dalek::PublicKey::from_bytes(&key)
						.ok()
						.zip(ed25519_dalek::Signature::from_bytes(&sig).ok())
						.map_or(false, |(k, s)| key.len() == 32 && k.verify_strict(&real, &s).is_ok())
				} else {
					sig == toy_sig(&key, &real)
				};
				if blob_ok && sig_ok {
					hist = Some(Hist::Auth {
						user: user.clone(),
						service: service.clone(),
						m: AuthM::PublicKey { alg: alg.clone(), key: key.clone(), sig: sig.clone(), msg: real },
						ok,
					});
				}
				if ok {
					reply = Reply::Success;
				}
				head(b"publickey", &user, &service).u8(flag(w, st, true)).s(&alg).s(&blob).s(&sblob)
			}
			6 => {
				let (mut old, mut new) = (self.rnd_bytes(w, 12), self.rnd_bytes(w, 12));
				for x in [&mut old, &mut new] {
					match w.ch.choose(st, 4) {
						0 => {}
						1 => x.clear(),
						_ => {
							x.splice(0..0, b"ok".iter().copied());
						}
					}
				}
				if w.ch.chance(st, 1, 6) {
					new = old.clone();
				}
				head(b"password", &user, &service).u8(flag(w, st, true)).s(&old).s(&new)
			}
			7 => {
				let (alg, key) = self.gen_key(w);
				let (blob, _) = self.gen_blob(w, &alg, &key);
				let host: &[u8] = [&b""[..], b"localhost", b"127.0.0.1", b"host.example."][w.ch.choose(st, 4) as usize];
				let them = match w.ch.choose(st, 3) {
					0 => user.clone(),
					1 => Vec::new(),
					_ => self.rnd_bytes(w, 12),
				};
				// which has to be UTF-8
				let them = String::from_utf8_lossy(&them).into_owned().into_bytes();
				let p = head(b"hostbased", &user, &service).s(&alg).s(&blob).s(host).s(&them);
				let sig = match w.ch.choose(st, 4) {
					0 => Vec::new(),
					1 => {
						// made as it should be
						let m = b().s(&self.session).raw(&p);
						b().s(&alg).s(&toy_sig(&key, &m))
					}
					2 => b().s(&alg).s(&toy_sig(&key, &sign_data(&self.session, &user, &service, &alg, &blob))),
					_ => self.rnd_bytes(w, 40),
				};
				p.s(&sig)
			}
			_ => {
				let m = match w.ch.choose(st, 8) {
					n @ 4.. => {
						// close to one there is, with what would belong to it
						let n = (n % 4) as usize;
						let mut m = [&b"none"[..], b"password", b"publickey", b"password"][n].to_vec();
						match w.ch.choose(st, 8) {
							0 => m.make_ascii_uppercase(),
							1 => m[0] = m[0].to_ascii_uppercase(),
							2 => m.push(0),
							3 => m.push(b' '),
							4 => drop(m.pop()),
							5 => m.extend_from_slice(b"@openssh.com"),
							6 => m.insert(0, b' '),
							_ => {
								let i = w.ch.choose(st, m.len() as u32) as usize;
								m[i] ^= 0x20;
							}
						}
						w.probe("near_method");
						let p = head(&m, &user, &service);
						let p = match n {
							0 => p,
							2 => {
								let (alg, key) = self.gen_key(w);
								let blob = b().s(&alg).s(&key);
								let msg = sign_data(&self.session, &user, &service, &alg, &blob);
								p.u8(1).s(&alg).s(&blob).s(&b().s(&alg).s(&toy_sig(&key, &msg)))
							}
							_ => p.u8(0).s(b"ok"),
						};
						return Attempt { payload: p, pend: AuthPend { pkt: 0, reply, hist, user } };
					}
					0 => b"keyboard-interactive".to_vec(),
					1 => b"gssapi-with-mic".to_vec(),
					2 => Vec::new(),
					_ => {
						let mut x = self.rnd_bytes(w, 20);
						x.push(b'?');
						x
					}
				};
				let x = self.rnd_bytes(w, 40);
				head(&m, &user, &service).raw(&x)
			}
		};
		Attempt { payload, pend: AuthPend { pkt: 0, reply, hist, user } }
	}

	/// Some algorithm name and key bytes.
	fn gen_key(&mut self, w: &mut World) -> (Vec<u8>, Vec<u8>) {
		let st = ST_CLIENT + self.idx as u32;
		let alg = match w.ch.choose(st, 4) {
			0 | 1 => b"ssh-ed25519".to_vec(),
			2 => near_alg(w, st),
			_ => self.rnd_bytes(w, 20),
		};
		let key = if w.ch.chance(st, 1, 2) { w.ch.bytes(st, 32) } else { self.rnd_bytes(w, 60) };
		(alg, key)
	}

	/// `string alg, string value`, or something broken.
	fn gen_blob(&mut self, w: &mut World, alg: &[u8], value: &[u8]) -> (Vec<u8>, bool) {
		let st = ST_CLIENT + self.idx as u32;
		let good = b().s(alg).s(value);
		let bad = match w.ch.choose(st, 13) {
			0 | 1 => return (good, true),
			8 => b().s(&alg[..w.ch.choose(st, alg.len() as u32 + 1) as usize]).s(value),
			9 => b().s(b"").s(value),
			10 => b().s(&alg.iter().map(|c| if c.is_ascii_lowercase() { c & !32 } else { c | 32 }).collect::<Vec<_>>()).s(value),
			11 => b().s(&near_alg(w, st)).s(value),
			12 => value.to_vec(),
			2 => good[..w.ch.choose(st, good.len() as u32) as usize].to_vec(),
			3 => good.u8(0),
			4 => b().s(&[alg, b"x"].concat()).s(value),
			5 => b().s(alg),
			6 => b().u32(0xffff_fff0).raw(alg),
			_ => self.rnd_bytes(w, 40),
		};
		let ok = {
			let mut r = Rd(&bad);
			r.s() == Some(alg) && r.s() == Some(value) && r.end().is_some()
		};
		(bad, ok)
	}

	pub fn send_attempt(&mut self, w: &mut World, mut a: Attempt) {
		a.pend.pkt = self.sealed(w, &a.payload);
		self.stat("auth_requests");
		if self.accept_sent {
			// to be ignored silently
			return;
		}
		if let Some(h) = &a.pend.hist {
			self.expect_hist.push((a.pend.pkt, h.clone()));
		}
		if matches!(a.pend.reply, Reply::Success) {
			self.accept_sent = true;
			self.user = a.pend.user.clone();
		}
		self.auth_pending.push_back(a.pend);
	}

	// ---- channels ------------------------------------------------------------------------

	fn runnable(&self, f: usize) -> bool {
		let fb = &self.fibers[f];
		if fb.sleeping {
			return false;
		}
		let Some(op) = fb.ops.front() else { return true };
		let Some(c) = fb.chan.map(|c| &self.chans[c]) else { return true };
		if c.close_rcvd || c.refused {
			return true;
		}
		match op {
			Op::Open => true,
			Op::WaitOpen => c.opened,
			Op::Data(_) => c.srv_win > 0,
			Op::WaitReplies => c.replies.is_empty(),
			Op::WaitOut(n) => c.out + c.err >= *n as usize || c.maxp == 0,
			Op::WaitClosed => false,
			_ => true,
		}
	}

	fn fiber_step(&mut self, w: &mut World, f: usize) {
		let st = ST_CLIENT + self.idx as u32;
		if self.fibers[f].ops.is_empty() {
			let t = self.fibers[f].todo.pop_front().unwrap();
			if self.prof.churn && self.kind != Kind::Probe && self.chan_total >= 40 && self.chan_total % 10 == 0 {
				self.heap_marks.push((self.chan_total, crate::heap::live()));
			}
			self.fibers[f].ops = t;
			self.fibers[f].chan = None;
		}
		let op = self.fibers[f].ops.front().cloned().unwrap();
		let Some(ci) = self.fibers[f].chan else {
			self.fibers[f].ops.pop_front();
			let c = self.open(w);
			self.fibers[f].chan = Some(c);
			return;
		};
		if self.chans[ci].close_rcvd || self.chans[ci].refused {
			self.fibers[f].ops.clear();
			return;
		}
		let dead = self.chans[ci].close_sent.is_some();
		let sid = self.chans[ci].sid.unwrap_or(0);
		self.fibers[f].ops.pop_front();
		match op {
			Op::Open | Op::WaitOpen | Op::WaitReplies | Op::WaitOut(_) | Op::WaitClosed => {}
			_ if dead => {}
			Op::Sleep(us) => {
				self.fibers[f].sleeping = true;
				let t = us as u64;
				// wakes through the ordinary client event
				w.after(t, Ev::Timer(self.idx, f));
			}
			Op::Exec(shell, plan) => self.exec(w, ci, shell, *plan),
			Op::Req => self.odd_request(w, ci),
			Op::Tag => {
				let p = self.chans[ci].prefix.clone();
				self.data(w, ci, p.len());
			}
			Op::Data(n) => {
				if self.chans[ci].eof_sent.is_some() || self.chans[ci].overrun {
					return;
				}
				if n == 0 {
					if w.ch.chance(st, 1, 8) {
						self.sealed(w, &b().u8(94).u32(sid).s(b""));
					}
					return;
				}
				let proc_ = match self.prof.overrun > 0 && self.kind == Kind::Normal && self.end_cause.is_none() {
					true => self.proc_of(w, ci),
					false => None,
				};
				if let (Some(p), true) = (proc_, proc_.is_some() && w.ch.chance(st, 1, 8)) {
					let extra = 1 + match w.ch.choose(st, 3) {
						0 => 0,
						1 => w.ch.choose(st, 40_000),
						_ => w.ch.choose(st, 600_000),
					};
					self.cause(w);
					self.chans[ci].overrun = true;
					w.probe("window_overrun");
					let mut left = self.chans[ci].srv_win as usize + extra as usize;
					while left > 0 {
						let k = left.min(32768);
						self.data(w, ci, k);
						left -= k;
					}
					w.conns[self.idx].mark = Some((self.wire_sent, p));
					return;
				}
				if w.ch.chance(st, 1, 24) {
					self.sealed(w, &b().u8(94).u32(sid).s(b""));
				}
				if self.prof.churn && self.kind != Kind::Probe && self.chan_total == 1 {
					let n = self.fibers[f].ops.len() as u32;
					if n < 2000 && n % 50 < 2 {
						self.heap_marks.push((n, crate::heap::live()));
					}
				}
				let c = &self.chans[ci];
				let max = (n as u64).min(c.srv_win).min(c.srv_max as u64) as u32;
				let k = match w.ch.choose(st, 4) {
					0 | 1 => max,
					2 => max.min(1 + w.ch.choose(st, 32)),
					_ => 1 + w.ch.choose(st, max),
				};
				// keep very long transfers in few packets
				let k = if n > 100_000 || w.worn > 0 { max } else { k };
				self.data(w, ci, k as usize);
				if n > k && w.worn < 2 {
					self.fibers[f].ops.push_front(Op::Data(n - k));
				}
			}
			Op::Eof => {
				if self.chans[ci].eof_sent.is_none() {
					let pkt = self.sealed(w, &b().u8(96).u32(sid));
					self.chans[ci].eof_sent = Some((w.events, pkt));
				}
			}
			Op::Close => {
				let pkt = self.sealed(w, &b().u8(97).u32(sid));
				self.chans[ci].close_sent = Some((w.events, pkt));
				w.probe("client_close");
			}
		}
	}

	pub fn open(&mut self, w: &mut World) -> usize {
		let st = ST_CLIENT + self.idx as u32;
		let mut cid = if self.odd_ids { w.ch.choose(st, u32::MAX) } else { self.chans.len() as u32 };
		while self.live(cid) {
			cid = cid.wrapping_add(1);
		}
		let mut credit = match w.ch.choose(st, 4) {
			x if x >= self.prof.tiny_win => Credit::Huge,
			0 | 1 => Credit::Half(1 + w.ch.size(st, 40_000)),
			_ if w.ch.chance(st, 1, 4) => Credit::Exact([1 << 16, 1 << 17, 1 << 24, 1 << 31, 0xffff_0000, u32::MAX][w.ch.choose(st, 6) as usize]),
			_ => Credit::Exact(1 + w.ch.size(st, 700)),
		};
		if self.kind == Kind::Probe {
			credit = Credit::Half(1 << 16);
		}
		let win0 = match credit {
			Credit::Huge => u32::MAX - w.ch.choose(st, 2),
			Credit::Half(n) => n,
			Credit::Exact(_) => w.ch.choose(st, 3) * w.ch.choose(st, 40),
		};
		let flood = self.prof.hold > 0 && self.kind == Kind::Normal && !self.prof.churn && w.ch.chance(st, self.prof.hold, 128);
		let hold = flood && w.ch.chance(st, 1, 2);
		let (credit, win0) = match (hold, flood) {
			(true, _) => (Credit::Half(200_000), w.ch.size(st, 2000)),
			(_, true) => (Credit::Huge, u32::MAX),
			_ => (credit, win0),
		};
		let maxp = match w.ch.choose(st, 4) {
			_ if flood => 32768,
			0 | 1 => 32768,
			2 => 1 + w.ch.choose(st, 300),
			_ => u32::MAX,
		};
		// who takes no data at all gets none
		let none = self.prof.tiny_win > 0 && self.kind != Kind::Probe && w.ch.chance(st, 1, 50);
		let maxp = if none { 0 } else { maxp };
		let pkt = self.sealed(w, &b().u8(90).s(b"session").u32(cid).u32(win0).u32(maxp));
		self.chan_total += 1;
		let salt = (self.idx as u32 * 131 + self.chan_total).wrapping_mul(0x27d4eb2f);
		self.chans.push(Chan {
			cid,
			sid: None,
			open_pkt: pkt,
			opened: false,
			refused: false,
			credit,
			flood,
			hold,
			win0,
			maxp,
			granted: win0 as u64,
			got: 0,
			srv_win: 0,
			srv_win0: 0,
			overrun: false,
			srv_max: 0,
			replies: VecDeque::new(),
			has_proc: false,
			spawn: None,
			sent: 0,
			sent_by: Vec::new(),
			prefix: Vec::new(),
			eof_sent: None,
			close_sent: None,
			out: 0,
			err: 0,
			status: None,
			eof_rcvd: false,
			close_rcvd: false,
			blocked: false,
			salt,
		});
		self.stat("channels");
		self.chans.len() - 1
	}

	fn data(&mut self, w: &mut World, ci: usize, n: usize) {
		let c = &self.chans[ci];
		let bytes: Vec<u8> = (c.sent..c.sent + n).map(|i| c.in_byte(i)).collect();
		let sid = c.sid.unwrap();
		let pkt = self.sealed(w, &b().u8(94).u32(sid).s(&bytes));
		let c = &mut self.chans[ci];
		c.sent += n;
		c.sent_by.push((pkt, n));
		c.srv_win = c.srv_win.saturating_sub(n as u64);
		*self.stats.entry("stdin_bytes").or_default() += n as u64;
	}

	fn exec(&mut self, w: &mut World, ci: usize, shell: bool, mut plan: ProcPlan) {
		let st = ST_CLIENT + self.idx as u32;
		let daemon = self.prof.daemon;
		self.execs += 1;
		if self.chans[ci].flood && !plan.fail {
			w.probe(if self.chans[ci].hold { "window_withheld" } else { "flood" });
			let n = 210_000 + w.ch.size(st, 100_000);
			plan.steps.insert(0, if w.ch.chance(st, 1, 2) { PStep::Out(n) } else { PStep::Err(n) });
		}
		let key = format!("~k{}.{}.", self.idx, self.execs).into_bytes();
		let mut argv = Vec::new();
		let mut none = false; // nothing to run
		let cmd = if shell {
			if daemon {
				self.chans[ci].prefix = [&key[..], b"\n"].concat();
			}
			Vec::new()
		} else if daemon {
			let ws = b" \t\n\x0c\r ";
			let sep = |w: &mut World, v: &mut Vec<u8>, min: u32| {
				for _ in 0..min + w.ch.choose(st, 4).saturating_sub(1) {
					v.push(ws[w.ch.choose(st, 6) as usize]);
				}
			};
			if self.kind != Kind::Probe && w.ch.chance(st, 1, 12) {
				none = true;
				let mut v = Vec::new();
				sep(w, &mut v, 0);
				v
			} else {
				let many = self.kind != Kind::Probe && w.ch.chance(st, 1, 10);
				let n = 1 + w.ch.choose(st, if many { 60 } else { 5 }) as usize;
				let at = w.ch.choose(st, n as u32) as usize;
				let mut v = Vec::new();
				sep(w, &mut v, 0);
				for i in 0..n {
					let mut word: Vec<u8> = if i == at {
						key.clone()
					} else {
						let mut x = self.rnd_bytes(w, 12);
						if v.len() + x.len() > 30_000 {
							x.clear();
						}
						x.push(b'a');
						x.iter_mut().for_each(|c| {
							if c.is_ascii_whitespace() || *c == 0 || *c == b'~' {
								*c = b'_';
							}
						});
						x
					};
					if i == at && self.kind != Kind::Probe && w.ch.chance(st, 1, 24) {
						// cannot be passed to any program
						word.push(0);
						plan.fail = true;
					}
					v.extend_from_slice(&word);
					argv.push(word);
					sep(w, &mut v, if i + 1 < n { 1 } else { 0 });
				}
				v
			}
		} else {
			match w.ch.choose(st, 8) {
				0 => Vec::new(),
				1 => self.rnd_bytes(w, 40),
				_ => {
					let x = self.rnd_bytes(w, 40);
					[&key[..], &x].concat()
				}
			}
		};
		let sid = self.chans[ci].sid.unwrap();
		let want = !w.ch.chance(st, 1, 4);
		let p = b().u8(98).u32(sid);
		let f = flag(w, st, want);
		let p = if shell {
			p.s(b"shell").u8(f)
		} else {
			p.s(b"exec").u8(f).s(&cmd)
		};
		let pkt = self.pkts;
		let c = &mut self.chans[ci];
		let mut ok = false;
		if !c.has_proc && !none {
			ok = !plan.fail;
			w.spawns.push(SpawnExp {
				owner: self.idx,
				pkt,
				shell,
				cmd,
				argv,
				key,
				plan,
				calls: 0,
				user: Vec::new(),
				proc_: None,
			});
			if ok {
				c.has_proc = true;
				c.spawn = Some(w.spawns.len() - 1);
			}
			*self.stats.entry("execs").or_default() += 1;
		}
		if want {
			c.replies.push_back((ok, pkt));
		}
		let p2 = self.sealed(w, &p);
		debug_assert_eq!(p2, pkt);
	}

	/// Requests that must fail and start nothing.
	/// Something for a channel that does not exist, with a number that resembles that of one which does.
	fn alias(&mut self, w: &mut World, ci: usize) {
		let st = ST_CLIENT + self.idx as u32;
		let bit = [31, 24, 16, 8][w.ch.choose(st, if self.chans.len() < 200 { 4 } else { 3 }) as usize];
		let sid = self.chans[ci].sid.unwrap() | 1 << bit;
		if self.chans.iter().any(|c| c.sid == Some(sid)) {
			return;
		}
		self.cause(w);
		let p = match w.ch.choose(st, 3) {
			0 => b().u8(98).u32(sid).s(b"exec").u8(1).s(b"nobody asked for this"),
			1 => b().u8(98).u32(sid).s(b"shell").u8(1),
			_ => b().u8(94).u32(sid).s(b"for no process at all"),
		};
		self.sealed(w, &p);
		w.probe("channel_number_alias");
	}

	fn odd_request(&mut self, w: &mut World, ci: usize) {
		if self.kind == Kind::Normal && self.end_cause.is_none() && w.ch.chance(ST_CLIENT + self.idx as u32, 1, 40) {
			return self.alias(w, ci);
		}
		let st = ST_CLIENT + self.idx as u32;
		let want = !w.ch.chance(st, 1, 4);
		let x = self.rnd_bytes(w, 20);
		let (ty, data): (&[u8], Vec<u8>) = match w.ch.choose(st, 16) {
			0 => (b"env", b().s(b"LANG").s(&x)),
			1 => (b"pty-req", b().s(b"xterm").u32(80).u32(25).u32(0).u32(0).s(b"\0")),
			2 => (b"window-change", b().u32(1).u32(2).u32(3).u32(4)),
			3 => (b"signal", b().s(b"TERM")),
			4 => (b"subsystem", b().s(b"sftp")),
			5 => (b"x11-req", b().u8(0).s(b"p").s(b"c").u32(0)),
			6 => (b"xon-xoff", b().u8(1)),
			7 => (b"exec", b().u32(100).raw(b"short")),
			8 => (b"exec", b().s(b"trailing").u8(1)),
			9 => (b"exec", b()),
			10 => (b"shell", b().u8(0)),
			11 => (b"shell2", b()),
			12 => (b"", b()),
			13 => (b"exit-status", b().u32(0)),
			14 => (b"auth-agent-req@openssh.com", b()),
			_ => (b"env", x),
		};
		let sid = self.chans[ci].sid.unwrap();
		let f = flag(w, st, want);
		let pkt = self.sealed(w, &b().u8(98).u32(sid).s(ty).u8(f).raw(&data));
		if want {
			self.chans[ci].replies.push_back((false, pkt));
		}
		w.probe("odd_request");
	}

	/// Grant more window according to the channel's policy.
	fn credit(&mut self, w: &World, ci: usize) {
		let c = &self.chans[ci];
		let Some(sid) = c.sid else { return };
		if !c.open() || self.urgent.iter().any(|u| u.0 == ci) {
			return;
		}
		if c.hold && !w.no_faults {
			return;
		}
		let left = c.granted - c.got;
		let add = match c.credit {
			Credit::Huge => return,
			Credit::Half(n) if left <= n as u64 / 2 => (if w.worn > 0 { n.max(8192) } else { n }) - left as u32,
			Credit::Exact(n) if left == 0 => if w.worn > 0 { n.max(8192) } else { n },
			_ => return,
		};
		self.urgent.push_back((ci, b().u8(93).u32(sid).u32(add), false));
	}

	// ---- receiving -----------------------------------------------------------------------

	pub fn rx(&mut self, w: &mut World, bytes: Vec<u8>) {
		if bytes.is_empty() {
			self.server_ended = true;
			w.note(|| format!("client sees end of connection"));
			if self.end_cause.is_none() && !self.refused() {
				let idx = self.idx;
				if self.late_auth {
					w.violate("C06", "ended", format!("the server ended connection {idx}, which asked for authentication again after success"));
				}
				if !self.unknown.is_empty() || !self.refusals.is_empty() || self.sent_ext {
					w.violate("C23", "ended", format!("the server ended connection {idx} over unsupported messages"));
				}
				for p in ["C12", "C13", "C21"] {
					w.violate(p, "ended", format!("the server ended connection {idx} ({:?}) without cause", self.kind));
				}
				self.obligations(w, true);
			}
			// an unfinished packet at the end is fine only if someone broke the connection
			self.kick(w);
			return;
		}
		if self.broken_rx {
			return;
		}
		self.rxbuf.extend_from_slice(&bytes);
		while !self.broken_rx && self.rx_one(w) {}
		self.kick(w);
	}

	fn bad(&mut self, w: &mut World, props: &[&'static str], class: &str, msg: String) {
		let idx = self.idx;
		for p in props {
			w.violate(p, class, format!("connection {idx}: {msg}"));
		}
		self.broken_rx = true;
	}

	fn rx_one(&mut self, w: &mut World) -> bool {
		match self.rx {
			Rx::Ident => {
				let Some(i) = self.rxbuf.windows(2).position(|x| x == b"\r\n") else {
					if self.rxbuf.len() > 2000 {
						self.bad(w, &["C03"], "ident", "no identification string".into());
					}
					return false;
				};
				let line: Vec<u8> = self.rxbuf.drain(..i + 2).take(i).collect();
				if !line.starts_with(b"SSH-") {
					return true;
				}
				if !line.starts_with(b"SSH-2.0-") || line.len() > 253 {
					self.bad(w, &["C03"], "ident", format!("identification string {line:?}"));
				}
				if w.sh.host_ident.as_ref().map_or(false, |i| *i != line) {
					self.bad(w, &["C03"], "ident", format!("identification string {line:?} is not the configured one"));
				}
				self.srv_ident = line;
				if let Some((Tam::SIdent, n)) = self.tamper {
					let i = 8 + n as usize % (self.srv_ident.len() - 8);
					self.srv_ident[i] ^= 1;
					self.tampered(w);
				}
				self.rx = Rx::Kex;
				true
			}
			Rx::Kex | Rx::Reply | Rx::NewKeys => {
				if self.rxbuf.len() < 5 {
					return false;
				}
				let n = u32::from_be_bytes(self.rxbuf[..4].try_into().unwrap()) as usize;
				if n > 35000 || (n + 4) % 8 != 0 || n < 5 {
					self.bad(w, &["C03"], "clear-packet", format!("clear-text packet length {n}"));
					return false;
				}
				if self.rxbuf.len() < 4 + n {
					return false;
				}
				let p: Vec<u8> = self.rxbuf.drain(..4 + n).collect();
				let pad = p[4] as usize;
				if pad < 4 || pad + 1 >= n {
					self.bad(w, &["C03"], "clear-packet", format!("padding {pad} of {n}"));
					return false;
				}
				let payload = p[5..4 + n - pad].to_vec();
				self.rx_clear(w, payload);
				true
			}
			Rx::Enc => {
				if self.rxbuf.len() < 4 {
					return false;
				}
				let d = self.dec.as_mut().unwrap();
				let n = d.open_len(&self.rxbuf) as usize;
				if n > 35000 || n % 8 != 0 || n < 8 {
					let seq = d.seq;
					let first = seq == 3;
					self.bad(w, if first { &["C02", "C03"] } else { &["C02"] }, "length", format!("packet {seq} has length {n}"));
					return false;
				}
				if self.rxbuf.len() < 4 + n + TAG {
					return false;
				}
				let p: Vec<u8> = self.rxbuf.drain(..4 + n + TAG).collect();
				let seq = d.seq;
				let Some(body) = d.open(&p) else {
					let first = seq == 3;
					self.bad(w, if first { &["C02", "C03"] } else { &["C02"] }, "tag", format!("packet {seq} does not authenticate"));
					return false;
				};
				let pad = body[0] as usize;
				if pad < 4 || pad + 1 >= n {
					self.bad(w, &["C02"], "padding", format!("packet {seq} has {pad} bytes of padding in {n}"));
					return false;
				}
				let payload = body[1..n - pad].to_vec();
				self.stat("packets_opened");
				w.ev("c-rx", self.idx as u64, payload[0] as u64);
				self.rx_enc(w, &payload);
				true
			}
		}
	}

	fn rx_clear(&mut self, w: &mut World, mut p: Vec<u8>) {
		match (self.rx, p[0]) {
			(Rx::Kex, 20) => {
				if let Err(e) = self.negotiate(&p) {
					self.bad(w, &["C05"], "proposal", e);
				}
				if let Some((Tam::SKex, n)) = self.tamper {
					let i = 1 + n as usize % (p.len() - 1);
					p[i] ^= 1 << (n >> 13 & 7);
					self.tampered(w);
				}
				self.srv_kex = p;
				self.rx = Rx::Reply;
			}
			(Rx::Reply, 31) => {
				if self.kind == Kind::BadAlgo {
					self.bad(w, &["C05"], "reply", "key exchange reply without common algorithms".into());
					return;
				}
				if self.kind == Kind::BadKey {
					let k = self.pubkey.clone();
					self.bad(w, &["C03"], "reply", format!("key exchange reply to the unusable key {k:x?}"));
					return;
				}
				self.reply_seen = true;
				match self.kex_reply(w, &p) {
					Ok(()) => {
						self.verified = true;
						if self.tamper.is_some() && self.end_cause.is_some() {
							let t = self.tamper;
							self.bad(w, &["C03"], "unbound", format!("signature verifies although {t:?} was altered"));
							return;
						}
					}
					Err(e) => {
						if self.end_cause.is_none() || self.kind == Kind::Mitm {
							self.bad(w, &["C03"], "signature", e);
						}
					}
				}
				self.rx = Rx::NewKeys;
			}
			(Rx::NewKeys, 21) if p.len() == 1 => {
				self.rx = Rx::Enc;
				if let Some((_, k)) = self.keys {
					self.dec = Some(Sealer::new(&k, 3));
				} else {
					self.broken_rx = true;
				}
			}
			(_, 1..=4) => {}
			(s, t) => self.bad(w, &["C03"], "order", format!("message {t} at {s:?}")),
		}
	}

	/// Would a client that goes by the rules select what this server implements?
	fn negotiate(&self, p: &[u8]) -> Result<(), String> {
		let lists = |p: &[u8]| -> Option<(Vec<Vec<u8>>, u8)> {
			let mut r = Rd(&p[17..]);
			let mut l = Vec::new();
			for _ in 0..10 {
				l.push(r.s()?.to_vec());
			}
			let f = r.take(1)?[0];
			r.take(4)?;
			r.end()?;
			Some((l, f))
		};
		if p.len() < 17 {
			return Err("malformed proposal".into());
		}
		let (s, follows) = lists(p).ok_or("malformed proposal")?;
		if follows != 0 {
			return Err("the server announces a guessed packet it never sends".into());
		}
		if self.kind == Kind::BadAlgo {
			return Ok(());
		}
		let Some((c, _)) = lists(&self.kexinit) else {
			return Ok(());
		};
		for (i, want) in [(0, KEX), (1, HOST), (2, CIPHER), (3, CIPHER), (6, "none"), (7, "none")] {
			let mut names = c[i].split(|x| *x == b',');
			let got = names.find(|n| s[i].split(|x| *x == b',').any(|m| m == *n));
			if got != Some(want.as_bytes()) {
				let g = got.map(|g| String::from_utf8_lossy(g).into_owned());
				return Err(format!("a client would select {g:?} instead of {want:?}"));
			}
		}
		Ok(())
	}

	fn kex_reply(&mut self, w: &mut World, p: &[u8]) -> Result<(), String> {
		let mut r = Rd(&p[1..]);
		let mut f = || -> Option<(Vec<u8>, Vec<u8>, Vec<u8>)> {
			let k = r.s()?.to_vec();
			let q = r.s()?.to_vec();
			let s = r.s()?.to_vec();
			r.end()?;
			Some((k, q, s))
		};
		let (mut ks, mut qs, mut sig) = f().ok_or("malformed reply")?;
		if qs.len() != 32 {
			return Err(format!("server ephemeral key of {} bytes", qs.len()));
		}
		if !w.sh.eph.insert(qs.clone()) {
			w.violate("C04", "ephemeral", format!("connection {}: server ephemeral key used before", self.idx));
		}
		match self.tamper {
			Some((Tam::SHost, n)) => {
				let i = n as usize % ks.len();
				ks[i] ^= 1 << (n >> 13 & 7);
				self.tampered(w);
			}
			Some((Tam::SEph, n)) => {
				qs[n as usize / 8 % 32] ^= 1 << (n & 7);
				self.tampered(w);
			}
			Some((Tam::SSig, n)) => {
				// inside r or s, past the lengths
				let lo = sig.len() - 30;
				let i = lo + n as usize % 30;
				sig[i] ^= 1 << (n >> 13 & 7);
				self.tampered(w);
			}
			_ => {
				match &w.sh.host_key {
					None => w.sh.host_key = Some(ks.clone()),
					Some(k) if *k != ks => return Err("another host key".into()),
					_ => {}
				}
			}
		}
		let secret = x25519_dalek::StaticSecret::from(self.secret);
		let peer: [u8; 32] = qs[..].try_into().unwrap();
		let shared = secret.diffie_hellman(&x25519_dalek::PublicKey::from(peer));
		let k = b().mpint(shared.as_bytes());
		if shared.as_bytes()[0] == 0 {
			w.probe("secret_leading_zero");
		}
		let t = b()
			.s(&self.ident)
			.s(&self.srv_ident)
			.s(&self.kexinit)
			.s(&self.srv_kex)
			.s(&ks)
			.s(&self.pubkey)
			.s(&qs)
			.raw(&k);
		let h = sha(&[&t]);
		let derive = |x: u8| -> [u8; 64] {
			let k1 = sha(&[&k, &h, &[x], &h]);
			let k2 = sha(&[&k, &h, &k1]);
			[k1, k2].concat().try_into().unwrap()
		};
		let (c2s, s2c) = (derive(b'C'), derive(b'D'));
		self.session = h.to_vec();
		self.keys = Some((c2s, s2c));
		if self.tamper.is_none() {
			w.sh.sessions.push(h.to_vec());
			let dup = !w.sh.sids.insert(h.to_vec()) | !w.sh.keys.insert(c2s.to_vec()) | !w.sh.keys.insert(s2c.to_vec());
			if dup {
				w.violate("C04", "session", format!("connection {}: session identifier or keys used before", self.idx));
			}
		}
		// signature
		let mut kr = Rd(&ks);
		let mut f = || -> Option<Vec<u8>> {
			(kr.s()? == HOST.as_bytes() && kr.s()? == b"nistp256").then(|| ())?;
			let q = kr.s()?.to_vec();
			kr.end()?;
			Some(q)
		};
		let q = f().ok_or("malformed host key")?;
		if self.tamper.is_none() && (q.len() != 65 || q[0] != 4) {
			return Err("host key not in the form clients know it by (uncompressed point)".into());
		}
		let f = || -> Option<([u8; 32], [u8; 32])> {
			let mut s = Rd(&sig);
			(s.s()? == HOST.as_bytes()).then(|| ())?;
			let blob = s.s()?;
			s.end()?;
			let mut bl = Rd(blob);
			let (r, s) = (bl.mpint32()?, bl.mpint32()?);
			bl.end()?;
			Some((r, s))
		};
		let (r, s) = f().ok_or("malformed signature")?;
		use ecdsa::signature::Verifier;
		let vk = p256::ecdsa::VerifyingKey::from_sec1_bytes(&q).map_err(|_| "bad host key point")?;
		let sg = p256::ecdsa::Signature::from_scalars(r, s).map_err(|_| "bad signature scalars")?;
		vk.verify(&h, &sg).map_err(|_| "host key signature does not verify".to_string())
	}

	/// May a reply to packet `pkt` come at all?
	fn intact_or_bad(&mut self, w: &mut World, pkt: u32, what: &str) -> bool {
		if pkt >= self.intact() {
			let m = self.mitm.clone().map(|m| (m.kind, m.intact));
			let what = what.to_string();
			self.bad(w, &["C01"], "acted", format!("{what} for packet {pkt} although {m:?}"));
			return false;
		}
		true
	}

	fn rx_enc(&mut self, w: &mut World, p: &[u8]) {
		if let Kind::Replay(j) = self.kind {
			self.bad(w, &["C04"], "answered", format!("the server answered a replay of connection {j} with message {}", p[0]));
			return;
		}
		let mut r = Rd(&p[1..]);
		match p[0] {
			1 | 2 | 4 | 53 | 80 | 81 | 82 => {}
			3 => {
				if self.lenient {
					return;
				}
				let seq = r.u32();
				match self.unknown.pop_front() {
					Some((pkt, s)) if seq == Some(s) && r.end().is_some() => {
						self.intact_or_bad(w, pkt, "answer to an unknown message");
					}
					o => self.bad(w, &["C23"], "unimplemented", format!("message {seq:?} called unimplemented, expected {:?}", o.map(|o| o.1))),
				}
			}
			6 => {
				if !self.service_asked || Rd(&p[1..]).s() != Some(b"ssh-userauth") {
					self.bad(w, &["C06"], "service-granted", "a service other than authentication was granted".into());
					return;
				}
				if !self.service_pending || r.s() != Some(b"ssh-userauth") || r.end().is_none() {
					if !self.lenient {
						self.bad(w, &["C06"], "service", "unexpected service accept".into());
					}
					return;
				}
				// the service request is the first thing sent, after noise
				if self.intact() == 0 {
					self.intact_or_bad(w, 0, "service accept");
				}
				self.service_pending = false;
			}
			51 | 52 | 60 => self.rx_auth(w, p),
			90..=100 if !self.authed && !self.lenient => {
				self.bad(w, &["C06", "C11"], "early", format!("channel message {} before authentication", p[0]));
			}
			90 | 92 | 91 | 93..=100 => {
				if self.rx_chan(w, p).is_none() && !self.lenient {
					self.bad(w, &["C02", "C11"], "malformed", format!("malformed message {} from the server", p[0]));
				}
			}
			t => {
				if !self.lenient {
					self.bad(w, &["C02"], "unknown", format!("message {t} from the server"));
				}
			}
		}
	}

	fn rx_auth(&mut self, w: &mut World, p: &[u8]) {
		if self.lenient {
			if p[0] == 52 {
				let ok = w.sh.daemon && self.accept_sent
					|| w.hist.iter().any(|h| match h {
						Hist::Auth { user, service, ok: true, .. } => {
							owner_of(user).or(owner_of(service)).map_or(true, |o| o == self.idx)
						}
						_ => false,
					});
				if !ok {
					self.bad(w, if w.sh.daemon { &["C06", "C20"] } else { &["C06"] }, "granted", "success although nothing was accepted".into());
				}
			}
			return;
		}
		let Some(a) = self.auth_pending.pop_front() else {
			self.bad(w, &["C06"], "extra-reply", format!("authentication reply {} to nothing", p[0]));
			return;
		};
		if !self.intact_or_bad(w, a.pkt, "authentication reply") {
			return;
		}
		let props: &[&'static str] = if w.sh.daemon { &["C06", "C20"] } else { &["C06"] };
		match (p[0], &a.reply) {
			(51, Reply::Failure) => {
				let mut r = Rd(&p[1..]);
				let methods = r.s().map(<[u8]>::to_vec);
				let ok = methods.is_some() && r.u8() == Some(0) && r.end().is_some();
				let mut names: Vec<&[u8]> = methods.iter().flat_map(|m| m.split(|c| *c == b',')).collect();
				names.sort();
				if ok && names != [&b"password"[..], b"publickey"] {
					let m = format!("methods that may be tried: {names:?}");
					self.bad(w, &["C06"], "methods", m);
				}
				if !ok {
					self.bad(w, props, "failure", "malformed failure or partial success".into());
				}
			}
			(52, Reply::Success) if p.len() == 1 => {
				self.authed = true;
				self.auth_pending.clear();
				self.stat("authenticated");
			}
			(60, Reply::PkOk(x)) if &p[1..] == &x[..] => {}
			(t, want) => {
				let m = format!("authentication reply {t}, expected {want:?} for {:?}", a.hist);
				let class = if t == 52 { "granted" } else { "wrong-reply" };
				self.bad(w, props, class, m);
			}
		}
	}

	fn rx_chan(&mut self, w: &mut World, p: &[u8]) -> Option<()> {
		let mut r = Rd(&p[1..]);
		let cid = r.u32()?;
		if self.lenient {
			if p[0] == 91 {
				let sid = r.u32()?;
				if let Some(c) = self.chans.iter_mut().find(|c| c.cid == cid && !c.opened) {
					c.opened = true;
					c.sid = Some(sid);
				}
			}
			return Some(());
		}
		if let (91 | 92, Some(i)) = (p[0], self.refusals.iter().position(|r| r.1 == cid)) {
			let (pkt, _) = self.refusals.remove(i);
			if !self.intact_or_bad(w, pkt, "answer to a channel open") {
				return Some(());
			}
			let mut f = || -> Option<()> {
				(p[0] == 92 && r.u32()? == 3).then(|| ())?;
				std::str::from_utf8(r.s()?).ok()?;
				r.s()?;
				r.end()
			};
			if f().is_none() {
				self.bad(w, &["C23"], "open-answer", format!("channel of an unknown type answered by {p:x?}"));
			}
			return Some(());
		}
		if p[0] == 91 || p[0] == 92 {
			let Some(ci) = self.chans.iter().position(|c| c.cid == cid && !c.opened && !c.refused) else {
				self.bad(w, &["C11"], "open-reply", format!("message {} for channel {cid} that is not being opened", p[0]));
				return Some(());
			};
			let op = self.chans[ci].open_pkt;
			if !self.intact_or_bad(w, op, "open confirmation") {
				return Some(());
			}
			if p[0] == 92 {
				self.bad(w, &["C11"], "open-refused", "session channel refused".into());
				return Some(());
			}
			let (sid, win, max) = (r.u32()?, r.u32()?, r.u32()?);
			if self
				.chans
				.iter()
				.any(|c| c.sid == Some(sid) && c.close_sent.is_none() && c.opened)
			{
				self.bad(w, &["C11"], "dup-channel", format!("server channel {sid} is in use already"));
				return Some(());
			}
			let c = &mut self.chans[ci];
			c.opened = true;
			c.sid = Some(sid);
			c.srv_win = win as u64;
			c.srv_win0 = win as u64;
			c.srv_max = max;
			self.credit(w, ci);
			return Some(());
		}
		// Several finished channels may have used the number before; the live one counts.
		let Some(ci) = self.chans.iter().rposition(|c| c.cid == cid && c.opened) else {
			self.bad(w, &["C11", "C09"], "unknown-channel", format!("message {} for channel {cid} that is not open", p[0]));
			return Some(());
		};
		if self.chans[ci].close_rcvd {
			self.bad(w, &["C10"], "after-close", format!("message {} after the server's close of channel {cid}", p[0]));
			return Some(());
		}
		match p[0] {
			93 => {
				let n = r.u32()?;
				r.end()?;
				let c = &mut self.chans[ci];
				c.srv_win += n as u64;
				if c.srv_win > u32::MAX as u64 {
					self.bad(w, &["C15"], "window-overflow", "window grown past 2^32".into());
				}
				w.probe("window_adjust_from_server");
			}
			94 | 95 => {
				if p[0] == 95 && r.u32()? != 1 {
					return None;
				}
				let d = r.s()?;
				r.end()?;
				self.rx_data(w, ci, d, p[0] == 95);
			}
			96 => {
				r.end()?;
				let c = &self.chans[ci];
				if c.eof_rcvd {
					self.bad(w, &["C10"], "eof-twice", "end-of-file twice".into());
				} else if c.status.is_none() {
					self.bad(w, &["C10"], "eof-early", "end-of-file before the exit status".into());
				}
				self.chans[ci].eof_rcvd = true;
				if let (Some(k), None) = (self.proc_of(w, ci), self.chans[ci].close_sent) {
					self.check_output(w, ci, k);
				}
			}
			97 => {
				r.end()?;
				self.rx_close(w, ci);
			}
			98 => {
				let ty = r.s()?;
				let want = r.u8()?;
				if ty == b"exit-status" {
					let s = r.u32()?;
					r.end()?;
					self.rx_status(w, ci, s, want);
				} else {
					let t = String::from_utf8_lossy(ty).into_owned();
					self.bad(w, &["C10"], "request", format!("channel request {t:?} from the server"));
				}
			}
			99 | 100 => {
				r.end()?;
				let Some((ok, pkt)) = self.chans[ci].replies.pop_front() else {
					self.bad(w, &["C11"], "extra-reply", format!("reply {} to no request on channel {cid}", p[0]));
					return Some(());
				};
				if !self.intact_or_bad(w, pkt, "channel reply") {
					return Some(());
				}
				if ok != (p[0] == 99) {
					let props: &[&'static str] = if w.sh.daemon { &["C11", "C21"] } else { &["C11"] };
					self.bad(w, props, "wrong-reply", format!("reply {} to packet {pkt}, expected success={ok}", p[0]));
				}
			}
			_ => return None,
		}
		Some(())
	}

	fn proc_of(&self, w: &World, ci: usize) -> Option<usize> {
		w.spawns[self.chans[ci].spawn?].proc_
	}

	fn rx_data(&mut self, w: &mut World, ci: usize, d: &[u8], ext: bool) {
		let c = &mut self.chans[ci];
		c.got += d.len() as u64;
		*self.stats.entry("output_bytes").or_default() += d.len() as u64;
		let c = &self.chans[ci];
		if c.got > c.granted {
			let m = format!("{} bytes sent, {} granted", c.got, c.granted);
			self.bad(w, &["C15"], "window", m);
			return;
		}
		if d.len() as u64 > c.maxp as u64 {
			let m = format!("{} bytes in one message, at most {} allowed", d.len(), c.maxp);
			self.bad(w, &["C15"], "max-packet", m);
			return;
		}
		if c.eof_rcvd {
			self.bad(w, &["C10", "C09"], "data-after-eof", "data after end-of-file".into());
			return;
		}
		let Some(k) = self.proc_of(w, ci) else {
			self.bad(w, &["C09"], "no-process", "data on a channel without a process".into());
			return;
		};
		let p = &w.procs[k];
		let c = &mut self.chans[ci];
		for x in d {
			let err = ext || x & 0x80 != 0;
			let (pos, src) = if err { (&mut c.err, &p.err) } else { (&mut c.out, &p.out) };
			if src.written.get(*pos) != Some(x) {
				let m = format!(
					"byte {} of {} of process {k} is {x}, written {:?} (of {})",
					*pos,
					if err { "stderr" } else { "stdout" },
					src.written.get(*pos),
					src.written.len()
				);
				let props: &[&'static str] = if w.sh.daemon { &["C09", "C22"] } else { &["C09"] };
				self.bad(w, props, "output", m);
				return;
			}
			*pos += 1;
		}
		self.credit(w, ci);
	}

	fn rx_status(&mut self, w: &mut World, ci: usize, s: u32, want: u8) {
		let daemon = w.sh.daemon;
		let props: &[&'static str] = if daemon { &["C10", "C22"] } else { &["C10"] };
		let k = self.proc_of(w, ci);
		let c = &mut self.chans[ci];
		if c.status.is_some() {
			return self.bad(w, props, "status-twice", "two exit statuses".into());
		}
		c.status = Some(s);
		if want != 0 {
			return self.bad(w, props, "status-reply", "exit status asks for a reply".into());
		}
		let Some(k) = k else {
			return self.bad(w, props, "status-none", "exit status without a process".into());
		};
		let p = &w.procs[k];
		let Some(e) = p.exited else {
			return self.bad(w, props, "status-early", format!("exit status {s} of a running process"));
		};
		if e >= 0 || !daemon {
			if s != e as u32 {
				self.bad(w, props, "status-wrong", format!("exit status {s}, process {k} exited with {e}"));
			}
		} else if s == 0 {
			self.bad(w, props, "status-signal", format!("a process killed by signal {} was reported successful", -e));
		}
	}

	fn rx_close(&mut self, w: &mut World, ci: usize) {
		let k = self.proc_of(w, ci);
		let intact = self.intact();
		let c = &mut self.chans[ci];
		c.close_rcvd = true;
		let own = c.close_sent.map_or(false, |(_, p)| p < intact);
		if c.status.is_some() && c.eof_rcvd {
			// ended by the process, unless this client gave up on it first
			if let (Some(k), None) = (k, c.close_sent) {
				self.check_output(w, ci, k);
			}
		} else if !own {
			let m = format!("close without exit status ({:?}) and end-of-file ({})", c.status, c.eof_rcvd);
			let props: &[&'static str] = if self.mitm.as_ref().map_or(false, |m| m.done) { &["C10", "C01"] } else { &["C10"] };
			self.bad(w, props, "close-early", m);
		} else if c.replies.iter().any(|r| r.1 < intact) && c.status.is_none() {
			let n = c.replies.len();
			self.bad(w, &["C11"], "unanswered", format!("channel closed with {n} requests unanswered"));
		}
		let lazy = self.kind != Kind::Probe && !self.prof.churn && w.ch.chance(ST_THINK + self.idx as u32, 1, 16);
		let c = &self.chans[ci];
		if lazy && c.close_sent.is_none() {
			// never answered
			self.urgent.retain(|u| u.0 != ci);
			w.probe("close_unanswered_by_client");
		} else if c.close_sent.is_none() {
			let p = b().u8(97).u32(c.sid.unwrap());
			self.urgent.retain(|u| u.0 != ci);
			self.urgent.push_back((ci, p, true));
		}
	}

	/// The process has ended and the channel is closed: everything must have arrived.
	fn check_output(&mut self, w: &mut World, ci: usize, k: usize) {
		let c = &self.chans[ci];
		let p = &w.procs[k];
		let mut lost = None;
		for (n, pipe, what) in [(c.out, &p.out, "stdout"), (c.err, &p.err, "stderr")] {
			if pipe.exists && (n as u64 != pipe.read || (!pipe.fault && n != pipe.written.len())) {
				lost = Some(format!("closed after {n} of {} bytes of {what} of process {k}", pipe.written.len()));
			}
		}
		if let Some(m) = lost {
			self.bad(w, &["C09", "C10"], "lost-output", m);
		}
	}

	// ---- checks at rest ------------------------------------------------------------------

	fn unmet(&mut self, w: &mut World, faulty: bool, props: &[&'static str], class: &str, msg: String) {
		let idx = self.idx;
		let msg = format!("connection {idx}: {msg}");
		for p in props.iter().chain(["C13"].iter()).chain(faulty.then(|| &"C12")) {
			w.violate(p, class, msg.clone());
		}
		if w.sh.daemon && faulty {
			w.violate("C21", class, msg);
		}
	}

	/// Is the server free to serve this connection?
	pub fn healthy(&self, w: &World) -> bool {
		let k = &w.conns[self.idx];
		self.started && self.end_cause.is_none() && !k.s2c_paused && !k.c2s_paused && !k.stalled && !self.broken_rx
	}

	/// Everything that must have happened by now, the network and all processes being idle.
	pub fn obligations(&mut self, w: &mut World, faulty: bool) {
		if self.refused() {
			let k = &w.conns[self.idx];
			if self.started && !k.s2c_paused && !k.c2s_paused && self.nk_sent && !k.released() {
				let idx = self.idx;
				if self.kind == Kind::BadKey {
					w.violate("C03", "kept", format!("connection {idx} with an unusable key was not ended"));
				} else {
					w.violate("C05", "kept", format!("connection {idx} without common algorithms was not ended"));
				}
			}
			return;
		}
		if let (Some((_, p)), Some(at)) = (w.conns[self.idx].mark, w.conns[self.idx].mark_at) {
			for ci in 0..self.chans.len() {
				let c = &self.chans[ci];
				if !c.overrun || self.proc_of(w, ci) != Some(p) {
					continue;
				}
				// Input counts as consumed once the process took it; a server may
				// count a packet when it starts handing it over.
				let (got, most) = (w.procs[p].in_accepted.len() as u64, c.srv_win0 + at + 65536);
				if got > most {
					let idx = self.idx;
					w.violate("C15", "overrun", format!("connection {idx}: process {p} was given {got} bytes although it had taken only {at} when all of the input was sent and the window is {}", self.chans[ci].srv_win0));
				}
			}
		}
		if !self.healthy(w) || matches!(self.kind, Kind::Replay(_)) || self.lenient {
			return;
		}
		if self.enc.is_none() || self.rx < Rx::Enc {
			let m = format!("handshake stuck at {:?}", self.rx);
			return self.unmet(w, faulty, &["C03", "C05"], "handshake-stuck", m);
		}
		if self.service_pending {
			return self.unmet(w, faulty, &["C03", "C05", "C06"], "service-stuck", "service request unanswered".into());
		}
		if !self.auth_pending.is_empty() && !self.authed {
			let m = format!("authentication request unanswered: {:?}", self.auth_pending[0].hist);
			let props: &[&'static str] = if w.sh.daemon { &["C06", "C20"] } else { &["C06", "C07"] };
			self.unmet(w, faulty, props, "auth-stuck", m);
		}
		if self.authed && (!self.unknown.is_empty() || !self.refusals.is_empty()) {
			let m = format!("unsupported messages {:?} and channels {:?} unanswered", self.unknown, self.refusals);
			self.unmet(w, faulty, &["C23"], "refusal-stuck", m);
		}
		for ci in 0..self.chans.len() {
			self.chan_obligations(w, faulty, ci);
		}
	}

	fn chan_obligations(&mut self, w: &mut World, faulty: bool, ci: usize) {
		let idx = self.idx;
		let head_is_data = self
			.fibers
			.iter()
			.any(|f| f.chan == Some(ci) && matches!(f.ops.front(), Some(Op::Data(n)) if *n > 0));
		let c = &self.chans[ci];
		if !c.opened {
			return self.unmet(w, faulty, &["C11"], "open-stuck", "channel open unanswered".into());
		}
		let (closed, mine) = (c.close_rcvd, c.close_sent.is_some());
		if !closed && !c.replies.is_empty() {
			return self.unmet(w, faulty, &["C11"], "reply-stuck", format!("{:?} unanswered", self.chans[ci].replies));
		}
		if mine && !closed {
			return self.unmet(w, faulty, &["C10"], "close-stuck", "close unanswered".into());
		}
		let Some(s) = c.spawn else { return };
		let Some(k) = w.spawns[s].proc_ else {
			if w.sh.daemon && w.spawns[s].shell {
				if c.sent >= c.prefix.len() && !mine && !closed {
					self.unmet(w, faulty, &["C08", "C22"], "shell-stuck", "a shell did not get its input".into());
				}
				return;
			}
			return self.unmet(w, faulty, &["C11"], "spawn-stuck", "request did not start its process".into());
		};
		let p = &w.procs[k];
		let total = c.sent;
		let acc = p.in_accepted.len();
		let live = p.in_exists && !p.in_closed;
		let (inp, outp): (&[&'static str], &[&'static str]) =
			if w.sh.daemon { (&["C08", "C22"], &["C09", "C22"]) } else { (&["C08"], &["C09"]) };
		if live && !p.in_dropped && acc < total && p.in_buf.len() < p.in_cap {
			let m = format!("process {k} got {acc} of {total} bytes and would take more");
			return self.unmet(w, faulty, inp, "input-stuck", m);
		}
		if live && p.in_dropped && acc < total {
			let m = format!("input of process {k} closed after {acc} of {total} bytes");
			return self.unmet(w, faulty, inp, "input-lost", m);
		}
		if (c.eof_sent.is_some() || mine) && p.in_exists && !p.in_dropped && (acc == total || p.in_closed) {
			let m = format!("input of process {k} still open after end-of-file");
			let props: Vec<_> = inp.iter().copied().chain(["C14"]).collect();
			return self.unmet(w, faulty, &props, "input-open", m);
		}
		if head_is_data && c.srv_win == 0 && !mine && !closed && c.eof_sent.is_none() {
			let taken = acc == total && p.in_buf.is_empty();
			if taken || !live {
				let m = format!("client may not send although process {k} took all {total} bytes");
				return self.unmet(w, faulty, &["C15", "C08"], "window-stuck", m);
			}
		}
		if closed || mine {
			// the session is over
			let held = if !p.out.dropped {
				Some("stdout")
			} else if !p.err.dropped {
				Some("stderr")
			} else {
				None
			};
			if let Some(what) = held {
				let m = format!("connection {idx}: {what} of process {k} still held after the channel was closed");
				w.violate("C14", "pipe-held", m);
				return;
			}
			if p.in_exists && !p.in_dropped && (p.in_closed || acc == total) {
				w.violate("C14", "pipe-held", format!("connection {idx}: stdin of process {k} still held after the channel was closed"));
			} else if !p.wait_dropped && !p.wait_taken {
				w.violate("C14", "pipe-held", format!("connection {idx}: process {k} still awaited after the channel was closed"));
			}
			return;
		}
		// what is not to be sent yet is to be left where it is
		let taken = p.out.read + p.err.read;
		if taken > c.granted + READ_AHEAD {
			let m = format!("{taken} bytes taken from process {k}, although the client has room for {} only", c.granted);
			return w.violate("C15", "read-ahead", m);
		}
		let left = if c.maxp == 0 { 0 } else { c.granted - c.got };
		let mut unmet = None;
		for (n, pipe, what) in [(c.out, &p.out, "stdout"), (c.err, &p.err, "stderr")] {
			if !pipe.exists || unmet.is_some() {
				continue;
			}
			if pipe.dropped && !pipe.eof_seen && !pipe.fault_seen {
				unmet = Some((false, format!("{what} of process {k} dropped while it is open")));
			} else if left > 0 && (!pipe.buf.is_empty() && !pipe.dropped || (n as u64) < pipe.read) {
				let m = format!("client got {n} of {} bytes of {what} of process {k}, window {left}", pipe.written.len());
				unmet = Some((true, m));
			}
		}
		if let Some((stuck, m)) = unmet {
			let props: Vec<_> = outp.iter().copied().chain(stuck.then(|| "C15")).collect();
			return self.unmet(w, faulty, &props, if stuck { "output-stuck" } else { "output-dropped" }, m);
		}
		let ended = |q: &Pipe| !q.exists || q.fault_seen || (q.closed && q.buf.is_empty());
		if p.exited.is_some() && ended(&p.out) && ended(&p.err) && left > 0 {
			let m = format!("process {k} ended with {:?} but status={:?} eof={}", p.exited, c.status, c.eof_rcvd);
			let props: &[&'static str] = if w.sh.daemon { &["C10", "C22"] } else { &["C10"] };
			self.unmet(w, faulty, props, "exit-stuck", m);
		}
	}

	/// Safety over everything that happened on this connection so far.
	pub fn history(&mut self, w: &mut World) {
		let idx = self.idx;
		let intact = self.intact();
		let mitm = self.mitm.as_ref().map_or(false, |m| m.done);
		for ci in 0..self.chans.len() {
			if self.lenient {
				break;
			}
			let Some(k) = self.proc_of(w, ci) else { continue };
			let c = &self.chans[ci];
			let p = &w.procs[k];
			let allowed = c.sent_upto(intact);
			let acc = &p.in_accepted;
			let mut props: Vec<&'static str> = if w.sh.daemon { vec!["C08", "C22"] } else { vec!["C08"] };
			if mitm {
				props.push("C01");
			}
			let bad = acc.iter().enumerate().position(|(i, x)| i >= allowed || c.in_byte(i) != *x);
			if let Some(i) = bad {
				let m = format!(
					"connection {idx}: byte {i} given to process {k} is {}, client sent {:?} (of {allowed})",
					acc[i],
					(i < allowed).then(|| c.in_byte(i))
				);
				for q in props {
					w.violate(q, "input", m.clone());
				}
				continue;
			}
			if let Some((e, n, over)) = p.in_drop {
				let eof = [c.eof_sent, c.close_sent].iter().flatten().any(|(x, pk)| *x < e && *pk < intact);
				let gone = self.end_cause.map_or(false, |x| x < e);
				if p.in_exists && !over && !gone && !(eof && n == allowed) && !p.finished {
					let m = format!("connection {idx}: input of process {k} closed after {n} of {allowed} bytes, eof sent: {eof}");
					for q in props {
						w.violate(q, "input-closed", m.clone());
					}
				}
			}
		}
		let spawned: Vec<_> = w.spawns.iter().filter(|s| s.owner == idx && s.calls > 0).cloned().collect();
		for s in spawned {
			if s.pkt >= intact {
				w.violate("C01", "spawned", format!("connection {idx}: process started for packet {} altered from {intact}", s.pkt));
			}
			if s.calls > 1 {
				for q in ["C11", "C04", "C22"] {
					w.violate(q, "spawned-twice", format!("connection {idx}: {} processes for packet {}", s.calls, s.pkt));
				}
			}
			if !w.sh.daemon && !self.lenient && s.user != self.user {
				w.violate("C06", "user", format!("connection {idx}: process runs as {:?}, authenticated as {:?}", s.user, self.user));
			}
			if !self.accept_sent && !self.lenient {
				for q in ["C06", "C20"] {
					w.violate(q, "unauthenticated", format!("connection {idx}: process without authentication"));
				}
			}
		}
		if let Some(m) = &self.mitm {
			let c = &w.conns[idx];
			if m.must_end && c.saw_all() && !c.stalled && !c.released() && !c.s2c_paused {
				let m = format!("connection {idx}: still open after altered packet {}", m.intact);
				w.violate("C01", "kept", m);
			}
		}
	}

	/// Compare what the application was asked with what this client sent.
	pub fn handler_history(&mut self, w: &mut World, calls: &[Hist], settled: bool) {
		let idx = self.idx;
		if self.lenient || w.sh.daemon {
			return;
		}
		let intact = self.intact();
		for (i, h) in calls.iter().enumerate() {
			match self.expect_hist.get(i) {
				Some((pkt, e)) if same(e, h) => {
					if *pkt >= intact {
						w.violate("C01", "consulted", format!("connection {idx}: handler called for altered packet {pkt}"));
						return;
					}
				}
				e => {
					let again = self.expect_hist[..i.min(self.expect_hist.len())].iter().any(|(_, x)| same(x, h));
					let m = format!("connection {idx}: handler call {i} was {h:?}, expected {e:?}");
					w.violate("C07", "consulted", m.clone());
					if again {
						w.violate("C04", "consulted-again", m);
					}
					return;
				}
			}
		}
		if settled && self.healthy(w) && calls.len() < self.expect_hist.len() {
			let m = format!("connection {idx}: handler was not asked about {:?}", self.expect_hist[calls.len()]);
			w.violate("C07", "not-consulted", m);
		}
	}
}

fn same(a: &Hist, b: &Hist) -> bool {
	match (a, b) {
		(
			Hist::Exists { user, service, alg, key, ok },
			Hist::Exists { user: u, service: s, alg: a, key: k, ok: o },
		) => user == u && service == s && alg == a && key == k && ok == o,
		(Hist::Auth { user, service, m, ok }, Hist::Auth { user: u, service: s, m: n, ok: o }) => {
			user == u && service == s && m == n && ok == o
		}
		_ => false,
	}
}
