//! A client that follows the protocol up to some stage and then does not.
use crate::{
	client::{tag_of, Client, Reply},
	wire::{b, wrap, Put},
	world::*,
};

pub struct Hostile {
	stage: u32,
	ops: u32,
	acts: u32,
	begun: bool,
	done: bool,
	n: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
	/// behave
	Normal,
	Did,
	Idle,
}

impl Hostile {
	pub fn new(w: &mut World, idx: usize) -> Self {
		let st = ST_HOSTILE + idx as u32;
		let stage = w.ch.choose(st, 10).min(6);
		let ops = w.ch.choose(st, 12);
		let acts = match w.ch.choose(st, 4) {
			0 => w.ch.choose(st, 2),
			1 => 1 + w.ch.choose(st, 2),
			_ => 1 + w.ch.choose(st, 12),
		};
		Hostile { stage, ops, acts, begun: false, done: false, n: 0 }
	}
	pub fn stage(&mut self, s: u32) {
		self.stage = s;
	}
}

fn reached(c: &Client) -> u32 {
	if !c.ident_sent {
		0
	} else if !c.kex_sent {
		1
	} else if c.enc.is_none() {
		if c.reply_seen {
			3
		} else {
			2
		}
	} else if !c.service_sent || c.service_pending {
		4
	} else if !c.authed {
		5
	} else {
		6
	}
}

pub fn step(c: &mut Client, w: &mut World) -> Act {
	let st = ST_HOSTILE + c.idx as u32;
	let r = reached(c);
	let seen = c.execs + c.chans.len() as u32 * 2;
	let h = c.hostile.as_mut().unwrap();
	if h.done {
		return Act::Idle;
	}
	if !h.begun {
		if r < h.stage || (r == 6 && h.stage == 6 && seen < h.ops && c.fibers.iter().any(|f| !f.todo.is_empty() || !f.ops.is_empty())) {
			return Act::Normal;
		}
		h.begun = true;
		c.lenient = true;
		c.cause(w);
		w.sh.wild.insert(c.idx);
		w.fault(
			[
				"hostile_at_ident", "hostile_at_proposal", "hostile_at_kex", "hostile_at_newkeys", "hostile_at_service",
				"hostile_at_auth", "hostile_at_connection",
			][r as usize],
		);
		return Act::Did;
	}
	if h.acts == 0 {
		h.done = true;
		match w.ch.choose(st, 4) {
			0 | 1 => {}
			2 => c.finish(w, false),
			_ => c.finish(w, true),
		}
		return Act::Idle;
	}
	h.acts -= 1;
	h.n += 1;
	if c.enc.is_some() {
		sealed_attack(c, w)
	} else {
		clear_attack(c, w)
	}
	Act::Did
}

fn garbage(w: &mut World, st: u32) -> Vec<u8> {
	let n = match w.ch.choose(st, 12) {
		0..=7 => 1 + w.ch.choose(st, 80),
		8 | 9 => 1 + w.ch.choose(st, 2000),
		_ => 30_000 + w.ch.choose(st, 50_000),
	} as usize;
	if n > 64 {
		let s = w.ch.choose(st, u32::MAX);
		let fill = w.ch.choose(st, 3);
		(0..n as u32)
			.map(|i| match fill {
				0 => (i ^ s).wrapping_mul(0x9e3779b1).rotate_left(13) as u8,
				1 => 0,
				_ => b'a',
			})
			.collect()
	} else {
		w.ch.bytes(st, n)
	}
}

fn extreme(w: &mut World, st: u32) -> u32 {
	let v = [
		0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 16, 20, 28, 252, 255, 256, 34_996, 35_000, 35_001, 35_004, 35_008, 40_000, 65_535,
		1 << 20, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_fffb, 0xffff_fffc, 0xffff_ffff,
	];
	match w.ch.choose(st, 4) {
		0 => w.ch.choose(st, u32::MAX),
		_ => v[w.ch.choose(st, v.len() as u32) as usize],
	}
}

/// A padding length, likely one around the limits for a packet of this length.
fn padding(w: &mut World, st: u32, n: u32) -> u8 {
	match w.ch.choose(st, 8) {
		0 => 0,
		1 => 3,
		2 => 4,
		3 => 255,
		4 => n.saturating_sub(2).min(255) as u8,
		5 => n.saturating_sub(1).min(255) as u8,
		6 => n.min(255) as u8,
		_ => w.ch.choose(st, 256) as u8,
	}
}

fn mutate(w: &mut World, st: u32, mut v: Vec<u8>) -> Vec<u8> {
	for _ in 0..1 + w.ch.choose(st, 3) {
		if v.is_empty() {
			v.push(0);
		}
		let i = w.ch.choose(st, v.len() as u32) as usize;
		match w.ch.choose(st, 8) {
			0 => v[i] ^= 1 << w.ch.choose(st, 8),
			1 => v[i] = [0, 1, 0x7f, 0x80, 0xff, b',', b'\n'][w.ch.choose(st, 7) as usize],
			2 => v.truncate(i),
			3 => v.extend(garbage(w, st)),
			4 | 5 => {
				let x = extreme(w, st).to_be_bytes();
				for (o, y) in v[i..].iter_mut().zip(x) {
					*o = y;
				}
			}
			6 => {
				let j = i + w.ch.choose(st, (v.len() - i) as u32 + 1) as usize;
				let part = v[i..j].to_vec();
				v.splice(i..i, part);
			}
			_ => {
				let j = i + w.ch.choose(st, (v.len() - i) as u32 + 1) as usize;
				v.drain(i..j);
			}
		}
	}
	v.truncate(60_000);
	v
}

/// Does it carry a mark that makes others take it for another client's?
fn impersonates(idx: usize, v: &[u8]) -> bool {
	(0..v.len()).any(|i| {
		v[i] == b'~'
			&& [b'u', b'k'].iter().any(|m| match tag_of(&v[i..(i + 9).min(v.len())], *m) {
				Some(o) => o != idx,
				None => false,
			})
	})
}

fn clear_attack(c: &mut Client, w: &mut World) {
	let st = ST_HOSTILE + c.idx as u32;
	match w.ch.choose(st, 8) {
		0 => {
			let g = garbage(w, st);
			c.raw(w, g);
		}
		1 | 2 => {
			let n = extreme(w, st);
			let pad = padding(w, st, n);
			let body = match w.ch.choose(st, 3) {
				0 => n.min(70_000),
				1 => w.ch.choose(st, 64),
				_ => w.ch.choose(st, 40_000),
			};
			let ty = [20, 30, 21, 1, 0, 255][w.ch.choose(st, 6) as usize];
			let mut v = b().u32(n).u8(pad).u8(ty);
			v.resize(4 + body as usize, 0x41);
			c.raw(w, v);
		}
		3 | 4 => {
			let base = match w.ch.choose(st, 3) {
				0 => c.kexinit.clone(),
				1 => b().u8(30).s(&c.pubkey),
				_ => gen_msg(c, w, true),
			};
			let v = mutate(w, st, base);
			let v = wrap(&v, w.ch.choose(st, 3) as usize, true, 1);
			c.raw(w, v);
		}
		5 => {
			let v = gen_msg(c, w, false);
			let v = wrap(&v, 0, true, 1);
			c.raw(w, v);
		}
		6 => {
			let n = w.ch.choose(st, 600) as usize;
			let v = match w.ch.choose(st, 10) {
				0 => b"SSH-1.5-old\r\n".to_vec(),
				1 => [b"SSH-2.0-".to_vec(), vec![b'a'; n]].concat(),
				2 => vec![b'x'; n],
				3 => vec![b'\n'; n],
				4 => b"SSH-2.0-\r\n".to_vec(),
				5 => b"SSH-2.0-a\0b\r\n".to_vec(),
				6 => b"SSH-2.0-\xff\xfe\r\n".to_vec(),
				7 => b"SSH-2.0\r\n".to_vec(),
				8 => b"SSH-2.0-a b c\n".to_vec(),
				_ => [vec![b'\r'; n], b"\n".to_vec()].concat(),
			};
			c.raw(w, v);
		}
		_ => {
			let mut key = [0u8; 32];
			let v = match w.ch.choose(st, 7) {
				0 => b().u8(30).s(&key),
				1 => {
					key[0] = 1;
					b().u8(30).s(&key)
				}
				2 => {
					// a point of small order
					let k: [u8; 32] = [
						0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda,
						0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00,
					];
					b().u8(30).s(&k)
				}
				3 => b().u8(30).s(&[0xff; 32]),
				4 => b().u8(30).s(&vec![9; w.ch.choose(st, 66) as usize]),
				5 => b().u8(30).u32(extreme(w, st)).raw(&[9; 32]),
				_ => b().u8(30),
			};
			let v = wrap(&v, 0, true, 1);
			c.raw(w, v);
		}
	}
}

fn chan(c: &Client, w: &mut World) -> u32 {
	let st = ST_HOSTILE + c.idx as u32;
	let known: Vec<u32> = c.chans.iter().filter_map(|c| c.sid).collect();
	if !known.is_empty() && !w.ch.chance(st, 1, 4) {
		return known[w.ch.choose(st, known.len() as u32) as usize];
	}
	match w.ch.choose(st, 4) {
		0 | 1 => w.ch.choose(st, 8),
		2 => extreme(w, st),
		_ => u32::MAX - w.ch.choose(st, 3),
	}
}

fn words(w: &mut World, st: u32) -> Vec<u8> {
	let v: [&[u8]; 10] = [
		b"", b"session", b"ssh-userauth", b"ssh-connection", b"direct-tcpip", b"x", b"\0", b"\xff\xff", b"keepalive@openssh.com",
		b"tcpip-forward",
	];
	if w.ch.chance(st, 1, 4) {
		// mostly no text at all
		let n = w.ch.choose(st, 24) as usize;
		return w.ch.bytes(st, n);
	}
	v[w.ch.choose(st, v.len() as u32) as usize].to_vec()
}

fn command(c: &mut Client, w: &mut World) -> Vec<u8> {
	let st = ST_HOSTILE + c.idx as u32;
	let n = c.hostile.as_ref().unwrap().n;
	let mut v = format!("~k{}.w{}.", c.idx, n).into_bytes();
	match w.ch.choose(st, 5) {
		0 | 1 => {}
		2 => v.push(0),
		3 => v.extend(garbage(w, st)),
		_ => {
			v.splice(0..0, b"  ".iter().copied());
			v.extend_from_slice(b" \xff\xfe -x");
		}
	}
	v.truncate(50_000);
	v
}

fn gen_request(c: &mut Client, w: &mut World) -> Vec<u8> {
	let st = ST_HOSTILE + c.idx as u32;
	let ch = chan(c, w);
	let want = w.ch.choose(st, 2) as u8;
	let p = b().u8(98).u32(ch);
	match w.ch.choose(st, 10) {
		0 | 1 | 2 | 3 => {
			let cmd = command(c, w);
			p.s(b"exec").u8(want).s(&cmd)
		}
		4 | 5 => p.s(b"shell").u8(want),
		6 => p.s(b"env").u8(want).s(b"A").s(b"\xff"),
		7 => p.s(b"pty-req").u8(want).s(b"").u32(u32::MAX).u32(0).u32(0).u32(0).s(b""),
		8 => match w.ch.choose(st, 6) {
			0 => p.s(b"exit-status").u8(want).u32(1),
			1 | 2 => p.s(b"exit-signal").u8(want).s(&words(w, st)).u8(w.ch.choose(st, 3) as u8).s(&words(w, st)).s(&words(w, st)),
			3 => p.s(b"signal").u8(want).s(&words(w, st)),
			4 => p.s(b"subsystem").u8(want).s(&words(w, st)),
			_ => p.s(b"env").u8(want).s(&words(w, st)).s(&words(w, st)),
		},
		_ => {
			let x = words(w, st);
			p.s(&x).u8(want).raw(&garbage(w, st))
		}
	}
}

fn gen_msg(c: &mut Client, w: &mut World, altered: bool) -> Vec<u8> {
	let st = ST_HOSTILE + c.idx as u32;
	let t = [
		1, 2, 3, 4, 5, 6, 7, 20, 21, 30, 31, 50, 50, 50, 51, 52, 53, 60, 80, 81, 82, 90, 90, 90, 91, 92, 93, 93, 94, 94, 95, 96, 97,
		97, 98, 98, 98, 99, 100, 255, 0,
	];
	let t = t[w.ch.choose(st, t.len() as u32) as usize];
	let p = b().u8(t);
	match t {
		1 => p.u32(extreme(w, st)).s(&words(w, st)).s(&words(w, st)),
		2 => p.s(&garbage(w, st)),
		3 => p.u32(extreme(w, st)),
		4 => p.u8(w.ch.choose(st, 3) as u8).s(&words(w, st)).s(&words(w, st)),
		5 | 6 => p.s(&words(w, st)),
		20 => c.kexinit.clone(),
		30 => p.s(&c.pubkey),
		31 => p.s(&words(w, st)).s(&c.pubkey).s(&words(w, st)),
		50 => {
			let good = w.ch.chance(st, 1, 3);
			let a = c.gen_attempt(w, good);
			if matches!(a.pend.reply, Reply::Success) || (c.prof.daemon && altered) {
				// this one, or what becomes of it, may rightly be accepted
				if !c.accept_sent {
					c.user = a.pend.user.clone();
				}
				c.accept_sent = true;
			}
			a.payload
		}
		51 => p.s(b"publickey").u8(w.ch.choose(st, 2) as u8),
		60 => p.s(&words(w, st)).s(&words(w, st)),
		80 => p.s(&words(w, st)).u8(w.ch.choose(st, 2) as u8).raw(&w.ch.bytes(st, 8)),
		90 => {
			let ty = if w.ch.chance(st, 1, 3) { words(w, st) } else { b"session".to_vec() };
			let p = p.s(&ty).u32(extreme(w, st)).u32(extreme(w, st)).u32(extreme(w, st));
			if w.ch.chance(st, 1, 4) {
				p.raw(&garbage(w, st))
			} else {
				p
			}
		}
		91 => p.u32(chan(c, w)).u32(extreme(w, st)).u32(extreme(w, st)).u32(extreme(w, st)),
		92 => p.u32(chan(c, w)).u32(1).s(b"no").s(b""),
		93 => p.u32(chan(c, w)).u32(extreme(w, st)),
		94 => p.u32(chan(c, w)).s(&garbage(w, st)),
		95 => p.u32(chan(c, w)).u32(extreme(w, st)).s(&garbage(w, st)),
		96 | 97 | 99 | 100 => p.u32(chan(c, w)),
		98 => gen_request(c, w),
		_ => p.raw(&garbage(w, st)),
	}
}

fn send(c: &mut Client, w: &mut World, mut v: Vec<u8>) {
	if v.is_empty() || impersonates(c.idx, &v) {
		v = b().u8(2).s(b"");
	}
	c.sealed(w, &v);
}

fn sealed_attack(c: &mut Client, w: &mut World) {
	let st = ST_HOSTILE + c.idx as u32;
	match w.ch.choose(st, 14) {
		0 | 1 | 2 => {
			let v = gen_msg(c, w, false);
			send(c, w, v);
		}
		3 | 4 => {
			let v = gen_msg(c, w, true);
			let v = mutate(w, st, v);
			send(c, w, v);
		}
		5 => {
			let g = garbage(w, st);
			c.raw(w, g);
		}
		6 => {
			// well sealed, badly formed
			let n = match w.ch.choose(st, 6) {
				0 => 0,
				1 => 1 + w.ch.choose(st, 16),
				2 => 8 * (1 + w.ch.choose(st, 8)),
				3 => 34_970 + w.ch.choose(st, 60),
				4 => 35_000 + 8 * w.ch.choose(st, 4000),
				_ => w.ch.choose(st, 300),
			} as usize;
			let len = if w.ch.chance(st, 1, 3) { extreme(w, st) } else { n as u32 };
			let mut v = b().u32(len);
			v.resize(4 + n, 2);
			if n > 0 {
				v[4] = padding(w, st, n as u32);
			}
			if v.len() < 6 {
				// `sealed_raw` logs the message type
				v.resize(6, 0);
			}
			c.sealed_raw(w, &v);
		}
		7 => {
			for _ in 0..20 + w.ch.choose(st, 300) {
				let (id, win, max) = (w.ch.choose(st, 3), extreme(w, st), extreme(w, st));
				c.sealed(w, &b().u8(90).s(b"session").u32(id).u32(win).u32(max));
			}
			w.probe("open_flood");
		}
		8 => {
			// more than the window
			let ch = chan(c, w);
			let n = 1000 + w.ch.choose(st, 33_000) as usize;
			for _ in 0..1 + w.ch.choose(st, 40) {
				c.sealed(w, &b().u8(94).u32(ch).s(&vec![b'z'; n]));
			}
			w.probe("window_abuse");
		}
		9 => {
			let ch = chan(c, w);
			for _ in 0..2 + w.ch.choose(st, 5) {
				let p = match w.ch.choose(st, 6) {
					0 => b().u8(96).u32(ch),
					1 => b().u8(97).u32(ch),
					2 => b().u8(94).u32(ch).s(b"late"),
					3 => b().u8(93).u32(ch).u32(u32::MAX),
					4 => b().u8(98).u32(ch).s(b"shell").u8(1),
					_ => {
						let cmd = command(c, w);
						b().u8(98).u32(ch).s(b"exec").u8(1).s(&cmd)
					}
				};
				c.sealed(w, &p);
			}
			w.probe("channel_abuse");
		}
		10 => {
			// open and run something at once, whoever we are
			let id = w.ch.choose(st, 1000) + 5000;
			let (win, max) = (extreme(w, st), extreme(w, st));
			c.sealed(w, &b().u8(90).s(b"session").u32(id).u32(win).u32(max));
			let p = gen_request(c, w);
			send(c, w, p);
			w.probe("run_uninvited");
		}
		11 => {
			let a = c.gen_attempt(w, true);
			c.send_attempt(w, a);
		}
		12 => {
			c.sealed(w, &b().u8(5).s(b"ssh-connection"));
		}
		_ => {
			let p = gen_request(c, w);
			send(c, w, p);
		}
	}
}
