//! The simulated world: clock, event queue, network, processes, handler delays, history.
//!
//! Single-threaded. One `World` per run, held in a thread-local so that the seams (transport
//! halves, process pipes, the stand-in `async_std`) can reach it. Wakers are never called while
//! the world is borrowed.
use crate::choice::{Choices, StreamId};
use crate::client::tag_of;
use futures::io::{AsyncRead, AsyncWrite};
use std::{
	cell::RefCell,
	cmp::Reverse,
	collections::{BTreeMap, BinaryHeap, VecDeque},
	future::Future,
	io,
	pin::Pin,
	task::{Context, Poll, Waker},
};

pub const ST_CFG: StreamId = 1;
pub const ST_SCHED: StreamId = 2;
pub const ST_HANDLER: StreamId = 3;
pub const ST_FAULT: StreamId = 4;
pub const ST_SELECT: StreamId = 5;
pub const ST_HOST: StreamId = 6; // host key and identification string
pub const ST_CLIENT: StreamId = 1000; // script
pub const ST_C2S: StreamId = 2000; // client-to-server network
pub const ST_S2C: StreamId = 3000;
pub const ST_RD: StreamId = 4000; // server-side read splitting
pub const ST_WR: StreamId = 5000; // server-side write splitting
pub const ST_PROC: StreamId = 6000; // process behaviour
pub const ST_MITM: StreamId = 7000;
pub const ST_PLAN: StreamId = 8000; // process plans, drawn by the client's generator
pub const ST_THINK: StreamId = 9000; // client think times
pub const ST_HOSTILE: StreamId = 10000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev {
	Accept(usize),
	C2S(usize),
	S2C(usize),
	Client(usize),
	Proc(usize),
	Delay(usize),
	Cut(usize, bool),
	/// Nothing can be written to this client any more, although it still sends.
	WriteFail(usize),
	Pause(usize),
	Resume(usize),
	AcceptError,
	Timer(usize, usize),
}

#[derive(Clone, Debug)]
pub enum Seg {
	Bytes(Vec<u8>),
	Eof,
	Reset,
}

/// How much of what is available one call transfers.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chunk {
	All,
	One,
	Small,
	Mixed,
}

pub fn chunk_mode(w: &mut World, st: StreamId) -> Chunk {
	match w.ch.choose(st, 6) {
		0 => Chunk::All,
		1 | 2 => Chunk::Mixed,
		3 => Chunk::One,
		_ => Chunk::Small,
	}
}

#[derive(Default)]
pub struct Conn {
	pub accepted: bool,
	// client to server
	pub c2s_flight: VecDeque<Seg>,
	pub c2s_last: u64,
	pub c2s_paused: bool,
	pub c2s_skipped: u32,
	/// a handler serving this connection is stalled until the faults stop
	pub stalled: bool,
	pub c2s: VecDeque<u8>,
	pub c2s_end: Option<bool>, // Some(true): error, Some(false): EOF
	pub c2s_delivered: u64,
	pub rd_waker: Option<Waker>,
	pub rd_dropped: bool,
	pub server_read: u64,
	/// (byte of the wire, process): how much input that process had taken when
	/// the server had dealt with everything up to that byte
	pub mark: Option<(u64, usize)>,
	pub mark_at: Option<u64>,
	pub saw_end: bool,
	pub rd_chunk: Option<Chunk>,
	// server to client
	pub s2c: VecDeque<u8>,
	pub s2c_cap: usize,
	pub s2c_event: bool,
	pub s2c_paused: bool,
	/// taken from its processes
	pub piped: u64,
	pub s2c_broken: bool,
	pub wr_fails: bool,
	/// When the client connected.
	pub came: u64,
	/// The server has been told so.
	pub wr_failed: bool,
	pub wr_waker: Option<Waker>,
	pub wr_dropped: bool,
	pub wr_closed: bool,
	pub server_wrote: u64,
	pub wr_chunk: Option<Chunk>,
	pub client_gone: bool,
	pub told_client_end: bool,
	pub spurious: u32, // per 64
	pub lat: u32,
}

impl Conn {
	/// The server holds nothing of this connection any more.
	/// Everything the client put on the wire has been read by the server or can be.
	pub fn saw_all(&self) -> bool {
		self.c2s_flight.is_empty() && !self.c2s_paused
	}
	pub fn released(&self) -> bool {
		self.rd_dropped && self.wr_dropped
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PStep {
	Out(u32),
	Err(u32),
	Read(u32),
	ReadEof,
	Echo,
	CloseIn,
	CloseOut,
	CloseErr,
	Sleep(u32),
	Exit(u32),
	/// does nothing until the faults stop
	Stall,
	/// killed by a signal (only meaningful to the sshd simulation)
	Kill(u32),
	/// the pipe delivers a read error to the server from here on
	OutFault,
	ErrFault,
}

#[derive(Clone, Debug, Default)]
pub struct ProcPlan {
	pub fail: bool,
	pub no_stdin: bool,
	pub no_stdout: bool,
	pub no_stderr: bool,
	pub steps: Vec<PStep>,
}

#[derive(Default)]
pub struct Pipe {
	pub buf: VecDeque<u8>,
	pub cap: usize,
	pub written: Vec<u8>,
	pub closed: bool,
	pub fault: bool,
	pub fault_seen: bool,
	pub dropped: bool,
	pub exists: bool,
	pub waker: Option<Waker>,
	pub eof_seen: bool,
	pub read: u64,
}

pub struct Proc {
	pub plan: ProcPlan,
	pub pc: usize,
	pub done_in_step: u32,
	pub spawn: Option<usize>, // index into World::spawns
	pub owner: Option<usize>,
	pub await_tag: bool,
	pub stalled: bool,
	// stdin
	pub in_exists: bool,
	pub in_buf: VecDeque<u8>,
	pub in_cap: usize,
	pub in_accepted: Vec<u8>,
	pub in_dropped: bool, // server dropped or closed its end
	pub in_closed: bool,  // process closed its end
	pub in_broken_seen: bool,
	pub in_waker: Option<Waker>,
	pub consumed: usize,
	/// event number, accepted bytes, whether the process had ended or stopped reading
	pub in_drop: Option<(u64, usize, bool)>,
	pub out: Pipe,
	pub err: Pipe,
	pub exited: Option<i32>, // raw wait status style: >=0 code, <0 signal
	pub wait_waker: Option<Waker>,
	pub wait_dropped: bool,
	pub wait_taken: bool,
	pub finished: bool,
	pub scheduled: bool,
	pub chunk: Chunk,
	pub in_chunk: Chunk,
	pub spurious: u32,
	pub lat: u32,
	pub lingering: bool,
	pub killed: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum AuthM {
	None,
	Password(Vec<u8>),
	PublicKey { alg: Vec<u8>, key: Vec<u8>, sig: Vec<u8>, msg: Vec<u8> },
}

#[derive(Clone, Debug)]
pub enum Hist {
	Exists { user: Vec<u8>, service: Vec<u8>, alg: Vec<u8>, key: Vec<u8>, ok: bool },
	Auth { user: Vec<u8>, service: Vec<u8>, m: AuthM, ok: bool },
}

/// A process start that some client asked for.
#[derive(Clone, Debug)]
pub struct SpawnExp {
	pub owner: usize,
	pub pkt: u32,
	pub shell: bool,
	pub cmd: Vec<u8>,
	pub argv: Vec<Vec<u8>>,
	pub key: Vec<u8>,
	pub plan: ProcPlan,
	pub calls: u32,
	pub user: Vec<u8>,
	pub proc_: Option<usize>,
}

#[derive(Clone)]
pub struct Cred {
	pub owner: usize,
	pub user: Vec<u8>,
	pub service: Vec<u8>,
	pub alg: Vec<u8>,
	pub key: Vec<u8>,
	pub seed: [u8; 32],
}

/// What a run learnt about sessions; used across connections.
#[derive(Default)]
pub struct Shared {
	/// what clients tried to authenticate with
	pub creds: Vec<Cred>,
	pub daemon: bool,
	pub host_key: Option<Vec<u8>>,
	pub host_ident: Option<Vec<u8>>,
	pub eph: std::collections::BTreeSet<Vec<u8>>,
	pub sids: std::collections::BTreeSet<Vec<u8>>,
	pub keys: std::collections::BTreeSet<Vec<u8>>,
	pub sessions: Vec<Vec<u8>>,
	/// everything each client put on the wire, for replay
	pub recorded: BTreeMap<usize, Vec<Vec<u8>>>,
	pub srv_ident: Vec<u8>,
	/// clients that have begun to misbehave
	pub wild: std::collections::BTreeSet<usize>,
	/// those of them whose commands a daemon ran
	pub wild_ran: std::collections::BTreeSet<usize>,
}

#[derive(Clone, Debug)]
pub struct Violation {
	pub prop: &'static str,
	pub class: String,
	pub msg: String,
}

#[derive(Default)]
struct DelaySlot {
	done: bool,
	waker: Option<Waker>,
}

pub struct World {
	pub ch: Choices,
	pub seed: u64,
	pub now: u64,
	seq: u64,
	heap: BinaryHeap<Reverse<(u64, u32, u64, Ev)>>,
	pub conns: Vec<Conn>,
	pub accept_q: VecDeque<Option<usize>>, // None: accept error
	pub accept_waker: Option<Waker>,
	pub listeners: u32,
	pub procs: Vec<Proc>,
	delays: Vec<DelaySlot>,
	pub hist: Vec<Hist>,
	pub faults: BTreeMap<&'static str, u64>,
	pub probes: BTreeMap<&'static str, u64>,
	pub viol: Vec<Violation>,
	pub loghash: u64,
	pub schedhash: u64,
	pub events: u64,
	pub trace: Option<Vec<String>>,
	/// Real I/O or handler progress made by the server; used to detect spinning.
	pub progress: u64,
	pub no_faults: bool,
	/// Processes always have room for what they are sent.
	pub roomy: bool,
	/// pending wake-ups collected while borrowed
	pub wakes: Vec<Waker>,
	pub spawns: Vec<SpawnExp>,
	pub sh: Shared,
	pub stall_handlers: u32,
	stalled_delays: Vec<usize>,
	/// nothing may be injected right now
	pub quiet: bool,
	pub tie: bool,
	pub handler_delay: u32,
	pub pipe_caps: u32,
	pub worn: u8,
}

/// With SIM_LIVE=FILE in the environment the trace is also written as it happens, for runs that
/// never end.
fn push_trace(t: &mut Vec<String>, l: String) {
	if let Some(f) = std::env::var_os("SIM_LIVE") {
		use std::io::Write;
		if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(f) {
			let _ = writeln!(f, "{l}");
		}
	}
	t.push(l);
}

/// How much of what processes write may be taken before it can be sent.
pub const READ_AHEAD: u64 = 131_072;

thread_local! {
	static W: RefCell<Option<World>> = RefCell::new(None);
}

pub fn install(w: World) {
	W.with(|c| *c.borrow_mut() = Some(w));
}

pub fn uninstall() -> World {
	W.with(|c| c.borrow_mut().take().unwrap())
}

/// Access the world; wake-ups requested inside are performed after the borrow ends.
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
	let own = crate::heap::counting(false);
	let (r, wakes) = W.with(|c| {
		let mut c = c.borrow_mut();
		let w = c.as_mut().expect("no world");
		let r = f(w);
		let wakes = std::mem::take(&mut w.wakes);
		(r, wakes)
	});
	drop(own);
	for w in wakes {
		w.wake();
	}
	r
}

/// As `with`, but tolerates the world being gone (drops after the end of a run).
pub fn try_with(f: impl FnOnce(&mut World)) {
	let own = crate::heap::counting(false);
	let wakes = W.with(|c| {
		if let Ok(mut c) = c.try_borrow_mut() {
			if let Some(w) = c.as_mut() {
				f(w);
				return std::mem::take(&mut w.wakes);
			}
		}
		Vec::new()
	});
	drop(own);
	for w in wakes {
		w.wake();
	}
}

impl World {
	pub fn new(seed: u64, ch: Choices, trace: bool) -> Self {
		World {
			ch,
			seed,
			now: 0,
			seq: 0,
			heap: BinaryHeap::new(),
			conns: Vec::new(),
			accept_q: VecDeque::new(),
			accept_waker: None,
			listeners: 0,
			procs: Vec::new(),
			delays: Vec::new(),
			hist: Vec::new(),
			faults: BTreeMap::new(),
			probes: BTreeMap::new(),
			viol: Vec::new(),
			loghash: 0xcbf29ce484222325,
			schedhash: 0xcbf29ce484222325,
			events: 0,
			trace: trace.then(Vec::new),
			progress: 0,
			no_faults: false,
			roomy: false,
			wakes: Vec::new(),
			spawns: Vec::new(),
			sh: Shared::default(),
			stall_handlers: 0,
			stalled_delays: Vec::new(),
			quiet: false,
			tie: false,
			handler_delay: 0,
			pipe_caps: 0,
			worn: 0,
		}
	}

	pub fn ev(&mut self, what: &'static str, a: u64, b: u64) {
		self.events += 1;
		let mut h = self.loghash;
		for x in [what.as_ptr() as u64 * 0, what.len() as u64, a, b, self.now] {
			h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
		}
		for c in what.bytes() {
			h = (h ^ c as u64).wrapping_mul(0x100000001b3);
		}
		self.loghash = h;
		// Interleaving measure: order and identity of steps, not sizes or times.
		let mut s = self.schedhash;
		for c in what.bytes() {
			s = (s ^ c as u64).wrapping_mul(0x100000001b3);
		}
		self.schedhash = (s ^ a).wrapping_mul(0x100000001b3).rotate_left(11);
		let now = self.now;
		if let Some(t) = &mut self.trace {
			push_trace(t, format!("t={now} {what} {a} {b}"));
		}
	}

	pub fn note(&mut self, f: impl FnOnce() -> String) {
		let now = self.now;
		if let Some(t) = &mut self.trace {
			push_trace(t, format!("t={now} # {}", f()));
		}
	}

	pub fn fault(&mut self, k: &'static str) {
		*self.faults.entry(k).or_default() += 1;
		self.ev("fault", k.len() as u64, 0);
		self.note(|| format!("fault {k}"));
	}

	pub fn probe(&mut self, k: &'static str) {
		*self.probes.entry(k).or_default() += 1;
	}

	pub fn violate(&mut self, prop: &'static str, class: &str, msg: String) {
		self.note(|| format!("VIOLATION {prop} {class}: {msg}"));
		if self.viol.len() < 200
			&& !self
				.viol
				.iter()
				.any(|v| v.prop == prop && v.class == class)
		{
			self.viol
				.push(Violation { prop, class: class.to_string(), msg });
		}
	}

	pub fn at(&mut self, t: u64, e: Ev) {
		self.seq += 1;
		let tie = if self.tie && !self.no_faults { self.ch.choose(ST_SCHED, 8) } else { 0 };
		self.heap.push(Reverse((t.max(self.now), tie, self.seq, e)));
	}

	pub fn after(&mut self, d: u64, e: Ev) {
		self.at(self.now + d, e)
	}

	pub fn pop(&mut self) -> Option<Ev> {
		if self.worn == 0 && self.events > 60_000 {
			self.wear();
		} else if self.worn == 1 && self.events > 250_000 {
			self.worn = 2;
		}
		self.heap.pop().map(|Reverse((t, _, _, e))| {
			self.now = self.now.max(t);
			e
		})
	}

	/// Long runs go on in larger steps and, if they still do not end, with what is left of the
	/// transfers cut short, so that each run stays affordable.
	fn wear(&mut self) {
		self.worn = 1;
		for k in &mut self.conns {
			k.s2c_cap = k.s2c_cap.max(8192);
			(k.rd_chunk, k.wr_chunk, k.spurious) = (None, None, 0);
			self.wakes.extend(k.wr_waker.take());
		}
		for k in 0..self.procs.len() {
			let p = &mut self.procs[k];
			p.in_cap = p.in_cap.max(8192);
			p.out.cap = p.out.cap.max(8192);
			p.err.cap = p.err.cap.max(8192);
			(p.chunk, p.in_chunk, p.spurious) = (Chunk::All, Chunk::All, 0);
			self.wakes.extend(p.in_waker.take());
			self.proc_kick(k);
		}
	}

	pub fn idle(&self) -> bool {
		self.heap.is_empty()
	}

	pub fn take(&mut self, st: StreamId, mode: Chunk, avail: usize) -> usize {
		if avail <= 1 {
			return avail;
		}
		let n = match mode {
			Chunk::All => avail,
			Chunk::One => 1,
			Chunk::Small => 1 + self.ch.choose(st, avail.min(12) as u32) as usize,
			Chunk::Mixed => match self.ch.choose(st, 4) {
				0 => avail,
				1 => 1,
				2 => 1 + self.ch.choose(st, avail as u32) as usize,
				_ => 1 + self.ch.choose(st, avail.min(16) as u32) as usize,
			},
		};
		if n < avail {
			*self.faults.entry("short_transfer").or_default() += 1;
		}
		n
	}

	fn lat(&mut self, st: StreamId, lat: u32) -> u64 {
		match lat {
			0 => 0,
			l => match self.ch.choose(st, 4) {
				0 => 0,
				1 => 1,
				_ => self.ch.choose(st, l) as u64,
			},
		}
	}

	// ---- network -------------------------------------------------------------------------

	pub fn net_send(&mut self, c: usize, s: Seg) {
		let lat = self.conns[c].lat;
		let d = self.lat(ST_C2S + c as u32, lat);
		let t = (self.now + d).max(self.conns[c].c2s_last);
		self.conns[c].c2s_last = t;
		self.conns[c].c2s_flight.push_back(s);
		self.at(t, Ev::C2S(c));
	}

	pub fn c2s_arrive(&mut self, c: usize) {
		let k = &mut self.conns[c];
		if k.c2s_paused {
			k.c2s_skipped += 1;
			return;
		}
		let Some(s) = k.c2s_flight.pop_front() else { return };
		if k.c2s_end.is_some() {
			return;
		}
		let n = match s {
			Seg::Bytes(b) => {
				k.c2s_delivered += b.len() as u64;
				let n = b.len();
				k.c2s.extend(b);
				n as u64
			}
			Seg::Eof => {
				k.c2s_end = Some(false);
				u64::MAX
			}
			Seg::Reset => {
				k.c2s_end = Some(true);
				k.s2c_broken = true;
				k.s2c.clear();
				if let Some(w) = k.wr_waker.take() {
					self.wakes.push(w);
				}
				u64::MAX - 1
			}
		};
		if let Some(w) = self.conns[c].rd_waker.take() {
			self.wakes.push(w);
		}
		self.ev("c2s", c as u64, n);
	}

	pub fn c2s_resume(&mut self, c: usize) {
		self.conns[c].c2s_paused = false;
		for _ in 0..std::mem::take(&mut self.conns[c].c2s_skipped) {
			self.after(0, Ev::C2S(c));
		}
	}

	/// Faults stop: whatever was held back goes on.
	pub fn heal(&mut self) {
		self.no_faults = true;
		self.ev("heal", 0, 0);
		for c in 0..self.conns.len() {
			self.c2s_resume(c);
			self.conns[c].s2c_paused = false;
			self.conns[c].stalled = false;
			self.s2c_kick(c);
		}
		for d in std::mem::take(&mut self.stalled_delays) {
			self.after(0, Ev::Delay(d));
		}
		for k in 0..self.procs.len() {
			if std::mem::take(&mut self.procs[k].stalled) {
				self.procs[k].pc += 1;
				self.proc_kick(k);
			}
		}
	}

	pub fn s2c_kick(&mut self, c: usize) {
		let k = &self.conns[c];
		if k.s2c_event || k.s2c_paused || k.client_gone {
			return;
		}
		let lat = k.lat;
		let d = self.lat(ST_S2C + c as u32, lat);
		self.conns[c].s2c_event = true;
		self.after(d, Ev::S2C(c));
	}

	/// Bytes that reach the client now; `Some(empty)` means end of stream.
	pub fn s2c_arrive(&mut self, c: usize) -> Option<Vec<u8>> {
		self.conns[c].s2c_event = false;
		if self.conns[c].s2c_paused || self.conns[c].client_gone {
			return None;
		}
		let avail = self.conns[c].s2c.len();
		if avail == 0 {
			let k = &mut self.conns[c];
			if (k.wr_dropped || k.wr_closed || k.s2c_broken) && !k.told_client_end {
				k.told_client_end = true;
				self.ev("s2c-end", c as u64, 0);
				return Some(Vec::new());
			}
			return None;
		}
		let n = self.take(ST_S2C + c as u32, Chunk::Mixed, avail);
		let v: Vec<u8> = self.conns[c].s2c.drain(..n).collect();
		if let Some(w) = self.conns[c].wr_waker.take() {
			self.wakes.push(w);
		}
		self.ev("s2c", c as u64, n as u64);
		if n < avail || self.conns[c].wr_dropped || self.conns[c].wr_closed {
			self.s2c_kick(c);
		}
		Some(v)
	}

	pub fn new_conn(&mut self) -> usize {
		self.conns.push(Conn { s2c_cap: 1 << 16, ..Default::default() });
		self.conns.len() - 1
	}

	// ---- processes -----------------------------------------------------------------------

	pub fn spawn(&mut self, spawn: Option<usize>, plan: ProcPlan, await_tag: bool) -> usize {
		let id = self.procs.len();
		let st = ST_PROC + id as u32;
		let cap = |w: &mut World| -> usize {
			match w.pipe_caps {
				_ if w.worn > 0 || w.roomy => 65536,
				0 => 65536,
				_ => match w.ch.choose(st, 4) {
					0 => 65536,
					1 => 4096,
					2 => 1 + w.ch.choose(st, 64) as usize,
					_ => 1 + w.ch.choose(st, 1024) as usize,
				},
			}
		};
		let (ic, oc, ec) = (cap(self), cap(self), cap(self));
		let chunk = if self.no_faults || self.worn > 0 { Chunk::All } else { chunk_mode(self, st) };
		let in_chunk = if self.no_faults || self.worn > 0 { Chunk::All } else { chunk_mode(self, st) };
		let spurious = if self.no_faults || self.worn > 0 { 0 } else { [0, 0, 1, 8][self.ch.choose(st, 4) as usize] };
		let lat = if self.no_faults { 0 } else { [0, 10, 1000, 30_000][self.ch.choose(st, 4) as usize] };
		let p = Proc {
			pc: 0,
			done_in_step: 0,
			owner: spawn.map(|s| self.spawns[s].owner),
			spawn,
			await_tag,
			stalled: false,
			in_exists: !plan.no_stdin,
			in_buf: VecDeque::new(),
			in_cap: if await_tag { ic.max(64) } else { ic },
			in_accepted: Vec::new(),
			in_dropped: plan.no_stdin,
			in_closed: plan.no_stdin,
			in_broken_seen: false,
			in_waker: None,
			consumed: 0,
			in_drop: None,
			out: Pipe { cap: oc, exists: !plan.no_stdout, dropped: plan.no_stdout, ..Default::default() },
			err: Pipe { cap: ec, exists: !plan.no_stderr, dropped: plan.no_stderr, ..Default::default() },
			exited: None,
			wait_waker: None,
			wait_dropped: false,
			wait_taken: false,
			finished: false,
			scheduled: false,
			chunk,
			in_chunk,
			spurious,
			lat,
			lingering: false,
			killed: false,
			plan,
		};
		self.procs.push(p);
		self.ev("spawn", id as u64, spawn.map_or(u64::MAX, |s| s as u64));
		self.proc_kick(id);
		id
	}

	pub fn proc_kick(&mut self, k: usize) {
		if self.procs[k].scheduled || self.procs[k].finished || self.procs[k].stalled {
			return;
		}
		let lat = self.procs[k].lat;
		let d = self.lat(ST_PROC + k as u32, lat);
		self.procs[k].scheduled = true;
		self.after(d, Ev::Proc(k));
	}

	/// Content of a process's output streams: position-dependent, stderr marked by the top bit.
	fn out_byte(k: usize, pos: usize, err: bool) -> u8 {
		let x = (pos as u32)
			.wrapping_mul(2654435761)
			.wrapping_add((k as u32).wrapping_mul(40503))
			.rotate_left(9)
			.wrapping_mul(2246822519);
		((x >> 13) as u8 & 0x7f) | ((err as u8) << 7)
	}

	fn proc_finish(&mut self, k: usize) {
		let p = &mut self.procs[k];
		if p.exited.is_none() {
			p.exited = Some(0);
		}
		p.finished = true;
		p.in_closed = true;
		p.out.closed = true;
		p.err.closed = true;
		self.wakes.extend(p.in_waker.take());
		self.wakes.extend(p.out.waker.take());
		self.wakes.extend(p.err.waker.take());
		self.wakes.extend(p.wait_waker.take());
	}

	fn proc_sigpipe(&mut self, k: usize) {
		self.ev("sigpipe", k as u64, 0);
		let p = &mut self.procs[k];
		p.killed = true;
		if p.exited.is_none() {
			p.exited = Some(-13);
		}
		self.proc_finish(k);
	}

	/// The daemon kills a process.
	pub fn proc_kill(&mut self, k: usize) {
		if self.procs[k].finished || self.procs[k].exited.is_some() {
			return;
		}
		self.ev("kill", k as u64, 0);
		if self.procs[k].owner.map_or(false, |c| !self.conns[c].rd_dropped && !self.conns[c].wr_dropped) && !self.procs[k].wait_dropped {
			self.violate("C22", "killed", format!("process {k} is killed by the daemon"));
		}
		self.procs[k].exited = Some(-9);
		self.procs[k].killed = true;
		self.proc_finish(k);
	}

	/// A shell learns what it is to do from the first line of its input.
	fn proc_tag(&mut self, k: usize) {
		let p = &mut self.procs[k];
		let i = match p.in_buf.iter().position(|&c| c == b'\n') {
			Some(i) => i,
			None if p.in_dropped => return self.proc_finish(k),
			// a line this long is not from one of our own clients
			None if p.in_buf.len() >= p.in_cap => p.in_cap - 1,
			None => return,
		};
		let line: Vec<u8> = p.in_buf.drain(..=i).collect();
		p.consumed += line.len();
		p.await_tag = false;
		self.wakes.extend(p.in_waker.take());
		let key = &line[..line.len() - 1];
		match self.spawns.iter().position(|s| s.shell && s.key == key && s.proc_.is_none()) {
			Some(i) => {
				self.spawns[i].proc_ = Some(k);
				self.spawns[i].calls += 1;
				self.procs[k].plan = self.spawns[i].plan.clone();
				self.procs[k].spawn = Some(i);
				self.procs[k].owner = Some(self.spawns[i].owner);
			}
			None if !self.sh.wild.is_empty() && tag_of(key, b'k').map_or(true, |o| self.sh.wild.contains(&o)) => {
				self.procs[k].plan = wild_plan();
			}
			None => {
				self.violate("C22", "shell-input", format!("a shell read {key:?} first"));
				self.violate("C08", "shell-input", format!("a shell read {key:?} first"));
			}
		}
		self.proc_kick(k);
	}

	pub fn proc_step(&mut self, k: usize) {
		self.procs[k].scheduled = false;
		if self.procs[k].finished {
			return;
		}
		let st = ST_PROC + k as u32;
		self.ev("proc", k as u64, self.procs[k].pc as u64);
		if self.procs[k].await_tag {
			return self.proc_tag(k);
		}
		let Some(step) = self.procs[k].plan.steps.get(self.procs[k].pc).cloned() else {
			self.proc_finish(k);
			return;
		};
		let mut advance = true;
		let mut again = true;
		match step {
			PStep::Out(n) | PStep::Err(n) => {
				let is_err = matches!(step, PStep::Err(_));
				let p = &mut self.procs[k];
				let left = n - p.done_in_step;
				let pipe = if is_err { &p.err } else { &p.out };
				if !pipe.exists || pipe.closed || left == 0 || self.worn > 1 {
					// nothing to write to
				} else if pipe.dropped {
					self.proc_sigpipe(k);
					return;
				} else {
					let room = pipe.cap - pipe.buf.len().min(pipe.cap);
					let m = self.take(st, self.procs[k].chunk, room.min(left as usize));
					let p = &mut self.procs[k];
					let pipe = if is_err { &mut p.err } else { &mut p.out };
					for _ in 0..m {
						let b = Self::out_byte(k, pipe.written.len(), is_err);
						pipe.written.push(b);
						pipe.buf.push_back(b);
					}
					p.done_in_step += m as u32;
					advance = p.done_in_step >= n;
					again = m > 0;
					if m > 0 {
						let w = if is_err { p.err.waker.take() } else { p.out.waker.take() };
						self.wakes.extend(w);
					}
				}
			}
			PStep::Read(n) => {
				let p = &mut self.procs[k];
				let left = (n - p.done_in_step) as usize;
				let m = left.min(p.in_buf.len());
				p.in_buf.drain(..m);
				p.consumed += m;
				p.done_in_step += m as u32;
				self.wakes.extend(p.in_waker.take());
				advance = p.done_in_step >= n || (p.in_dropped && p.in_buf.is_empty()) || p.in_closed;
				again = false;
			}
			PStep::ReadEof => {
				let p = &mut self.procs[k];
				let m = p.in_buf.len();
				p.in_buf.clear();
				p.consumed += m;
				self.wakes.extend(p.in_waker.take());
				advance = p.in_dropped || p.in_closed;
				again = false;
			}
			PStep::Echo => {
				let p = &mut self.procs[k];
				if p.out.dropped && p.out.exists && !p.in_buf.is_empty() {
					self.proc_sigpipe(k);
					return;
				}
				let room = if p.out.exists && !p.out.closed {
					p.out.cap - p.out.buf.len().min(p.out.cap)
				} else {
					usize::MAX
				};
				let m = room.min(p.in_buf.len());
				for b in p.in_buf.drain(..m).collect::<Vec<_>>() {
					if p.out.exists && !p.out.closed {
						p.out.written.push(b & 0x7f);
						p.out.buf.push_back(b & 0x7f);
					}
				}
				p.consumed += m;
				if m > 0 {
					self.wakes.extend(p.in_waker.take());
					self.wakes.extend(p.out.waker.take());
				}
				advance = (p.in_dropped || p.in_closed) && p.in_buf.is_empty();
				again = false;
			}
			PStep::CloseIn => {
				let p = &mut self.procs[k];
				p.in_closed = true;
				p.in_buf.clear();
				self.wakes.extend(p.in_waker.take());
			}
			PStep::CloseOut => {
				let p = &mut self.procs[k];
				p.out.closed = true;
				self.wakes.extend(p.out.waker.take());
			}
			PStep::CloseErr => {
				let p = &mut self.procs[k];
				p.err.closed = true;
				self.wakes.extend(p.err.waker.take());
			}
			PStep::OutFault => {
				self.procs[k].out.fault = true;
				let w = self.procs[k].out.waker.take();
				self.wakes.extend(w);
			}
			PStep::ErrFault => {
				self.procs[k].err.fault = true;
				let w = self.procs[k].err.waker.take();
				self.wakes.extend(w);
			}
			PStep::Sleep(us) => {
				let p = &mut self.procs[k];
				p.pc += 1;
				p.done_in_step = 0;
				p.scheduled = true;
				self.after(us as u64, Ev::Proc(k));
				return;
			}
			PStep::Stall => {
				if !self.no_faults {
					self.procs[k].stalled = true;
					self.fault("process_stalled");
					return;
				}
			}
			PStep::Exit(s) => {
				let p = &mut self.procs[k];
				p.exited = Some(s as i32);
				p.lingering = true;
				self.wakes.extend(p.wait_waker.take());
			}
			PStep::Kill(s) => {
				let p = &mut self.procs[k];
				p.exited = Some(-(s as i32));
				p.killed = true;
				self.wakes.extend(p.wait_waker.take());
				self.proc_finish(k);
				return;
			}
		}
		if advance {
			self.procs[k].pc += 1;
			self.procs[k].done_in_step = 0;
			again = true;
		}
		if again {
			self.proc_kick(k);
		}
	}

	// ---- delays --------------------------------------------------------------------------

	/// A timer of the system under test.
	pub fn timer(&mut self, us: u64) -> Delay {
		self.delays.push(DelaySlot::default());
		let id = self.delays.len() - 1;
		self.after(us, Ev::Delay(id));
		Delay(Some(id))
	}

	pub fn delay_fire(&mut self, id: usize) {
		self.delays[id].done = true;
		self.wakes.extend(self.delays[id].waker.take());
		self.ev("delay", id as u64, 0);
	}
}

// ---- seams ---------------------------------------------------------------------------------

/// What a process that nobody expected in particular does.
pub fn wild_plan() -> ProcPlan {
	ProcPlan { steps: vec![PStep::Out(20), PStep::Err(5), PStep::Sleep(500), PStep::Exit(3)], ..Default::default() }
}

fn lossy(s: &[u8]) -> String {
	String::from_utf8_lossy(&s[..s.len().min(60)]).into_owned()
}

impl World {
	/// The library asks the application to start a process.
	pub fn lib_spawn(&mut self, owner: Option<usize>, user: &[u8], shell: bool, cmd: &[u8]) -> Option<usize> {
		let what = || format!("{}{:?} for user {:?}", if shell { "shell " } else { "exec " }, lossy(cmd), lossy(user));
		let Some(owner) = owner else {
			// only possible for a user whose own mark was damaged in transit
			if self.sh.wild.is_empty() {
				self.violate("C06", "unknown-user", what());
			}
			return Some(self.spawn(None, wild_plan(), false));
		};
		if let Some(o) = tag_of(cmd, b'k').filter(|o| *o != owner && !shell) {
			for p in ["C06", "C11"] {
				self.violate(p, "foreign", format!("request of connection {o} carried out on connection {owner}: {}", what()));
			}
			return None;
		}
		let i = self
			.spawns
			.iter()
			.position(|s| s.owner == owner && s.calls == 0 && s.shell == shell && s.cmd == cmd);
		if let Some(i) = i {
			let s = &mut self.spawns[i];
			s.calls += 1;
			s.user = user.to_vec();
			if s.plan.fail {
				self.fault("spawn_failure");
				return None;
			}
			let plan = s.plan.clone();
			let k = self.spawn(Some(i), plan, false);
			self.spawns[i].proc_ = Some(k);
			return Some(k);
		}
		if self.sh.wild.contains(&owner) {
			let k = self.spawn(None, wild_plan(), false);
			self.procs[k].owner = Some(owner);
			return Some(k);
		}
		let again = self.spawns.iter().any(|s| s.owner == owner && s.shell == shell && s.cmd == cmd);
		let m = format!("connection {owner}: {} not asked for{}", what(), if again { " again" } else { "" });
		self.violate("C11", if again { "spawned-twice" } else { "spawned" }, m.clone());
		if again {
			self.violate("C04", "spawned-twice", m);
		}
		None
	}

	/// The daemon starts a program.
	pub fn daemon_spawn(&mut self, argv: &[Vec<u8>], is_shell: bool, piped: bool, elsewhere: bool) -> Option<usize> {
		let all = argv.join(&b' ');
		let what = || format!("{:?}", argv.iter().map(|a| lossy(a)).collect::<Vec<_>>());
		if all.contains(&0) {
			self.fault("spawn_failure");
			// the request is recognised by what precedes the zero byte
			if let Some(s) = self.spawns.iter_mut().find(|s| s.calls == 0 && s.plan.fail && s.argv == argv) {
				s.calls += 1;
			}
			return None;
		}
		if !piped {
			self.violate("C22", "not-connected", format!("{} does not have all three streams piped", what()));
		}
		if elsewhere {
			self.violate("C22", "elsewhere", format!("{} is run in another directory or environment", what()));
		}
		if is_shell {
			if argv.len() != 1 {
				self.violate("C22", "shell-arguments", what());
			}
			return Some(self.spawn(None, ProcPlan::default(), true));
		}
		if let Some(i) = self.spawns.iter().position(|s| !s.shell && s.calls == 0 && s.argv == argv) {
			self.spawns[i].calls += 1;
			if self.spawns[i].plan.fail {
				self.fault("spawn_failure");
				return None;
			}
			let plan = self.spawns[i].plan.clone();
			let k = self.spawn(Some(i), plan, false);
			self.spawns[i].proc_ = Some(k);
			return Some(k);
		}
		let owner = tag_of(&all, b'k');
		if !self.sh.wild.is_empty() && owner.map_or(true, |o| self.sh.wild.contains(&o)) {
			let k = self.spawn(None, wild_plan(), false);
			self.procs[k].owner = owner;
			self.sh.wild_ran.extend(owner);
			return Some(k);
		}
		let again = self.spawns.iter().any(|s| s.argv == argv);
		self.violate("C22", if again { "spawned-twice" } else { "spawned" }, format!("{} not asked for", what()));
		if again {
			self.violate("C11", "spawned-twice", format!("{} started twice", what()));
		}
		None
	}
}

pub struct SimRead(pub usize);
pub struct SimWrite(pub usize);

pub fn conn_read(c: usize, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<io::Result<usize>> {
	let (r, spur) = with(|w| {
		let k = &w.conns[c];
		if let (Some((n, p)), None) = (k.mark, k.mark_at) {
			if k.server_read >= n {
				let at = w.procs[p].in_accepted.len() as u64;
				w.conns[c].mark_at = Some(at);
			}
		}
		let k = &w.conns[c];
		let sp = k.spurious;
		if !w.no_faults && !w.quiet && w.ch.chance(ST_RD + c as u32, sp, 64) {
			w.progress += 1;
			w.fault("spurious_pending");
			return (Poll::Pending, true);
		}
		let k = &mut w.conns[c];
		if k.c2s.is_empty() {
			match k.c2s_end {
				Some(true) => {
					k.saw_end = true;
					w.progress += 1;
					return (Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())), false);
				}
				Some(false) => {
					k.saw_end = true;
					w.progress += 1;
					return (Poll::Ready(Ok(0)), false);
				}
				None => {
					k.rd_waker = Some(cx.waker().clone());
					return (Poll::Pending, false);
				}
			}
		}
		let avail = k.c2s.len().min(out.len());
		let mode = k.rd_chunk.unwrap_or(Chunk::All);
		let n = w.take(ST_RD + c as u32, mode, avail);
		for (o, b) in out.iter_mut().zip(w.conns[c].c2s.drain(..n)) {
			*o = b;
		}
		w.conns[c].server_read += n as u64;
		w.progress += 1;
		w.ev("srv-read", c as u64, n as u64);
		(Poll::Ready(Ok(n)), false)
	});
	if spur {
		cx.waker().wake_by_ref();
	}
	r
}

pub fn conn_write(c: usize, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
	let (r, spur) = with(|w| {
		let sp = w.conns[c].spurious;
		if !w.no_faults && !w.quiet && w.ch.chance(ST_WR + c as u32, sp, 64) {
			w.progress += 1;
			w.fault("spurious_pending");
			return (Poll::Pending, true);
		}
		let k = &mut w.conns[c];
		if k.wr_fails {
			k.wr_failed = true;
			w.progress += 1;
			w.fault("write_error_one_way");
			let e = [io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut, io::ErrorKind::ConnectionReset][w.ch.choose(ST_WR + c as u32, 3) as usize];
			return (Poll::Ready(Err(e.into())), false);
		}
		if k.s2c_broken {
			w.progress += 1;
			w.fault("write_error");
			return (Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())), false);
		}
		if k.client_gone {
			// peer has closed: bytes vanish (until its reset arrives)
			k.server_wrote += data.len() as u64;
			w.progress += 1;
			w.ev("srv-write-lost", c as u64, data.len() as u64);
			return (Poll::Ready(Ok(data.len())), false);
		}
		let room = k.s2c_cap - k.s2c.len().min(k.s2c_cap);
		if room == 0 {
			k.wr_waker = Some(cx.waker().clone());
			*w.faults.entry("write_backpressure").or_default() += 1;
			w.s2c_kick(c);
			return (Poll::Pending, false);
		}
		let mode = k.wr_chunk.unwrap_or(Chunk::All);
		let n = w.take(ST_WR + c as u32, mode, room.min(data.len()));
		let k = &mut w.conns[c];
		k.s2c.extend(&data[..n]);
		k.server_wrote += n as u64;
		w.progress += 1;
		w.ev("srv-write", c as u64, n as u64);
		w.s2c_kick(c);
		(Poll::Ready(Ok(n)), false)
	});
	if spur {
		cx.waker().wake_by_ref();
	}
	r
}

pub fn conn_close_write(c: usize) {
	with(|w| {
		w.conns[c].wr_closed = true;
		w.ev("srv-close-write", c as u64, 0);
		w.s2c_kick(c);
	})
}

pub fn conn_drop_read(c: usize) {
	try_with(|w| {
		w.conns[c].rd_dropped = true;
		w.conns[c].rd_waker = None;
		w.ev("srv-drop-read", c as u64, 0);
	})
}

pub fn conn_drop_write(c: usize) {
	try_with(|w| {
		w.conns[c].wr_dropped = true;
		w.conns[c].wr_waker = None;
		w.ev("srv-drop-write", c as u64, 0);
		w.s2c_kick(c);
	})
}

impl AsyncRead for SimRead {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
		conn_read(self.0, cx, b)
	}
}
impl Drop for SimRead {
	fn drop(&mut self) {
		conn_drop_read(self.0)
	}
}
impl AsyncWrite for SimWrite {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
		conn_write(self.0, cx, b)
	}
	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}
	fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		conn_close_write(self.0);
		Poll::Ready(Ok(()))
	}
}
impl Drop for SimWrite {
	fn drop(&mut self) {
		conn_drop_write(self.0)
	}
}

/// Next connection (or accept error) for the server.
pub fn poll_accept(cx: &mut Context<'_>) -> Poll<Option<usize>> {
	with(|w| match w.accept_q.pop_front() {
		Some(x) => {
			w.progress += 1;
			if let Some(c) = x {
				w.conns[c].accepted = true;
				let d = w.now - w.conns[c].came;
				// each accept that fails may be followed by a pause, but a short one
				if w.sh.daemon && d > 60_000_000 {
					w.violate("C21", "accept-late", format!("connection {c} was accepted only after {} s", d / 1_000_000));
				}
				w.ev("accept", c as u64, 0);
			} else {
				w.ev("accept-error", 0, 0);
			}
			Poll::Ready(x)
		}
		None => {
			w.accept_waker = Some(cx.waker().clone());
			Poll::Pending
		}
	})
}

pub struct SimStdin(pub usize);
pub struct SimStdout(pub usize);
pub struct SimStderr(pub usize);

impl AsyncWrite for SimStdin {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
		let k = self.0;
		let (r, spur) = with(|w| {
			let st = ST_PROC + k as u32;
			let sp = w.procs[k].spurious;
			if !w.no_faults && !w.quiet && w.ch.chance(st, sp, 64) {
				w.progress += 1;
			w.fault("spurious_pending");
				return (Poll::Pending, true);
			}
			let p = &mut w.procs[k];
			if p.in_closed {
				p.in_broken_seen = true;
				w.progress += 1;
				w.fault("stdin_broken_pipe");
				return (Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())), false);
			}
			let room = p.in_cap - p.in_buf.len().min(p.in_cap);
			if room == 0 {
				p.in_waker = Some(cx.waker().clone());
				*w.faults.entry("stdin_backpressure").or_default() += 1;
				w.proc_kick(k);
				return (Poll::Pending, false);
			}
			let mode = p.in_chunk;
			let n = w.take(st, mode, room.min(data.len()));
			if n < data.len() {
				w.probe("stdin_short_write");
			}
			let p = &mut w.procs[k];
			p.in_buf.extend(&data[..n]);
			p.in_accepted.extend_from_slice(&data[..n]);
			w.progress += 1;
			w.ev("stdin", k as u64, n as u64);
			w.proc_kick(k);
			(Poll::Ready(Ok(n)), false)
		});
		if spur {
			cx.waker().wake_by_ref();
		}
		r
	}
	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}
	fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		stdin_gone(self.0);
		Poll::Ready(Ok(()))
	}
}
fn stdin_gone(k: usize) {
	try_with(|w| {
		if w.procs[k].in_drop.is_none() {
			let e = w.events;
			let p = &mut w.procs[k];
			p.in_drop = Some((e, p.in_accepted.len(), p.exited.is_some() || p.in_broken_seen));
		}
		w.procs[k].in_dropped = true;
		w.procs[k].in_waker = None;
		w.ev("stdin-drop", k as u64, 0);
		w.proc_kick(k);
	})
}
impl Drop for SimStdin {
	fn drop(&mut self) {
		stdin_gone(self.0)
	}
}

fn pipe_read(k: usize, err: bool, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<io::Result<usize>> {
	let (r, spur) = with(|w| {
		let st = ST_PROC + k as u32;
		let sp = w.procs[k].spurious;
		if !w.no_faults && !w.quiet && w.ch.chance(st, sp, 64) {
			w.progress += 1;
			w.fault("spurious_pending");
			return (Poll::Pending, true);
		}
		let mode = w.procs[k].chunk;
		let p = &mut w.procs[k];
		let pipe = if err { &mut p.err } else { &mut p.out };
		if pipe.buf.is_empty() {
			if pipe.fault {
				pipe.fault_seen = true;
				w.progress += 1;
				w.fault("process_read_error");
				return (Poll::Ready(Err(io::ErrorKind::Other.into())), false);
			}
			if pipe.closed {
				pipe.eof_seen = true;
				w.progress += 1;
				w.ev("pipe-eof", k as u64, err as u64);
				return (Poll::Ready(Ok(0)), false);
			}
			pipe.waker = Some(cx.waker().clone());
			return (Poll::Pending, false);
		}
		let avail = pipe.buf.len().min(out.len());
		let n = w.take(st, mode, avail);
		let p = &mut w.procs[k];
		let pipe = if err { &mut p.err } else { &mut p.out };
		for (o, b) in out.iter_mut().zip(pipe.buf.drain(..n)) {
			*o = b;
		}
		pipe.read += n as u64;
		let owner = p.owner;
		if let Some(c) = owner {
			let spawned = w.spawns.len() as u64;
			let k = &mut w.conns[c];
			k.piped += n as u64;
			// what cannot be sent is to be left where it is
			if k.piped > k.server_wrote + READ_AHEAD + 1024 * spawned {
				let m = format!("{} bytes taken from the processes of connection {c}, {} written to it", k.piped, k.server_wrote);
				w.violate("C15", "read-ahead", m);
			}
		}
		w.progress += 1;
		w.ev("pipe-read", k as u64, n as u64);
		w.proc_kick(k);
		(Poll::Ready(Ok(n)), false)
	});
	if spur {
		cx.waker().wake_by_ref();
	}
	r
}
fn pipe_drop(k: usize, err: bool) {
	try_with(|w| {
		let p = &mut w.procs[k];
		let pipe = if err { &mut p.err } else { &mut p.out };
		pipe.dropped = true;
		pipe.waker = None;
		w.ev("pipe-drop", k as u64, err as u64);
		w.proc_kick(k);
	})
}
impl AsyncRead for SimStdout {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
		pipe_read(self.0, false, cx, b)
	}
}
impl AsyncRead for SimStderr {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
		pipe_read(self.0, true, cx, b)
	}
}
impl Drop for SimStdout {
	fn drop(&mut self) {
		pipe_drop(self.0, false)
	}
}
impl Drop for SimStderr {
	fn drop(&mut self) {
		pipe_drop(self.0, true)
	}
}

/// Resolves to the process's raw outcome (code, or minus signal number).
pub struct SimWait(pub usize);
impl Future for SimWait {
	type Output = i32;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<i32> {
		let k = self.0;
		with(|w| match w.procs[k].exited {
			Some(s) => {
				w.progress += 1;
				w.procs[k].wait_taken = true;
				w.ev("wait", k as u64, s as u64);
				Poll::Ready(s)
			}
			None => {
				w.procs[k].wait_waker = Some(cx.waker().clone());
				Poll::Pending
			}
		})
	}
}
impl Drop for SimWait {
	fn drop(&mut self) {
		let k = self.0;
		try_with(|w| {
			w.procs[k].wait_dropped = true;
			w.procs[k].wait_waker = None;
		})
	}
}

/// A handler's think time.
pub struct Delay(Option<usize>);
pub fn delay(conn: Option<usize>) -> Delay {
	Delay(with(|w| {
		let m = w.handler_delay;
		if w.no_faults {
			return None;
		}
		let s = w.stall_handlers;
		if let (Some(c), true) = (conn, s > 0 && w.ch.chance(ST_HANDLER, s, 32)) {
			w.fault("handler_stalled");
			if let Some(c) = w.conns.get_mut(c) {
				c.stalled = true;
			}
			w.delays.push(DelaySlot::default());
			let id = w.delays.len() - 1;
			w.stalled_delays.push(id);
			return Some(id);
		}
		if m == 0 {
			return None;
		}
		let d = match w.ch.choose(ST_HANDLER, 3) {
			0 => return None,
			1 => 1,
			_ => w.ch.choose(ST_HANDLER, m) as u64,
		};
		*w.faults.entry("slow_handler").or_default() += 1;
		w.delays.push(DelaySlot::default());
		let id = w.delays.len() - 1;
		w.after(d, Ev::Delay(id));
		Some(id)
	}))
}
impl Future for Delay {
	type Output = ();
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		match self.0 {
			None => Poll::Ready(()),
			Some(id) => with(|w| {
				if w.delays[id].done {
					w.progress += 1;
					Poll::Ready(())
				} else {
					w.delays[id].waker = Some(cx.waker().clone());
					Poll::Pending
				}
			}),
		}
	}
}
