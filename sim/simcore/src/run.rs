//! One simulated run: configuration, executor, phases, end-of-run checks.
use crate::{
	choice::{Choices, StreamId},
	client::{owner_of, Client, Kind, Prof},
	heap,
	world::{self, *},
};
use std::{
	any::Any,
	cell::RefCell,
	collections::BTreeMap,
	future::Future,
	panic::{catch_unwind, AssertUnwindSafe},
	pin::Pin,
	sync::{
		atomic::{AtomicBool, Ordering::SeqCst},
		Arc,
	},
	task::{Context, Poll, Wake},
};

pub type Streams = BTreeMap<StreamId, Vec<u32>>;
pub type Task = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Default, Clone, Debug)]
pub struct Outcome {
	pub viol: Vec<(String, String, String)>,
	pub faults: BTreeMap<String, u64>,
	pub probes: BTreeMap<String, u64>,
	pub stats: BTreeMap<String, u64>,
	pub events: u64,
	pub now: u64,
	pub loghash: u64,
	pub schedhash: u64,
	/// did something that bears on the property
	pub nontrivial: bool,
	pub inconclusive: Option<String>,
	pub harness: Option<String>,
	pub streams: Streams,
	pub trace: Vec<String>,
	pub sample: String,
}

/// The mix of clients and faults a property is searched with.
#[derive(Clone)]
pub struct Scenario {
	pub daemon: bool,
	pub prof: Prof,
	pub kinds: &'static [(Kind, u32)],
	pub clients: (u32, u32),
	pub cuts: u32,    // of 8, per client
	pub pauses: u32,  // of 8
	pub probe: u32,   // of 4
	pub accept_errors: bool,
	pub crowd: u32,   // of 256
	pub many: u32,    // of 256
	/// Of 256 runs: a single client with one short-lived channel after the other.
	pub churn: u32,
}

const REPLAY: Kind = Kind::Replay(0);

pub fn scenario(prop: &str) -> Scenario {
	use Kind::*;
	let prof = Prof {
		daemon: false,
		in_max: 3000,
		out_max: 3000,
		big: 1,
		fibers: 3,
		chans: 3,
		ops: 6,
		tries: 1,
		long: 1,
		proc_faults: false,
		stalls: false,
		odd_req: 4,
		unsup: 1,
		overrun: 0,
		many: 0,
		dense: 0,
		tiny_win: 2,
		garble: 0,
		churn: false,
		hold: 0,
	};
	let base = Scenario {
		daemon: false,
		prof: prof.clone(),
		kinds: &[(Normal, 1)],
		clients: (1, 3),
		cuts: 0,
		pauses: 1,
		probe: 1,
		accept_errors: false,
		crowd: 0,
		many: 0,
		churn: 0,
	};
	let small = Prof { in_max: 200, out_max: 200, big: 0, chans: 2, ops: 3, fibers: 2, ..prof.clone() };
	match prop {
		"C01" => Scenario {
			kinds: &[(Mitm, 5), (Normal, 1)],
			prof: Prof { tries: 3, odd_req: 4, ..small },
			clients: (1, 2),
			pauses: 0,
			..base
		},
		"C02" => Scenario {
			kinds: &[(Normal, 8), (AuthOnly, 1)],
			prof: Prof { fibers: 5, tries: 3, big: 2, out_max: 6000, long: 2, dense: 1, ..prof },
			clients: (1, 2),
			..base
		},
		"C03" => Scenario {
			kinds: &[(KexOnly, 4), (Tamper, 4), (BadKey, 2), (Normal, 1)],
			prof: Prof { long: 8, ..small },
			clients: (2, 5),
			probe: 0,
			..base
		},
		"C04" => Scenario {
			kinds: &[(Normal, 2), (REPLAY, 3), (KexOnly, 2), (AuthOnly, 1)],
			many: 6,
			prof: small,
			clients: (2, 6),
			probe: 0,
			..base
		},
		"C05" => Scenario {
			kinds: &[(BadAlgo, 3), (KexOnly, 3)],
			prof: Prof { long: 8, ..small },
			clients: (2, 5),
			probe: 1,
			..base
		},
		"C06" => Scenario {
			kinds: &[(AuthOnly, 3), (Normal, 3), (Hostile, 3)],
			prof: Prof { garble: 8, tries: 8, ..small },
			clients: (1, 4),
			..base
		},
		"C07" => Scenario {
			kinds: &[(AuthOnly, 5), (Normal, 1)],
			prof: Prof { garble: 8, tries: 10, long: 4, ..small },
			clients: (1, 4),
			..base
		},
		"C08" => Scenario { prof: Prof { in_max: 9000, big: 2, odd_req: 2, ..prof }, cuts: 1, ..base },
		"C09" => Scenario { prof: Prof { out_max: 9000, big: 2, fibers: 4, ..prof }, cuts: 1, ..base },
		"C10" => Scenario {
			prof: Prof { fibers: 4, chans: 4, in_max: 300, out_max: 600, big: 0, many: 1, dense: 1, proc_faults: true, ..prof },
			..base
		},
		"C11" => Scenario {
			prof: Prof { fibers: 5, chans: 5, in_max: 200, out_max: 200, big: 0, many: 2, odd_req: 12, ops: 8, long: 2, ..prof },
			..base
		},
		"C12" => Scenario {
			kinds: &[(Hostile, 6), (Normal, 4), (Mitm, 1), (AuthOnly, 1), (BadAlgo, 1), (BadKey, 1), (Tamper, 1)],
			prof: Prof { garble: 8, proc_faults: true, tries: 3, ..small },
			clients: (2, 5),
			cuts: 2,
			pauses: 1,
			probe: 4,
			crowd: 4,
			..base
		},
		"C13" => Scenario {
			prof: Prof { hold: 4, stalls: true, fibers: 4, big: 2, tries: 2, dense: 2, ..prof },
			kinds: &[(Normal, 6), (AuthOnly, 1), (KexOnly, 1), (Hostile, 1)],
			clients: (1, 4),
			pauses: 3,
			cuts: 1,
			probe: 3,
			crowd: 4,
			..base
		},
		"C14" => Scenario {
			kinds: &[(Normal, 6), (Hostile, 2), (Mitm, 1), (AuthOnly, 1), (KexOnly, 1), (BadAlgo, 1), (BadKey, 1), (Tamper, 1)],
			prof: Prof { stalls: true, proc_faults: true, fibers: 3, ..small },
			clients: (1, 4),
			cuts: 4,
			pauses: 2,
			churn: 4,
			..base
		},
		"C15" => Scenario {
			prof: Prof { hold: 6, big: 16, tiny_win: 3, overrun: 2, in_max: 20_000, out_max: 20_000, chans: 2, ..prof },
			clients: (1, 2),
			..base
		},
		"C23" => Scenario {
			kinds: &[(Normal, 8), (Hostile, 1)],
			prof: Prof { unsup: 12, odd_req: 8, in_max: 500, out_max: 500, big: 0, fibers: 4, chans: 4, ..prof },
			..base
		},
		"C20" => Scenario {
			daemon: true,
			kinds: &[(AuthOnly, 5), (Normal, 2), (Hostile, 1), (REPLAY, 1)],
			prof: Prof { garble: 8, daemon: true, tries: 8, long: 2, ..small },
			clients: (1, 4),
			..base
		},
		"C21" => Scenario {
			daemon: true,
			kinds: &[(Hostile, 5), (Normal, 5), (AuthOnly, 1), (Mitm, 1)],
			prof: Prof { garble: 8, daemon: true, tries: 4, proc_faults: true, ..small },
			clients: (2, 5),
			cuts: 2,
			probe: 4,
			accept_errors: true,
			crowd: 4,
			..base
		},
		"C22" => Scenario {
			daemon: true,
			prof: Prof { daemon: true, chans: 5, fibers: 4, in_max: 600, out_max: 1500, long: 2, ..prof },
			clients: (1, 4),
			..base
		},
		_ => base,
	}
}

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) {
		self.0.store(true, SeqCst)
	}
}

thread_local! {
	static PANIC: RefCell<String> = RefCell::new(String::new());
	/// tasks the system under test started
	pub static NEW_TASKS: RefCell<Vec<Task>> = RefCell::new(Vec::new());
}

pub fn set_panic_hook() {
	std::panic::set_hook(Box::new(|i| {
		let m = if let Some(s) = (i.payload() as &dyn Any).downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = (i.payload() as &dyn Any).downcast_ref::<String>() {
			s.clone()
		} else {
			String::new()
		};
		let l = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
		PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
	}));
}

pub fn last_panic() -> String {
	PANIC.with(|p| p.borrow().clone())
}

struct Sim {
	tasks: Vec<(Option<Task>, Arc<Flag>)>,
	clients: Vec<Client>,
	daemon: bool,
	lag: u32,
	spur: u32,
	dead: bool,
	spin: u32,
	last_progress: u64,
	pops: u64,
	stop: Option<String>,
}

/// What the server may keep allocated when there is no connection any more.
const KEPT_MAX: i64 = 24_000;
/// By how much it may grow over hundreds of channels that have all been closed.
const GROWN_MAX: i64 = 12_000;
const EVENT_CAP: u64 = 600_000;

impl Sim {
	fn adopt(&mut self) {
		for t in NEW_TASKS.with(|n| std::mem::take(&mut *n.borrow_mut())) {
			self.tasks.push((Some(t), Arc::new(Flag(AtomicBool::new(true)))));
		}
	}

	fn poll(&mut self, t: usize) {
		let flag = self.tasks[t].1.clone();
		flag.0.store(false, SeqCst);
		if self.dead {
			return;
		}
		let Some(mut task) = self.tasks[t].0.take() else { return };
		let waker = flag.into();
		let mut cx = Context::from_waker(&waker);
		with(|w| w.ev("poll", t as u64, 0));
		let own = heap::counting(true);
		let r = catch_unwind(AssertUnwindSafe(|| task.as_mut().poll(&mut cx)));
		drop(own);
		match r {
			Ok(Poll::Pending) => self.tasks[t].0 = Some(task),
			Ok(Poll::Ready(())) => {
				if t == 0 {
					self.dead = true;
					std::mem::forget(task);
					let d = self.daemon;
					with(|w| {
						w.violate("C12", "returned", "the server's task ended".into());
						if d {
							w.violate("C21", "returned", "the daemon's task ended".into());
						}
					})
				}
			}
			Err(_) => {
				std::mem::forget(task);
				let m = last_panic();
				if m.contains("/verif/sim/") || m.contains("simcore/src") {
					self.stop = Some(format!("harness panic: {m}"));
				}
				// A panicking task takes the whole process with it.
				self.dead = true;
				let d = self.daemon;
				with(|w| {
					w.violate("C12", "panic", format!("the server panicked: {m}"));
					if d {
						w.violate("C21", "panic", format!("the daemon panicked: {m}"));
					}
				});
			}
		}
		self.adopt();
		let p = with(|w| w.progress);
		if p == self.last_progress {
			self.spin += 1;
		} else {
			self.spin = 0;
			self.last_progress = p;
		}
	}

	fn pump(&mut self) {
		loop {
			if self.stop.is_some() {
				return;
			}
			let woken: Vec<usize> = (0..self.tasks.len())
				.filter(|t| self.tasks[*t].1 .0.load(SeqCst) && self.tasks[*t].0.is_some())
				.collect();
			let lag = self.lag;
			let late = lag > 0 && !woken.is_empty() && with(|w| !w.no_faults && !w.idle() && w.ch.chance(ST_SCHED, lag, 8));
			if !woken.is_empty() && !late && !self.dead {
				let i = if woken.len() > 1 { with(|w| w.ch.choose(ST_SCHED, woken.len() as u32)) } else { 0 };
				self.poll(woken[i as usize]);
				if self.spin > 3000 {
					self.stop = Some(String::new());
					with(|w| w.violate("C13", "spin", "the server keeps running without any I/O progress".into()));
				}
				continue;
			}
			let Some(e) = with(|w| w.pop()) else {
				// Looking for the next event may itself have woken somebody.
				let woken = self.tasks.iter().any(|t| t.1 .0.load(SeqCst) && t.0.is_some());
				if (woken || !with(|w| w.idle())) && !self.dead {
					continue;
				}
				return;
			};
			self.spin = 0;
			self.pops += 1;
			if self.pops > EVENT_CAP {
				self.stop = Some(format!("more than {EVENT_CAP} events"));
				return;
			}
			self.handle(e);
			let spur = self.spur;
			if spur > 0 && with(|w| !w.no_faults && w.ch.chance(ST_SCHED, spur, 64)) {
				with(|w| w.fault("spurious_poll"));
				self.poll(0);
			}
		}
	}

	fn handle(&mut self, e: Ev) {
		let cl = &mut self.clients;
		with(|w| match e {
			Ev::Accept(i) => {
				if let Kind::Replay(j) = cl[i].kind {
					let (a, b, c, d) = (cl[j].ident.clone(), cl[j].kexinit.clone(), cl[j].secret, cl[j].pubkey.clone());
					let r = &mut cl[i];
					(r.ident, r.kexinit, r.secret, r.pubkey) = (a, b, c, d);
				}
				cl[i].started = true;
				w.accept_q.push_back(Some(i));
				w.conns[i].came = w.now;
				w.wakes.extend(w.accept_waker.take());
				w.ev("connect", i as u64, 0);
				cl[i].kick(w);
			}
			Ev::AcceptError => {
				w.accept_q.push_back(None);
				w.wakes.extend(w.accept_waker.take());
				w.fault("accept_error");
			}
			Ev::C2S(c) => w.c2s_arrive(c),
			Ev::S2C(c) => {
				if let Some(v) = w.s2c_arrive(c) {
					cl[c].rx(w, v);
				}
			}
			Ev::Client(c) => cl[c].step(w),
			Ev::Timer(c, f) => {
				cl[c].fibers[f].sleeping = false;
				cl[c].kick(w);
			}
			Ev::Proc(k) => w.proc_step(k),
			Ev::Delay(d) => w.delay_fire(d),
			Ev::Cut(c, rst) => {
				if cl[c].started && !cl[c].fin {
					w.fault(if rst { "cut_rst" } else { "cut_fin" });
					cl[c].finish(w, rst);
				}
			}
			Ev::WriteFail(c) => {
				if cl[c].started && !cl[c].fin && !w.no_faults {
					cl[c].cause(w);
					w.conns[c].wr_fails = true;
					w.wakes.extend(w.conns[c].wr_waker.take());
				}
			}
			Ev::Pause(x) => {
				if !w.no_faults {
					let k = &mut w.conns[x / 2];
					if x & 1 == 0 {
						k.s2c_paused = true;
						w.fault("pause_to_client");
					} else {
						k.c2s_paused = true;
						w.fault("pause_to_server");
					}
				}
			}
			Ev::Resume(x) => {
				if x & 1 == 0 {
					w.conns[x / 2].s2c_paused = false;
					w.s2c_kick(x / 2);
				} else {
					w.c2s_resume(x / 2);
				}
			}
		})
	}

	/// At rest another look at everything must find nothing to do.
	fn lost_wakeup(&mut self) {
		if self.dead || self.stop.is_some() {
			return;
		}
		let before = with(|w| {
			w.quiet = true;
			w.progress
		});
		for t in 0..self.tasks.len() {
			self.poll(t);
		}
		with(|w| {
			w.quiet = false;
			if w.progress != before {
				w.violate("C13", "lost-wakeup", "the server made progress only when polled without being woken".into());
			}
		});
	}

	fn obligations(&mut self, faulty: bool) {
		let cl = &mut self.clients;
		with(|w| {
			for c in cl.iter_mut() {
				c.obligations(w, faulty);
			}
		});
	}

	fn histories(&mut self, settled: bool) {
		let cl = &mut self.clients;
		with(|w| {
			let mut by: Vec<Vec<Hist>> = vec![Vec::new(); cl.len()];
			for h in w.hist.clone() {
				let (u, s) = match &h {
					Hist::Exists { user, service, .. } | Hist::Auth { user, service, .. } => (user, service),
				};
				match owner_of(u).or(owner_of(s)) {
					Some(o) if o < by.len() => by[o].push(h),
					_ if !w.sh.wild.is_empty() => {}
					o => w.violate("C07", "nobody", format!("handler called with {h:?}, which {o:?} did not send")),
				}
			}
			for (i, c) in cl.iter_mut().enumerate() {
				c.history(w);
				if let (Kind::Replay(j), false) = (c.kind, by[i].is_empty()) {
					w.violate("C04", "replay-consulted", format!("handler called for a replay of {j}"));
				}
				if c.kind == Kind::BadKey && !by[i].is_empty() {
					w.violate("C03", "consulted", format!("handler called for connection {i} with an unusable key"));
				}
				if c.kind == Kind::BadAlgo && !by[i].is_empty() {
					w.violate("C05", "consulted", format!("handler called for connection {i} without common algorithms"));
				}
				c.handler_history(w, &by[i], settled);
			}
			for o in w.sh.wild_ran.clone() {
				if !cl[o].accept_sent {
					for p in ["C06", "C20"] {
						w.violate(p, "unauthenticated", format!("connection {o} ran a command without authentication"));
					}
				}
			}
		});
	}

	/// Connections that have ended hold nothing any more.
	fn releases(&mut self) {
		let cl = &mut self.clients;
		if self.dead {
			return;
		}
		with(|w| {
			for c in cl.iter() {
				let i = c.idx;
				let k = &w.conns[i];
				let over = (k.c2s_end.is_some() || (c.mute_after.is_none() && c.disconnected.map_or(false, |n| n < c.intact())) || k.wr_failed || k.told_client_end || k.wr_dropped || k.rd_dropped)
					&& k.saw_all()
					&& !k.stalled
					&& k.accepted;
				if !over {
					continue;
				}
				if !k.released() {
					let m = format!(
						"connection {i} ({:?}) has ended but its transport is still held (read {}, write {})",
						c.kind, !k.rd_dropped, !k.wr_dropped
					);
					w.violate("C14", "transport-held", m);
				}
				for (n, p) in w.procs.iter().enumerate() {
					if p.owner != Some(i) {
						continue;
					}
					let held = if !p.in_dropped {
						"stdin"
					} else if !p.out.dropped {
						"stdout"
					} else if !p.err.dropped {
						"stderr"
					} else if !p.wait_dropped && !p.wait_taken {
						"wait"
					} else {
						continue;
					};
					let m = format!("connection {i} has ended but {held} of its process {n} is still held");
					w.violate("C14", "pipe-held", m);
					break;
				}
			}
		});
	}
}

fn setup_conn(w: &mut World, sc: &Scenario, c: &mut Client, sw: u32) {
	let i = c.idx;
	let st = ST_CFG;
	let on = |b: u32| sw >> b & 1 != 0;
	w.conns[i].lat = if on(0) { [0, 10, 1000, 50_000][w.ch.choose(st, 4) as usize] } else { 0 };
	if on(1) {
		let m = chunk_mode(w, st);
		w.conns[i].rd_chunk = Some(m);
	}
	if on(2) {
		let m = chunk_mode(w, st);
		w.conns[i].wr_chunk = Some(m);
	}
	if on(3) {
		w.conns[i].spurious = [0, 1, 8, 24][w.ch.choose(st, 4) as usize];
	}
	if on(4) {
		w.conns[i].s2c_cap = match w.ch.choose(st, 4) {
			0 => 1 << 16,
			1 => 1 + w.ch.choose(st, 64) as usize,
			2 => 1 + w.ch.choose(st, 2000) as usize,
			_ => 40_000,
		};
	}
	if on(5) && w.ch.chance(st, sc.pauses, 8) {
		for _ in 0..1 + w.ch.choose(st, 3) {
			let x = i * 2 + w.ch.choose(st, 2) as usize;
			let t = w.ch.choose(st, 60_000) as u64 / (1 + 30 * w.ch.choose(st, 2) as u64);
			w.at(t, Ev::Pause(x));
			if w.ch.chance(st, 2, 3) {
				let d = 1 + w.ch.choose(st, 200_000) as u64;
				w.at(t + d, Ev::Resume(x));
			}
		}
	}
	if on(6) && w.ch.chance(st, sc.cuts, 8) {
		let rst = w.ch.chance(st, 1, 2);
		match w.ch.choose(st, 4) {
			3 => {
				let t = w.ch.choose(st, 100_000) as u64 / (1 + 30 * w.ch.choose(st, 2) as u64);
				w.at(t, Ev::WriteFail(i));
			}
			0 => {
				let n = w.ch.choose(st, 4000) as u64;
				c.cut_after = Some((n, rst));
			}
			1 => {
				let n = w.ch.choose(st, 60) as u64;
				c.cut_after = Some((1500 + n * n * 10, rst));
			}
			_ => {
				let t = w.ch.choose(st, 100_000) as u64 / (1 + 30 * w.ch.choose(st, 2) as u64);
				w.at(t, Ev::Cut(i, rst));
			}
		}
	}
}

pub fn run(prop: &'static str, seed: u64, replay: Option<Streams>, trace: bool, sys: fn() -> Task) -> Outcome {
	let sc = scenario(prop);
	let mut w = World::new(seed, Choices::new(seed, replay), trace);
	getrandom::sim_seed(seed);
	w.sh.daemon = sc.daemon;
	let st = ST_CFG;
	for _ in 0..w.ch.choose(ST_SELECT, 64) {
		futures_util::__private::async_await::shuffle(&mut [0, 1]);
	}
	// swarm: each kind of fault is on in about half of the runs
	let calm = w.ch.chance(st, 1, 8);
	let sw = if calm { 0 } else { w.ch.choose(st, 1 << 12) };
	let on = |b: u32| sw >> b & 1 != 0;
	if on(7) {
		w.handler_delay = [0, 100, 5000, 100_000][w.ch.choose(st, 4) as usize];
	}
	if on(8) {
		w.pipe_caps = 1;
	}
	w.tie = on(9);
	let lag = if on(10) { w.ch.choose(st, 7) } else { 0 };
	let spur = if on(11) { [0, 1, 8][w.ch.choose(st, 3) as usize] } else { 0 };
	if sc.prof.stalls && on(5) {
		w.stall_handlers = w.ch.choose(st, 3);
	}
	let mut prof = sc.prof.clone();
	prof.proc_faults &= on(6);
	prof.stalls &= on(5);
	prof.daemon = sc.daemon;
	let mut n = w.ch.range(st, sc.clients.0, sc.clients.1);
	if w.ch.chance(st, 1, 64) {
		// much more of something than usual
		let few = Prof { in_max: prof.in_max.min(100), out_max: prof.out_max.min(100), big: 0, ..prof.clone() };
		prof = match w.ch.choose(st, 5) {
			0 => Prof { tries: 80, ..few },
			1 => Prof { fibers: 150, chans: 2, ops: 2, ..few },
			2 => Prof { chans: 150, fibers: 2, ops: 2, ..few },
			3 => Prof { ops: 200, ..few },
			_ => {
				n = w.ch.range(st, 10, 60);
				Prof { fibers: 1, chans: 1, tries: prof.tries.min(1), ..few }
			}
		};
		w.probe("marathon");
	}
	let churn = w.ch.chance(st, sc.churn, 256);
	if churn {
		n = 1;
		prof = Prof { churn: true, tries: 0, ..prof };
		w.roomy = true;
		w.probe("churn");
	}
	let weights: Vec<u32> = sc.kinds.iter().map(|k| k.1).collect();
	let mut clients: Vec<Client> = Vec::new();
	let mut late = Vec::new();
	for i in 0..n as usize {
		let mut kind = if churn { Kind::Normal } else { sc.kinds[w.ch.weighted(st, &weights)].0 };
		if let Kind::Replay(_) = kind {
			let c: Vec<usize> = clients
				.iter()
				.filter(|c| !matches!(c.kind, Kind::Replay(_) | Kind::BadAlgo | Kind::BadKey))
				.map(|c| c.idx)
				.collect();
			kind = if c.is_empty() {
				Kind::Normal
			} else {
				Kind::Replay(c[w.ch.choose(st, c.len() as u32) as usize])
			};
		}
		w.new_conn();
		let mut c = Client::new(&mut w, i, kind, &prof);
		setup_conn(&mut w, &sc, &mut c, sw);
		if let Kind::Replay(_) = kind {
			c.cut_after = None;
			late.push(i);
		} else {
			let t = match w.ch.choose(st, 3) {
				0 => 0,
				1 => w.ch.choose(st, 200) as u64,
				_ => w.ch.choose(st, 100_000) as u64,
			};
			w.at(t, Ev::Accept(i));
		}
		clients.push(c);
	}
	if w.ch.chance(st, sc.crowd, 256) {
		// many clients that come and then say no more
		let same = w.ch.chance(st, 1, 2).then(|| w.ch.choose(st, 2400) as u64);
		for i in n as usize..(n + w.ch.range(st, 5, 140)) as usize {
			w.new_conn();
			let mut c = Client::new(&mut w, i, Kind::KexOnly, &prof);
			c.mute_after = Some(same.unwrap_or_else(|| w.ch.choose(st, 2400) as u64));
			let t = w.ch.choose(st, 20_000) as u64;
			w.at(t, Ev::Accept(i));
			clients.push(c);
		}
		w.probe("crowd");
	}
	if w.ch.chance(st, sc.many, 256) {
		// keys that are chosen from too few are bound to meet again
		for i in n as usize..(n + w.ch.range(st, 40, 180)) as usize {
			w.new_conn();
			clients.push(Client::new(&mut w, i, Kind::KexOnly, &prof));
			let t = w.ch.choose(st, 20_000) as u64;
			w.at(t, Ev::Accept(i));
		}
		w.probe("many_exchanges");
	}
	if sc.accept_errors && on(6) {
		for _ in 0..1 + w.ch.choose(st, 4) {
			let t = w.ch.choose(st, 100_000) as u64;
			for _ in 0..1 + w.ch.choose(st, 3) {
				w.at(t, Ev::AcceptError);
			}
		}
	}
	let sample = format!(
		"seed {seed:#x}: clients {:?}, fault classes {sw:#014b}, lag {lag}",
		clients.iter().map(|c| c.kind).collect::<Vec<_>>()
	);
	install(w);
	let start = heap::live();
	let mut s = Sim {
		tasks: vec![(Some(sys()), Arc::new(Flag(AtomicBool::new(true))))],
		clients,
		daemon: sc.daemon,
		lag,
		spur,
		dead: false,
		spin: 0,
		last_progress: 0,
		pops: 0,
		stop: None,
	};
	s.pump();
	if !late.is_empty() {
		for i in late {
			with(|w| w.after(0, Ev::Accept(i)));
			s.pump();
		}
	}
	let conclusive = |s: &Sim| s.stop.is_none();
	let faulty = sw != 0 || with(|w| !w.faults.is_empty());
	if conclusive(&s) {
		s.lost_wakeup();
		s.obligations(faulty);
		with(|w| w.heal());
		for c in &mut s.clients {
			with(|w| c.heal(w));
		}
		s.pump();
	}
	if conclusive(&s) {
		s.lost_wakeup();
		s.obligations(faulty);
		s.releases();
	}
	s.histories(conclusive(&s));
	// A new client is served.
	if conclusive(&s) && with(|w| w.ch.chance(st, sc.probe, 4)) {
		let i = with(|w| {
			let i = w.new_conn();
			w.after(0, Ev::Accept(i));
			i
		});
		let c = with(|w| Client::new(w, i, Kind::Probe, &prof));
		s.clients.push(c);
		s.pump();
		let c = &mut s.clients[i];
		let ok = c.chans.get(0).map_or(false, |c| c.close_rcvd && c.status == Some(7));
		if s.stop.is_none() {
			with(|w| {
				w.probe("probe_client");
				if !ok {
					let m = format!("a new client was not served (got to {:?}, authenticated {})", c.rx, c.authed);
					for p in ["C12", "C13", "C21"] {
						w.violate(p, "probe", m.clone());
					}
				}
				c.obligations(w, true);
			});
		}
	}
	// Everyone leaves.
	if conclusive(&s) {
		for c in &mut s.clients {
			with(|w| {
				let rst = w.ch.chance(st, 1, 3);
				if c.started && !c.fin {
					c.finish(w, rst);
				}
			});
		}
		s.pump();
		s.releases();
		s.histories(false);
		let kept = heap::live() - start;
		with(|w| {
			if kept > KEPT_MAX && s.stop.is_none() && !s.dead {
				let m = format!("{kept} bytes still allocated by the server after all {} connections have ended", w.conns.len());
				w.violate("C14", "memory-held", m);
			}
		});
	}
	for c in &s.clients {
		let m = &c.heap_marks;
		if m.len() < 8 {
			continue;
		}
		let (a, z) = m.split_at(m.len() / 2);
		let least = |m: &[(u32, i64)]| m.iter().map(|x| x.1).min().unwrap();
		let grown = least(z) - least(a);
		if grown > GROWN_MAX {
			let m = format!(
				"connection {}: the server never had less than {grown} more bytes allocated in the second half of {} channels (one at a time) than in the first",
				c.idx, c.chan_total
			);
			with(|w| w.violate("C14", "memory-held", m));
		}
	}
	let mut stats: BTreeMap<String, u64> = BTreeMap::new();
	let mut nontrivial = false;
	for c in &s.clients {
		for (k, v) in &c.stats {
			*stats.entry(k.to_string()).or_default() += v;
		}
		*stats.entry("connections".into()).or_default() += c.started as u64;
		nontrivial |= c.kind != Kind::Probe && (c.verified || c.refused() || c.kind == Kind::Hostile);
	}
	let w = world::uninstall();
	for t in s.tasks.drain(..) {
		std::mem::forget(t.0);
	}
	let str = |m: &BTreeMap<&'static str, u64>| m.iter().map(|(k, v)| (k.to_string(), *v)).collect();
	let stop = s.stop.take();
	Outcome {
		viol: w.viol.iter().map(|v| (v.prop.to_string(), v.class.clone(), v.msg.clone())).collect(),
		faults: str(&w.faults),
		probes: str(&w.probes),
		stats,
		events: w.events,
		now: w.now,
		loghash: w.loghash,
		schedhash: w.schedhash,
		nontrivial,
		harness: stop.clone().filter(|s| s.starts_with("harness")),
		inconclusive: stop.filter(|s| !s.is_empty() && !s.starts_with("harness")),
		streams: w.ch.recorded(),
		trace: w.trace.unwrap_or_default(),
		sample,
	}
}
