//! The real scp under a simulated peer, kernel and disk.
mod host;
mod sink;
mod source;

use simcore::{
	choice::Choices,
	driver::System,
	run::{Outcome, Streams},
};

pub const ST_CONF: u32 = 1;
pub const ST_DATA: u32 = 2;
pub const ST_FAULT: u32 = 3;

/// One run in the making.
pub struct Run {
	pub prop: &'static str,
	pub seed: u64,
	pub ch: Choices,
	pub replay: Option<Streams>,
	pub o: Outcome,
	pub text: String,
	pub root: String,
	pub trace: bool,
}

impl Run {
	pub fn viol(&mut self, prop: &str, class: &str, msg: impl Into<String>) {
		let m = msg.into().replace(&self.root, "ROOT");
		self.say(format!("VIOLATED {prop} {class}: {m}"));
		self.o.viol.push((prop.into(), class.into(), m));
	}
	pub fn say(&mut self, s: impl Into<String>) {
		let s = s.into().replace(&self.root, "ROOT");
		self.text.push_str(&s);
		self.text.push('\n');
	}
	pub fn count(&mut self, k: &str, n: u64) {
		*self.o.stats.entry(k.into()).or_default() += n;
	}
	pub fn probe(&mut self, k: &str) {
		*self.o.probes.entry(k.into()).or_default() += 1;
	}
	pub fn chance(&mut self, n: u32, d: u32) -> bool {
		self.ch.chance(ST_CONF, n, d)
	}
	pub fn pick(&mut self, n: u32) -> u32 {
		self.ch.choose(ST_CONF, n)
	}
	/// A file size, often next to a buffer size. Plain choice 0.
	pub fn size(&mut self) -> usize {
		let near = [0i64, 1, 4096, 8192, 32768, 65536, 98304, 131072];
		(match self.pick(8) {
			0 => self.pick(4) as i64,
			1 | 2 => self.pick(300) as i64,
			3 => self.pick(9000) as i64,
			4 | 5 | 6 => near[self.pick(8) as usize] + self.pick(3) as i64 - 1,
			_ => self.pick(150_000) as i64,
		})
		.max(0) as usize
	}
	/// The same, and now and then megabytes.
	pub fn size_or_large(&mut self) -> usize {
		if self.chance(1, 160) {
			self.probe("megabytes");
			(1 << 20) - 1 + self.pick(3 << 20) as usize
		} else {
			self.size()
		}
	}
	/// Contents: plain patterns, zeros, protocol look-alikes.
	pub fn contents(&mut self, n: usize) -> Vec<u8> {
		let k = self.ch.choose(ST_DATA, 6);
		let salt = self.ch.choose(ST_DATA, 1 << 24);
		match k {
			0 => vec![0; n],
			1 => b"C0644 3 x\nabc\0".iter().cycle().take(n).copied().collect(),
			2 => b"\0\x01\x02\n".iter().cycle().take(n).copied().collect(),
			_ => (0..n as u32)
				.map(|i| {
					let x = (i ^ salt).wrapping_mul(0x9e3779b1).rotate_left(13).wrapping_mul(0x85ebca6b);
					(x >> 11) as u8
				})
				.collect(),
		}
	}
}

fn run(prop: &'static str, seed: u64, replay: Option<Streams>, trace: bool) -> Outcome {
	let root = match host::prepare() {
		Ok(r) => r,
		Err(e) => return Outcome { harness: Some(format!("scratch directory: {e}")), ..Default::default() },
	};
	let mut r = Run {
		prop,
		seed,
		ch: Choices::new(seed, replay.clone()),
		replay,
		o: Outcome::default(),
		text: String::new(),
		root: root.clone(),
		trace,
	};
	let source = match prop {
		"C19" => true,
		"C18" => r.chance(2, 5),
		_ => false,
	};
	let res = if source { source::run(&mut r) } else { sink::run(&mut r) };
	host::remove(&root);
	if let Err(e) = res {
		r.o.harness = Some(e);
	}
	let mut h = 0xcbf29ce484222325u64;
	let mut s = h;
	for b in r.text.bytes() {
		h = (h ^ b as u64).wrapping_mul(0x100000001b3);
		if !b.is_ascii_digit() {
			s = (s ^ b as u64).wrapping_mul(0x100000001b3);
		}
	}
	r.o.loghash = h;
	r.o.schedhash = s;
	for (k, v) in r.ch.recorded() {
		r.o.streams.insert(k, v);
	}
	r.o.sample = r.text.lines().take(3).collect::<Vec<_>>().join("; ").chars().take(400).collect();
	if trace {
		r.o.trace = r.text.lines().map(|s| s.to_string()).collect();
	}
	r.o
}

fn main() {
	host::install();
	simcore::driver::main(&System {
		name: "scp",
		props: &["C16", "C17", "C18", "C19"],
		run,
		quick: |_| 40_000,
		hang: &[],
		died: &[],
		cpu_s: 25,
		real: &["nora_scp (the whole binary, unmodified)", "the file system of a scratch directory"],
		stub: &[
			"the peer on stdin/stdout (scripted sender, model sink; for round trips the stream comes from the real sender)",
			"every read, write, open, mkdir, chdir, sendfile and close (interposed; passed on to the scratch directory)",
		],
		rule: "one run = one or two real scp processes with seeded command line, peer behaviour, stream contents and truncation, and a seeded decision (whole, short, interrupted, failing, killed) at every system call; non-trivial = a header was exchanged or refused; distinct = different sequence of system calls ignoring sizes",
	});
}
