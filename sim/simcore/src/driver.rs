//! Seeded search over runs: one forked process per run, so that nothing survives from one run
//! to the next; minimisation, replay files, evidence.
use crate::{
	choice::mix,
	run::{Outcome, Streams},
};
use std::{
	collections::{BTreeMap, BTreeSet},
	fmt::Write as _,
	fs,
	io::{Read, Write},
	os::unix::io::FromRawFd,
	path::PathBuf,
	process::exit,
	sync::atomic::{AtomicU64, Ordering::SeqCst},
	time::Instant,
};

pub type RunFn = fn(&'static str, u64, Option<Streams>, bool) -> Outcome;

pub struct System {
	pub name: &'static str,
	pub props: &'static [&'static str],
	pub run: RunFn,
	/// number of runs of a quick check
	pub quick: fn(&str) -> u64,
	/// properties broken when a run never ends, or kills the process
	pub hang: &'static [&'static str],
	pub died: &'static [&'static str],
	pub real: &'static [&'static str],
	pub stub: &'static [&'static str],
	pub rule: &'static str,
	pub cpu_s: u64,
}

// ---- child processes ---------------------------------------------------------------------

#[derive(Default)]
struct Enc(Vec<u8>);
impl Enc {
	fn u(&mut self, x: u64) {
		self.0.extend_from_slice(&x.to_le_bytes());
	}
	fn s(&mut self, s: &str) {
		self.u(s.len() as u64);
		self.0.extend_from_slice(s.as_bytes());
	}
	fn map(&mut self, m: &BTreeMap<String, u64>) {
		self.u(m.len() as u64);
		for (k, v) in m {
			self.s(k);
			self.u(*v);
		}
	}
	fn opt(&mut self, s: &Option<String>) {
		self.u(s.is_some() as u64);
		self.s(s.as_deref().unwrap_or(""));
	}
}
struct Dec<'a>(&'a [u8]);
impl<'a> Dec<'a> {
	fn u(&mut self) -> Option<u64> {
		let (a, b) = (self.0.get(..8)?, self.0.get(8..)?);
		self.0 = b;
		Some(u64::from_le_bytes(a.try_into().unwrap()))
	}
	fn s(&mut self) -> Option<String> {
		let n = self.u()? as usize;
		let a = self.0.get(..n)?;
		self.0 = &self.0[n..];
		Some(String::from_utf8_lossy(a).into_owned())
	}
	fn map(&mut self) -> Option<BTreeMap<String, u64>> {
		(0..self.u()?).map(|_| Some((self.s()?, self.u()?))).collect()
	}
	fn opt(&mut self) -> Option<Option<String>> {
		let x = self.u()? != 0;
		let s = self.s()?;
		Some(x.then(|| s))
	}
}

fn encode(o: &Outcome, full: bool) -> Vec<u8> {
	let mut e = Enc::default();
	e.u(o.viol.len() as u64);
	for (a, b, c) in &o.viol {
		e.s(a);
		e.s(b);
		e.s(c);
	}
	e.map(&o.faults);
	e.map(&o.probes);
	e.map(&o.stats);
	for x in [o.events, o.now, o.loghash, o.schedhash, o.nontrivial as u64] {
		e.u(x);
	}
	e.opt(&o.inconclusive);
	e.opt(&o.harness);
	e.s(&o.sample);
	e.u(full as u64);
	if full {
		e.u(o.streams.len() as u64);
		for (k, v) in &o.streams {
			e.u(*k as u64);
			e.u(v.len() as u64);
			for x in v {
				e.0.extend_from_slice(&x.to_le_bytes());
			}
		}
		e.u(o.trace.len() as u64);
		for t in &o.trace {
			e.s(t);
		}
	}
	e.0
}

fn decode(b: &[u8]) -> Option<Outcome> {
	let mut d = Dec(b);
	let mut o = Outcome::default();
	for _ in 0..d.u()? {
		o.viol.push((d.s()?, d.s()?, d.s()?));
	}
	o.faults = d.map()?;
	o.probes = d.map()?;
	o.stats = d.map()?;
	o.events = d.u()?;
	o.now = d.u()?;
	o.loghash = d.u()?;
	o.schedhash = d.u()?;
	o.nontrivial = d.u()? != 0;
	o.inconclusive = d.opt()?;
	o.harness = d.opt()?;
	o.sample = d.s()?;
	if d.u()? != 0 {
		for _ in 0..d.u()? {
			let k = d.u()? as u32;
			let n = d.u()? as usize;
			let a = d.0.get(..4 * n)?;
			d.0 = &d.0[4 * n..];
			o.streams.insert(k, a.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect());
		}
		for _ in 0..d.u()? {
			o.trace.push(d.s()?);
		}
	}
	Some(o)
}

/// Run once in a process of its own.
fn forked(sys: &System, prop: &'static str, seed: u64, replay: Option<Streams>, trace: bool, full: bool) -> Outcome {
	unsafe {
		let mut p = [0; 2];
		if libc::pipe(p.as_mut_ptr()) != 0 {
			eprintln!("pipe failed");
			exit(2);
		}
		let pid = libc::fork();
		if pid < 0 {
			eprintln!("fork failed");
			exit(2);
		}
		if pid == 0 {
			libc::close(p[0]);
			let lim = libc::rlimit { rlim_cur: sys.cpu_s, rlim_max: sys.cpu_s + 5 };
			libc::setrlimit(libc::RLIMIT_CPU, &lim);
			let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
			libc::setrlimit(libc::RLIMIT_AS, &lim);
			let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
			libc::setrlimit(libc::RLIMIT_CORE, &lim);
			// what the system under test prints is nobody's business
			let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
			libc::dup2(null, 1);
			libc::dup2(null, 2);
			crate::run::set_panic_hook();
			let f = sys.run;
			let o = std::panic::catch_unwind(move || f(prop, seed, replay, trace)).unwrap_or_else(|_| Outcome {
				harness: Some(format!("harness panic: {}", crate::run::last_panic())),
				..Default::default()
			});
			let v = encode(&o, full);
			let mut f = fs::File::from_raw_fd(p[1]);
			let _ = f.write_all(&v);
			libc::_exit(0);
		}
		libc::close(p[1]);
		let mut f = fs::File::from_raw_fd(p[0]);
		let mut v = Vec::new();
		let _ = f.read_to_end(&mut v);
		let mut status = 0;
		while libc::waitpid(pid, &mut status, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
		if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 {
			if let Some(o) = decode(&v) {
				return o;
			}
		}
		let mut o = Outcome::default();
		if libc::WIFSIGNALED(status) {
			let sig = libc::WTERMSIG(status);
			if sig == libc::SIGXCPU || sig == libc::SIGKILL {
				for p in sys.hang {
					o.viol.push((p.to_string(), "hang".into(), format!("no end of the run after {} s of CPU time", sys.cpu_s)));
				}
			} else {
				for p in sys.died {
					o.viol.push((p.to_string(), "died".into(), format!("the process was killed by signal {sig}")));
				}
			}
		} else {
			o.harness = Some(format!("a run ended with wait status {status:#x}"));
		}
		o
	}
}

// ---- search ------------------------------------------------------------------------------

#[derive(Default)]
struct Sum {
	runs: u64,
	nontrivial: u64,
	inconclusive: u64,
	events: u64,
	sim_us: u64,
	faults: BTreeMap<String, u64>,
	fault_runs: BTreeMap<String, u64>,
	probes: BTreeMap<String, u64>,
	stats: BTreeMap<String, u64>,
	scheds: BTreeSet<u64>,
	samples: Vec<String>,
	harness: Option<String>,
	known: BTreeMap<String, u64>,
	others: BTreeMap<String, u64>,
	viol: Option<(u64, String, String)>,
	diverged: u64,
	rechecked: u64,
}

fn add(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) {
	for (k, v) in b {
		*a.entry(k.clone()).or_default() += v;
	}
}

impl Sum {
	fn take(&mut self, o: &Outcome) {
		self.runs += 1;
		self.nontrivial += o.nontrivial as u64;
		self.inconclusive += o.inconclusive.is_some() as u64;
		self.events += o.events;
		self.sim_us += o.now;
		add(&mut self.faults, &o.faults);
		add(&mut self.fault_runs, &o.faults.keys().map(|k| (k.clone(), 1)).collect());
		add(&mut self.probes, &o.probes);
		add(&mut self.stats, &o.stats);
		if o.nontrivial {
			self.scheds.insert(o.schedhash);
		}
		if self.samples.len() < 3 && o.nontrivial {
			self.samples.push(o.sample.clone());
		}
		if self.harness.is_none() {
			self.harness = o.harness.clone();
		}
	}
	fn enc(&self) -> Vec<u8> {
		let mut e = Enc::default();
		for x in [
			self.runs, self.nontrivial, self.inconclusive, self.events, self.sim_us, self.diverged, self.rechecked,
		] {
			e.u(x);
		}
		for m in [&self.faults, &self.fault_runs, &self.probes, &self.stats, &self.known, &self.others] {
			e.map(m);
		}
		e.u(self.scheds.len() as u64);
		for x in &self.scheds {
			e.u(*x);
		}
		e.u(self.samples.len() as u64);
		for s in &self.samples {
			e.s(s);
		}
		e.opt(&self.harness);
		e.u(self.viol.is_some() as u64);
		if let Some((i, c, m)) = &self.viol {
			e.u(*i);
			e.s(c);
			e.s(m);
		}
		e.0
	}
	fn merge(&mut self, b: &[u8]) -> Option<()> {
		let mut d = Dec(b);
		for x in [
			&mut self.runs, &mut self.nontrivial, &mut self.inconclusive, &mut self.events, &mut self.sim_us,
			&mut self.diverged, &mut self.rechecked,
		] {
			*x += d.u()?;
		}
		for m in [
			&mut self.faults, &mut self.fault_runs, &mut self.probes, &mut self.stats, &mut self.known, &mut self.others,
		] {
			add(m, &d.map()?);
		}
		for _ in 0..d.u()? {
			self.scheds.insert(d.u()?);
		}
		for _ in 0..d.u()? {
			let s = d.s()?;
			if self.samples.len() < 3 {
				self.samples.push(s);
			}
		}
		let h = d.opt()?;
		if self.harness.is_none() {
			self.harness = h;
		}
		if d.u()? != 0 {
			let v = (d.u()?, d.s()?, d.s()?);
			if self.viol.as_ref().map_or(true, |x| v.0 < x.0) {
				self.viol = Some(v);
			}
		}
		Some(())
	}
}

fn root() -> PathBuf {
	if let Some(d) = std::env::var_os("SIM_ROOT") {
		return d.into();
	}
	PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../..")).canonicalize().unwrap()
}

/// Lines `finding: property=<id> class=<class> match=<text>` of the known-findings file.
struct Finding {
	class: String,
	text: String,
	line: String,
}

fn findings(prop: &str) -> Vec<Finding> {
	let Ok(s) = fs::read_to_string(root().join("known_findings.txt")) else { return Vec::new() };
	s.lines()
		.filter_map(|l| {
			let r = l.strip_prefix("finding: property=")?.strip_prefix(prop)?.strip_prefix(" class=")?;
			let (class, r) = r.split_once(" match=")?;
			let (text, line) = r.split_once(" :: ")?;
			Some(Finding { class: class.into(), text: text.into(), line: line.into() })
		})
		.collect()
}

fn known<'a>(f: &'a [Finding], class: &str, msg: &str) -> Option<&'a Finding> {
	f.iter().find(|f| f.class == class && msg.contains(&f.text))
}

pub fn seed_of(base: u64, prop: &str, idx: u64) -> u64 {
	let mut h = 0xcbf29ce484222325u64;
	for c in prop.bytes() {
		h = (h ^ c as u64).wrapping_mul(0x100000001b3);
	}
	mix(mix(base, h), idx)
}

fn search(sys: &System, prop: &'static str, base: u64, runs: u64, recheck: u64, wall: f64, workers: u64) -> Sum {
	let t0 = Instant::now();
	let known_list = findings(prop);
	let min = unsafe {
		let p = libc::mmap(
			std::ptr::null_mut(),
			4096,
			libc::PROT_READ | libc::PROT_WRITE,
			libc::MAP_SHARED | libc::MAP_ANONYMOUS,
			-1,
			0,
		);
		assert!(p != libc::MAP_FAILED);
		&*(p as *const AtomicU64)
	};
	min.store(u64::MAX, SeqCst);
	let mut pipes = Vec::new();
	for k in 0..workers {
		unsafe {
			let mut p = [0; 2];
			assert!(libc::pipe(p.as_mut_ptr()) == 0);
			let pid = libc::fork();
			assert!(pid >= 0);
			if pid == 0 {
				let mut sum = Sum::default();
				let mut i = k;
				while i < runs && i < min.load(SeqCst) && t0.elapsed().as_secs_f64() < wall {
					let seed = seed_of(base, prop, i);
					let o = forked(sys, prop, seed, None, false, false);
					sum.take(&o);
					if o.harness.is_some() {
						break;
					}
					if i < recheck {
						let again = forked(sys, prop, seed, None, false, false);
						sum.rechecked += 1;
						sum.diverged += (again.loghash != o.loghash) as u64;
					}
					for (p, class, msg) in &o.viol {
						if p != prop {
							*sum.others.entry(format!("{p} {class}")).or_default() += 1;
						} else if let Some(f) = known(&known_list, class, msg) {
							*sum.known.entry(f.line.clone()).or_default() += 1;
						} else if sum.viol.is_none() {
							sum.viol = Some((i, class.clone(), msg.clone()));
							min.fetch_min(i, SeqCst);
						}
					}
					if sum.viol.is_some() {
						break;
					}
					i += workers;
				}
				let mut f = fs::File::from_raw_fd(p[1]);
				let _ = f.write_all(&sum.enc());
				libc::_exit(0);
			}
			libc::close(p[1]);
			pipes.push((p[0], pid));
		}
	}
	let mut sum = Sum::default();
	for (fd, pid) in pipes {
		let mut v = Vec::new();
		let mut f = unsafe { fs::File::from_raw_fd(fd) };
		let _ = f.read_to_end(&mut v);
		let mut st = 0;
		unsafe { libc::waitpid(pid, &mut st, 0) };
		if sum.merge(&v).is_none() {
			sum.harness = Some("a worker died".into());
		}
	}
	sum
}

// ---- minimisation ------------------------------------------------------------------------

fn minimise(sys: &System, prop: &'static str, class: &str, seed: u64, start: Outcome, budget: f64) -> Outcome {
	let t0 = Instant::now();
	let mut best = start;
	let mut tries = 0;
	let mut attempt = |best: &mut Outcome, s: Streams| -> bool {
		if t0.elapsed().as_secs_f64() > budget || s == best.streams {
			return false;
		}
		tries += 1;
		let o = forked(sys, prop, seed, Some(s), false, true);
		if o.viol.iter().any(|v| v.0 == prop && v.1 == class) && !o.streams.is_empty() {
			*best = o;
			return true;
		}
		false
	};
	let size = |s: &Streams| s.values().map(|v| v.len() + v.iter().filter(|x| **x != 0).count()).sum::<usize>();
	loop {
		let before = size(&best.streams);
		// whole streams
		for id in best.streams.keys().cloned().collect::<Vec<_>>() {
			if best.streams.get(&id).map_or(true, |v| v.iter().all(|x| *x == 0)) {
				continue;
			}
			let mut s = best.streams.clone();
			s.insert(id, Vec::new());
			attempt(&mut best, s);
		}
		// tails, then blocks
		for id in best.streams.keys().cloned().collect::<Vec<_>>() {
			let mut n = best.streams.get(&id).map_or(0, |v| v.len());
			while n > 1 {
				n /= 2;
				let Some(v) = best.streams.get(&id) else { break };
				if v.len() <= n || v[n..].iter().all(|x| *x == 0) {
					continue;
				}
				let mut s = best.streams.clone();
				s.get_mut(&id).unwrap().truncate(n);
				if !attempt(&mut best, s) {
					break;
				}
			}
			for zero in [true, false] {
				let mut blk = best.streams.get(&id).map_or(0, |v| v.len()) / 2;
				while blk > 0 && t0.elapsed().as_secs_f64() <= budget {
					let mut i = 0;
					while t0.elapsed().as_secs_f64() <= budget && i < best.streams.get(&id).map_or(0, |v| v.len()) {
						let mut s = best.streams.clone();
						let v = s.get_mut(&id).unwrap();
						let j = (i + blk).min(v.len());
						if zero {
							if v[i..j].iter().all(|x| *x == 0) {
								i += blk;
								continue;
							}
							v[i..j].iter_mut().for_each(|x| *x = 0);
							attempt(&mut best, s);
							i += blk;
						} else {
							v.drain(i..j);
							if !attempt(&mut best, s) {
								i += blk;
							}
						}
					}
					blk /= 2;
				}
			}
		}
		if size(&best.streams) >= before || t0.elapsed().as_secs_f64() > budget {
			break;
		}
	}
	eprintln!("minimised in {tries} runs to {} choices", size(&best.streams));
	best
}

// ---- files -------------------------------------------------------------------------------

fn write_replay(sys: &System, prop: &str, class: &str, msg: &str, seed: u64, o: &Outcome) -> PathBuf {
	let dir = root().join("replays");
	let _ = fs::create_dir_all(&dir);
	let path = dir.join(format!("{prop}-{class}-{seed:016x}.replay"));
	let mut s = String::new();
	let _ = writeln!(s, "system: {}\nproperty: {prop}\nclass: {class}\nseed: {seed}\nmessage: {msg}", sys.name);
	let _ = writeln!(s, "log-hash: {:016x}\nevents: {}", o.loghash, o.events);
	let _ = writeln!(s, "faults: {:?}", o.faults);
	let _ = writeln!(s, "choices: {}", if o.streams.is_empty() { "seed" } else { "recorded" });
	for (k, v) in &o.streams {
		let n = v.iter().rposition(|x| *x != 0).map_or(0, |n| n + 1);
		let v: Vec<String> = v[..n].iter().map(|x| x.to_string()).collect();
		let _ = writeln!(s, "stream {k}: {}", v.join(" "));
	}
	let skip = o.trace.len().saturating_sub(3000);
	let _ = writeln!(s, "# trace ({} lines, first {skip} left out)", o.trace.len());
	for t in &o.trace[skip..] {
		let _ = writeln!(s, "# {t}");
	}
	if let Err(e) = fs::write(&path, s) {
		eprintln!("cannot write {}: {e}", path.display());
	}
	path
}

fn replay(sys: &System, file: &str) -> ! {
	let Ok(s) = fs::read_to_string(file) else {
		eprintln!("cannot read {file}");
		exit(2)
	};
	let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).unwrap_or_default();
	let prop = get("property:");
	let Some(prop) = sys.props.iter().find(|p| **p == prop) else {
		eprintln!("{} does not simulate property {prop:?}", sys.name);
		exit(2)
	};
	let seed: u64 = get("seed:").parse().unwrap_or(0);
	let mut streams = Streams::new();
	for l in s.lines() {
		if let Some((k, v)) = l.strip_prefix("stream ").and_then(|l| l.split_once(':')) {
			streams.insert(k.parse().unwrap(), v.split_whitespace().map(|x| x.parse().unwrap()).collect());
		}
	}
	let st = if get("choices:") == "seed" { None } else { Some(streams) };
	let o = forked(sys, prop, seed, st, true, true);
	for t in &o.trace {
		println!("{t}");
	}
	let class = get("class:");
	for (p, c, m) in &o.viol {
		println!("violated: {p} {c}: {m}");
	}
	println!("log-hash: {:016x} (recorded {})", o.loghash, get("log-hash:"));
	if o.viol.iter().any(|v| v.0 == *prop && v.1 == class) {
		println!("VIOLATION property={prop} replay={file}");
		exit(1);
	}
	println!("not reproduced");
	exit(0)
}

fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c if (c as u32) < 0x20 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn jmap(m: &BTreeMap<String, u64>) -> String {
	let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
	format!("{{{}}}", v.join(", "))
}

fn jlist(v: &[&str]) -> String {
	format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

fn evidence(sys: &System, prop: &str, tier: &str, seed: u64, s: &Sum, wall: f64, viol: u64) {
	let dir = root().join("evidence");
	let _ = fs::create_dir_all(&dir);
	let samples: Vec<&str> = s.samples.iter().map(|s| s.as_str()).collect();
	let perh = if wall > 0.0 { s.runs as f64 * 3600.0 / wall } else { 0.0 };
	let j = format!(
		"{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"wall_s\": {wall:.2}, \"violations\": {viol},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"simulated_runs\": {}, \"seeds\": {}, \"runs_per_hour\": {perh:.0}, \"simulated_seconds\": {:.3},\n  \"simulator_events\": {}, \"inconclusive_runs\": {},\n  \"fault_injections\": {},\n  \"runs_with_fault\": {},\n  \"rare_conditions_hit\": {},\n  \"workload\": {},\n  \"interleaving_measure\": \"hash of the order and identity of simulator steps of a run, ignoring sizes and times\",\n  \"determinism\": {{\"runs_repeated\": {}, \"diverged\": {}}},\n  \"violations_of_other_properties_seen\": {},\n  \"components_real\": {}, \"components_stub\": {}\n }},\n \"assumptions\": [\"a clean batch is evidence, not proof: schedules, faults and inputs are sampled\", \"one operating-system process per run; single-threaded executor\"]\n}}\n",
		js(prop),
		js(tier),
		s.runs,
		s.scheds.len(),
		js(sys.rule),
		jlist(&samples),
		s.runs,
		s.runs,
		s.sim_us as f64 / 1e6,
		s.events,
		s.inconclusive,
		jmap(&s.faults),
		jmap(&s.fault_runs),
		jmap(&s.probes),
		jmap(&s.stats),
		s.rechecked,
		s.diverged,
		jmap(&s.others),
		jlist(sys.real),
		jlist(sys.stub),
	);
	if let Err(e) = fs::write(dir.join(format!("{prop}.json")), j) {
		eprintln!("cannot write evidence: {e}");
		exit(2);
	}
}

pub fn main(sys: &System) -> ! {
	let a: Vec<String> = std::env::args().collect();
	let env = |k: &str| std::env::var(k).ok();
	let base: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
	let tier = if env("VERIF_TIER").as_deref() == Some("thorough") { "thorough" } else { "quick" };
	let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|s| s.parse::<f64>().ok());
	let prop = |s: &str| -> &'static str {
		match sys.props.iter().find(|p| **p == s) {
			Some(p) => p,
			None => {
				eprintln!("{} does not simulate {s}", sys.name);
				exit(2)
			}
		}
	};
	let workers = opt("--workers").map_or(8, |x| x as u64);
	match (a.get(1).map(|s| s.as_str()), a.get(2)) {
		(Some("check"), Some(p)) => {
			let prop = prop(p);
			let quick = (sys.quick)(prop);
			let runs = opt("--runs").map_or(if tier == "quick" { quick } else { quick * 40 }, |x| x as u64);
			let wall = opt("--wall").unwrap_or(if tier == "quick" { 75.0 } else { 3600.0 });
			let t0 = Instant::now();
			println!("{} {prop} tier={tier} VERIF_SEED={base} runs={runs}", sys.name);
			let s = search(sys, prop, base, runs, if tier == "quick" { 24 } else { 400 }, wall, workers);
			let el = t0.elapsed().as_secs_f64();
			evidence(sys, prop, tier, base, &s, el, s.viol.is_some() as u64);
			println!(
				"{} runs, {} distinct, {} inconclusive, {:.1} simulated s, {:.1} s; faults {:?}",
				s.runs,
				s.scheds.len(),
				s.inconclusive,
				s.sim_us as f64 / 1e6,
				el,
				s.faults
			);
			for (l, n) in &s.known {
				println!("KNOWN-FINDING: property={prop} {l} ({n} runs)");
			}
			if !s.others.is_empty() {
				println!("(seen of other properties, not judged here: {:?})", s.others);
			}
			if s.diverged > 0 {
				println!("WARNING: {} of {} repeated runs diverged", s.diverged, s.rechecked);
			}
			if let Some((i, class, msg)) = s.viol {
				let seed = seed_of(base, prop, i);
				println!("run {i} (seed {seed}): {prop} {class}: {msg}");
				let o = forked(sys, prop, seed, None, false, true);
				let mut best = o.clone();
				if !o.streams.is_empty() && o.viol.iter().any(|v| v.0 == prop && v.1 == class) {
					best = minimise(sys, prop, &class, seed, o, opt("--shrink").unwrap_or(20.0));
				}
				let st = if best.streams.is_empty() { None } else { Some(best.streams.clone()) };
				let traced = forked(sys, prop, seed, st, true, true);
				let last = if traced.streams.is_empty() { best } else { traced };
				let m = last
					.viol
					.iter()
					.find(|v| v.0 == prop && v.1 == class)
					.map_or(msg.clone(), |v| v.2.clone());
				println!("minimised: {m}");
				let f = write_replay(sys, prop, &class, &m, seed, &last);
				println!("VIOLATION property={prop} replay={}", f.display());
				exit(1);
			}
			if let Some(h) = s.harness {
				println!("HARNESS ERROR: {h}");
				exit(2);
			}
			exit(0)
		}
		(Some("replay"), Some(f)) => replay(sys, f),
		(Some("one"), Some(p)) => {
			let prop = prop(p);
			let i = opt("--index").map_or(0, |x| x as u64);
			let seed = a
				.iter()
				.position(|x| x == "--seed")
				.and_then(|i| a.get(i + 1))
				.and_then(|s| s.parse().ok())
				.unwrap_or_else(|| seed_of(base, prop, i));
			let o = forked(sys, prop, seed, None, a.iter().any(|x| x == "--trace"), true);
			for t in &o.trace {
				println!("{t}");
			}
			println!("{}\nfaults {:?}\nprobes {:?}\nstats {:?}", o.sample, o.faults, o.probes, o.stats);
			println!("events {} time {} us hash {:016x}", o.events, o.now, o.loghash);
			println!("inconclusive {:?} harness {:?}", o.inconclusive, o.harness);
			for v in &o.viol {
				println!("violated: {} {}: {}", v.0, v.1, v.2);
			}
			exit(0)
		}
		(Some("hashes"), Some(p)) => {
			// the event-log hashes of the first runs, for comparing executions
			let prop = prop(p);
			for i in 0..opt("--runs").map_or(100, |x| x as u64) {
				let o = forked(sys, prop, seed_of(base, prop, i), None, false, false);
				println!("{i} {:016x} {:016x} {}", o.loghash, o.schedhash, o.events);
			}
			exit(0)
		}
		_ => {
			eprintln!("usage: {} check PROPERTY | replay FILE | one PROPERTY [--index N] [--trace] | hashes PROPERTY", a[0]);
			exit(2)
		}
	}
}
