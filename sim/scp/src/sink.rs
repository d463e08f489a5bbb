//! Receiving: a scripted, possibly hostile or failing sender against the real sink.
use crate::{
	host::{self, show, Plan, Ran, Seg},
	Run,
};
use std::{
	collections::{BTreeMap, BTreeSet},
	fs,
};

type Tree = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

/// How the command line names where to put things; `key` is relative to the scratch root.
pub struct Dest {
	pub arg: Vec<u8>,
	pub key: Vec<u8>,
}

pub struct Target {
	pub dir: bool,
	pub dests: Vec<Dest>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tri {
	Yes,
	No,
	Either,
}

pub struct Want {
	pub key: Vec<u8>,
	pub data: Vec<u8>,
	pub complete: bool,
}

/// What a sink has to do with a stream.
pub struct Model {
	pub files: Vec<Want>,
	pub acks_min: u32,
	pub acks_max: u32,
	pub success: Tri,
	pub why: String,
}

fn parents(key: &[u8]) -> Vec<Vec<u8>> {
	(0..key.len()).filter(|i| key[*i] == b'/').map(|i| key[..i].to_vec()).collect()
}

/// May a file be made there? Records what making it adds.
fn place(fsm: &mut BTreeMap<Vec<u8>, bool>, key: &[u8]) -> bool {
	if key.split(|c| *c == b'/').any(|n| n.len() > 255) {
		return false;
	}
	for p in parents(key) {
		match fsm.get(&p) {
			Some(true) => {}
			Some(false) => return false,
			None => {
				fsm.insert(p, true);
			}
		}
	}
	match fsm.get(key) {
		Some(true) => false,
		_ => {
			fsm.insert(key.to_vec(), false);
			true
		}
	}
}

enum Head {
	Ok { size: u64, name: Vec<u8>, sure: bool },
	Bad(&'static str),
}

fn header(line: &[u8], dir: bool) -> Head {
	let mut it = line.splitn(3, |c| *c == b' ');
	let mode = it.next().unwrap_or(b"");
	let Some(size) = it.next() else { return Head::Bad("no size") };
	let Some(name) = it.next() else { return Head::Bad("no name") };
	let mut sure = true;
	if mode.is_empty() || !mode.iter().all(|c| (b'0'..=b'7').contains(c)) {
		return Head::Bad("bad mode");
	}
	if mode.len() != 4 {
		sure = false;
	}
	if size.is_empty() || !size.iter().all(|c| c.is_ascii_digit()) {
		return Head::Bad("bad size");
	}
	let Ok(n) = std::str::from_utf8(size).unwrap().parse::<u64>() else { return Head::Bad("size too large") };
	if size.len() > 1 && size[0] == b'0' {
		sure = false;
	}
	let path = matches!(name, b"" | b"." | b"..") || name.contains(&b'/') || name.contains(&0);
	if path && dir {
		return Head::Bad("not a plain file name");
	}
	if path || std::str::from_utf8(name).is_err() {
		sure = false;
	}
	Head::Ok { size: n, name: name.to_vec(), sure }
}

pub fn model(stream: &[u8], t: &Target, before: &Tree) -> Model {
	let mut m = Model { files: Vec::new(), acks_min: 0, acks_max: 0, success: Tri::No, why: String::new() };
	let mut fsm: BTreeMap<Vec<u8>, bool> = before.iter().map(|(k, v)| (k.clone(), v.is_none())).collect();
	fsm.insert(b"".to_vec(), true);
	let mut sure = true;
	if t.dir {
		let k = &t.dests[0].key;
		for p in parents(k).into_iter().chain([k.clone()]) {
			if fsm.get(&p) == Some(&false) {
				m.why = "the target cannot be a directory".into();
				return m;
			}
			fsm.insert(p, true);
		}
	}
	let ack = |m: &mut Model, sure: bool| {
		m.acks_max += 1;
		if sure {
			m.acks_min += 1;
		}
	};
	ack(&mut m, sure);
	let mut s = stream;
	let mut left = t.dests.iter();
	loop {
		let dest = if t.dir {
			if s.is_empty() {
				m.success = if sure { Tri::Yes } else { Tri::Either };
				return m;
			}
			None
		} else {
			match left.next() {
				None => {
					// what more the sender says is not wanted
					m.success = if sure && s.is_empty() { Tri::Yes } else { Tri::Either };
					return m;
				}
				Some(_) if s.is_empty() => {
					m.why = "a file is missing".into();
					return m;
				}
				d => d,
			}
		};
		if s[0] != b'C' {
			m.why = "not a file header".into();
			return m;
		}
		let Some(nl) = s.iter().position(|c| *c == b'\n') else {
			m.why = "incomplete header".into();
			return m;
		};
		let (size, name) = match header(&s[1..nl], t.dir) {
			Head::Bad(e) => {
				m.why = e.into();
				return m;
			}
			Head::Ok { size, name, sure: x } => {
				sure &= x;
				(size, name)
			}
		};
		s = &s[nl + 1..];
		let key = match dest {
			Some(d) => d.key.clone(),
			None => [&t.dests[0].key[..], b"/", &name].concat(),
		};
		if !place(&mut fsm, &key) {
			m.why = "the file cannot be made".into();
			return m;
		}
		ack(&mut m, sure);
		let n = size.min(s.len() as u64) as usize;
		m.files.push(Want { key, data: s[..n].to_vec(), complete: false });
		if (n as u64) < size {
			m.why = "contents cut short".into();
			return m;
		}
		s = &s[n..];
		match s.first() {
			Some(0) => s = &s[1..],
			Some(_) => {
				m.why = "contents not ended by zero".into();
				return m;
			}
			None => {
				m.why = "final zero missing".into();
				return m;
			}
		}
		m.files.last_mut().unwrap().complete = true;
		ack(&mut m, sure);
	}
}

/// Hold what the sink did against the model.
pub fn judge(r: &mut Run, ran: &Ran, m: &Model, t: &Target, before: &Tree, what: &str) {
	let after = host::tree(&r.root.clone());
	let acks = ran.out.iter().filter(|c| **c == 0).count() as u32;
	let hard = ran.hard();
	r.say(format!(
		"{what}: acks {acks}, model {}..{} {:?} {}; exit {}; hard fault {:?}",
		m.acks_min, m.acks_max, m.success, m.why, ran.status, hard
	));
	r.count("files_offered", m.files.len() as u64);
	r.count("files_acknowledged", (acks.max(1) as u64 - 1) / 2);
	if ran.spin {
		r.viol("C18", "spin", "scp goes on forever without progress");
		return;
	}
	// where things were written
	if let Some(e) = &ran.escape {
		r.viol("C17", "outside", format!("scp tried to change something elsewhere: {e}"));
	}
	let mut allowed: BTreeSet<Vec<u8>> = BTreeSet::new();
	let mut dirs: BTreeSet<Vec<u8>> = BTreeSet::new();
	for d in &t.dests {
		dirs.extend(parents(&d.key));
		if t.dir {
			dirs.insert(d.key.clone());
		}
	}
	for f in &m.files {
		allowed.insert(f.key.clone());
	}
	let keys: BTreeSet<&Vec<u8>> = before.keys().chain(after.keys()).collect();
	for k in keys {
		let (b, a) = (before.get(k), after.get(k));
		if b == a || allowed.contains(k) && a.map_or(true, |a| a.is_some()) {
			continue;
		}
		if a == Some(&None) && b.is_none() && dirs.contains(k) {
			continue;
		}
		let kind = match (b, a) {
			(None, Some(None)) => "made directory",
			(None, _) => "made file",
			(_, None) => "removed",
			_ => "changed",
		};
		r.viol("C17", "wrong-place", format!("scp {kind} {:?} ({what}; {})", show(k), m.why));
	}
	// acknowledged files
	let finals = if acks > 0 { (acks as usize - 1) / 2 } else { 0 };
	for (i, f) in m.files.iter().enumerate().take(finals) {
		if m.files[i + 1..].iter().any(|g| g.key == f.key) {
			r.probe("same_destination_twice");
			continue;
		}
		let got = after.get(&f.key);
		let ok = f.complete && got == Some(&Some(f.data.clone()));
		if !ok {
			let g = match got {
				Some(Some(d)) => {
					let n = d.iter().zip(&f.data).take_while(|(a, b)| a == b).count();
					format!("{} bytes, of which {n} right, instead of {}", d.len(), f.data.len())
				}
				_ => "nothing".into(),
			};
			let msg = format!("file {i} ({:?}) was acknowledged but holds {g}", show(&f.key));
			r.viol("C16", "acked-not-exact", msg.clone());
			r.viol("C18", "acked-bad-copy", msg);
		} else if before.get(&f.key).map_or(false, |b| b.as_ref().map_or(false, |b| b.len() > f.data.len())) {
			r.probe("longer_file_replaced");
		}
	}
	if acks > m.acks_max {
		r.viol(
			"C18",
			"ack-too-many",
			format!("{acks} acknowledgements where {} are due ({})", m.acks_max, m.why),
		);
	}
	if ran.killed() {
		r.probe("killed");
		return;
	}
	if hard.is_some() || m.success == Tri::No {
		if ran.status == 0 {
			let w = hard.map_or(m.why.clone(), |h| h.to_string());
			r.viol("C18", "failure-not-reported", format!("exit status 0 although: {w}"));
		}
		if hard.is_some() {
			r.probe("hard_fault_hit");
		}
	}
	if ran.status == 0 && acks < m.acks_max && hard.is_none() && m.success != Tri::No {
		r.viol("C18", "success-without-acks", format!("exit status 0 with {acks} of {} acknowledgements", m.acks_max));
	}
	if hard.is_none() {
		if acks < m.acks_min {
			r.viol("C18", "ack-missing", format!("{acks} acknowledgements where {} are due", m.acks_min));
		}
		if m.success == Tri::Yes {
			r.probe("complete_transfer");
			if ran.status != 0 {
				r.viol("C18", "fails-without-cause", format!("exit status {} although nothing failed", ran.status));
			}
		}
	}
}

const NAMES: [&str; 26] = [
	"a", "b.txt", "with space", " lead", "trail ", "tab\there", "-d", "ünï", "C0644 3 x", "old", "...", "..x", "a\\b",
	"~", "cr\r", "\r", "\x01", "end\t", "\u{a0}x\u{a0}", "\u{85}", "x  y", "\x1b[2J", "*", "\"q\"", "日本語\u{10ffff}", "x..",
];

pub fn name(r: &mut Run) -> Vec<u8> {
	match r.pick(9) {
		8 => {
			// anything a name may be made of
			let n = 1 + r.pick(20);
			let mut s = String::new();
			for _ in 0..n {
				let c = match r.pick(4) {
					0 => r.pick(32),
					1 => 32 + r.pick(96),
					2 => 128 + r.pick(2000),
					_ => b"./ \\0C:~"[r.pick(8) as usize] as u32,
				};
				s.push(match char::from_u32(c) {
					None | Some('\0' | '/' | '\n') => '_',
					Some(c) => c,
				});
			}
			if s == "." || s == ".." {
				s.push('x');
			}
			r.probe("random_name");
			s.into_bytes()
		}
		0 => b"f".to_vec(),
		1 => b"g".to_vec(),
		2 => {
			let n = [1, 100, 254, 255][r.pick(4) as usize];
			vec![b'n'; n]
		}
		_ => {
			let i = r.pick(NAMES.len() as u32) as usize;
			NAMES[i].as_bytes().to_vec()
		}
	}
}

fn bad_name(r: &mut Run) -> Vec<u8> {
	let root = r.root.clone().into_bytes();
	match r.pick(12) {
		0 => b"../by".to_vec(),
		1 => b"..".to_vec(),
		2 => b".".to_vec(),
		3 => b"".to_vec(),
		4 => [&root[..], b"/by"].concat(),
		5 => b"sub/x".to_vec(),
		6 => b"../new".to_vec(),
		7 => b"/nora_scp_sim_escape".to_vec(),
		8 => b"x/".to_vec(),
		9 => b"a\0b".to_vec(),
		10 => b"../../../../../../../../../../nora_scp_sim_escape".to_vec(),
		_ => b"./x".to_vec(),
	}
}

/// One header and what follows it: bytes, and how many of them before the sink's answer.
fn item(r: &mut Run, bad: bool, few: bool) -> (Vec<u8>, Vec<u8>) {
	let n = if few { r.size_or_large() } else { r.size() };
	let mut data = r.contents(n);
	let nm = name(r);
	let mut size = n.to_string().into_bytes();
	let mut mode = ["0644", "0600", "0755", "0000", "7777"][r.pick(5) as usize].as_bytes().to_vec();
	let mut nm = nm;
	let mut lead = b'C';
	let mut nl = true;
	let mut trailer: Vec<u8> = vec![0];
	let mut raw: Option<Vec<u8>> = None;
	if bad {
		match r.pick(15) {
			0..=3 => nm = bad_name(r),
			4 => {
				size = ["", "x", "+5", "-1", " 5", "0x10", "5.", "99999999999999999999", "18446744073709551616", "1 "]
					[r.pick(10) as usize]
					.into()
			}
			5 => size = ["18446744073709551615", "9223372036854775808", "4294967296", "1099511627776"][r.pick(4) as usize].into(),
			6 => mode = ["", "abcd", "0688", "064x", "-644", "+644"][r.pick(6) as usize].into(),
			7 => lead = [b'D', b'E', b'T', 1, 2, b'c', 0, b'\n', b' ', 0xff][r.pick(10) as usize],
			8 => nl = false,
			9 => trailer = vec![[1, 2, b'\n', b'C', 0xff, b'E'][r.pick(6) as usize]],
			10 => trailer = vec![],
			11 => {
				raw = Some(
					[&b"C\n"[..], b"C0644\n", b"C0644 5\n", b"C0644  f\n", b"C \n", b"C  \n", b"\n", b"C0644 3 \n", b"T1 0 1 0\n", b"E\n", b"D0755 0 sub\n",
						b"C0644\t3\tf\n", b"C0644 3\tf\n", b"C0644\t3 f\n", b"C0644\x0b3\x0cf g\n"]
						[r.pick(15) as usize]
						.to_vec(),
				)
			}
			12 => nm = vec![b'm'; 256 + r.pick(300) as usize],
			13 => nm = [&b"\xff\xfe"[..], b"caf\xe9", b"\xc3"][r.pick(3) as usize].to_vec(),
			_ => {
				// too little or too much data
				let d = 1 + r.pick(40) as usize;
				if r.chance(1, 2) {
					data.truncate(n.saturating_sub(d));
				} else {
					data.extend(std::iter::repeat(b'+').take(d));
				}
			}
		}
	}
	let mut h = vec![lead];
	h.extend(&mode);
	h.push(b' ');
	h.extend(&size);
	h.push(b' ');
	h.extend(&nm);
	if nl {
		h.push(b'\n');
	}
	if let Some(x) = raw {
		h = x;
	}
	data.extend(trailer);
	(h, data)
}

fn target(r: &mut Run) -> Result<Target, String> {
	let root = r.root.clone();
	let e = |e: std::io::Error| e.to_string();
	let dir = r.chance(3, 5);
	// what was there before
	for (p, d) in [("by", "bystander"), ("work/by", "bystander 2"), ("work/keep/k", "kept"), ("work/sub", "")] {
		let p = format!("{root}/{p}");
		if p.ends_with("/sub") {
			fs::create_dir_all(&p).map_err(e)?;
			continue;
		}
		fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).map_err(e)?;
		fs::write(&p, d).map_err(e)?;
	}
	let place = |r: &mut Run, i: usize| -> Dest {
		let base = if dir { format!("dst{i}") } else { format!("out{i}") };
		let (arg, key) = match r.pick(8) {
			0 | 1 => (base.clone(), format!("work/{base}")),
			2 => (format!("n/e/{base}"), format!("work/n/e/{base}")),
			3 => (format!("{root}/abs/{base}"), format!("abs/{base}")),
			4 => (format!("../up/{base}"), format!("up/{base}")),
			5 => (format!("./{base}"), format!("work/{base}")),
			6 => (format!("keep/{base}"), format!("work/keep/{base}")),
			_ if r.chance(1, 2) => ("with space/x".into(), "work/with space/x".into()),
			_ => {
				// not UTF-8, as the whole name or in a directory's
				let n = [b"\xff".to_vec(), b"caf\xe9".to_vec(), b"\xc3/x".to_vec(), b"n\xfe\xffx/y".to_vec()][r.pick(4) as usize].clone();
				return Dest { key: [b"work/", &n[..]].concat(), arg: n };
			}
		};
		Dest { arg: arg.into_bytes(), key: key.into_bytes() }
	};
	let mut dests = Vec::new();
	if dir {
		let mut d = place(r, 0);
		let full = std::path::Path::new(&root).join(host::os(&d.key));
		match r.pick(10) {
			0..=3 => {}
			9 => {
				// a file is in the way
				if r.chance(1, 2) {
					d = Dest { arg: b"by".to_vec(), key: b"work/by".to_vec() };
				} else {
					d = Dest { arg: b"by/deeper".to_vec(), key: b"work/by/deeper".to_vec() };
				}
			}
			8 => d = Dest { arg: b".".to_vec(), key: b"work".to_vec() },
			_ => {
				fs::create_dir_all(&full).map_err(e)?;
				let n = r.size();
				fs::write(full.join("old"), vec![b'o'; n]).map_err(e)?;
				fs::write(full.join("f"), vec![b'F'; 70_000]).map_err(e)?;
				fs::write(full.join("other"), b"other").map_err(e)?;
				fs::create_dir(full.join("a")).map_err(e)?;
				fs::write(full.join("a/inner"), b"inner").map_err(e)?;
			}
		}
		dests.push(d);
	} else {
		let n = if r.chance(1, 40) { 1 + r.pick(24) } else { 1 + r.pick(4) };
		for i in 0..n as usize {
			let mut d = place(r, i);
			match r.pick(12) {
				0..=6 => {}
				7 | 8 => {
					let full = std::path::Path::new(&root).join(host::os(&d.key));
					fs::create_dir_all(full.parent().unwrap()).map_err(e)?;
					let n = r.size();
					fs::write(full, vec![b'o'; n]).map_err(e)?;
				}
				9 => d = Dest { arg: b"sub".to_vec(), key: b"work/sub".to_vec() },
				10 => d = Dest { arg: b"by/x".to_vec(), key: b"work/by/x".to_vec() },
				_ => {
					if let Some(Dest { arg, key }) = dests.last() {
						d = Dest { arg: arg.clone(), key: key.clone() };
					}
				}
			}
			dests.push(d);
		}
	}
	Ok(Target { dir, dests })
}

pub fn args(t: &Target) -> Vec<Vec<u8>> {
	let mut a: Vec<Vec<u8>> = vec![b"-t".to_vec()];
	if t.dir {
		a.push(b"-d".to_vec());
	}
	a.extend(t.dests.iter().map(|d| d.arg.clone()));
	a
}

pub fn run(r: &mut Run) -> Result<(), String> {
	let t = target(r)?;
	let n = if t.dir && r.chance(1, 40) {
		r.probe("many_files");
		r.pick(60) as usize
	} else if t.dir {
		r.pick(5) as usize
	} else { t.dests.len() + r.chance(1, 8) as usize };
	let (nasty, cut, hard, kill): (u32, u32, &[usize], u32) = match r.prop {
		"C16" => (1, 2, &HARD_SINK, 3),
		"C17" => (8, 3, &HARD_SINK, 2),
		_ => (3, 4, &HARD_SINK, 1),
	};
	let mut items = Vec::new();
	let bad_at = if r.chance(nasty, 10) { r.pick(n.max(1) as u32) as usize } else { usize::MAX };
	for i in 0..n {
		let it = item(r, i == bad_at, n < 6);
		items.push(it);
	}
	// a damaged byte somewhere in a header
	if !items.is_empty() && r.chance(nasty.min(3), 24) {
		let i = r.pick(items.len() as u32) as usize;
		let h = &mut items[i].0;
		if !h.is_empty() {
			let at = r.ch.choose(crate::ST_CONF, h.len() as u32) as usize;
			h[at] ^= 1 << r.ch.choose(crate::ST_CONF, 8);
		}
	}
	// how the sender paces itself
	let gated = r.pick(3);
	let mut segs: Vec<Seg> = Vec::new();
	for (i, (h, d)) in items.into_iter().enumerate() {
		let (g1, g2) = match gated {
			0 => (true, true),
			1 => (false, false),
			_ => (r.chance(1, 2), r.chance(1, 2)),
		};
		let k = i as u32 * 2;
		segs.push(Seg { data: h, need: if g1 { 1 + k } else { 0 } });
		segs.push(Seg { data: d, need: if g2 { 2 + k } else { 0 } });
	}
	let mut plan = Plan { segs, ..Default::default() };
	let total: usize = plan.segs.iter().map(|s| s.data.len()).sum();
	if total > 0 && r.chance(cut, 10) {
		// the stream ends early, often next to a boundary
		let mut at = r.pick(total as u32) as usize;
		if r.chance(2, 3) {
			let i = r.pick(plan.segs.len() as u32) as usize;
			let edge: usize = plan.segs[..i].iter().map(|s| s.data.len()).sum();
			at = (edge + r.pick(12) as usize).saturating_sub(6).min(total);
		}
		let mut left = at;
		for s in &mut plan.segs {
			let n = s.data.len().min(left);
			s.data.truncate(n);
			left -= n;
		}
		plan.segs.retain(|s| !s.data.is_empty());
		r.probe("stream_cut");
	}
	plan.end_error = r.chance(1, 12);
	plan.prob = host::faults(r, hard);
	plan.kill_at = host::kill_at(r, kill, 12);
	let before = host::tree(&r.root.clone());
	let stream: Vec<u8> = plan.segs.iter().flat_map(|s| s.data.clone()).collect();
	for s in &plan.segs {
		r.say(format!("sender (after {} acks): {}", s.need, show(&s.data)));
	}
	let ran = host::exec(r, 0, &args(&t), &plan)?;
	let seen = if ran.deadlock { &stream[..(ran.in_read as usize).min(stream.len())] } else { &stream[..] };
	if ran.deadlock {
		r.probe("sender_gave_up_waiting");
	}
	let m = model(seen, &t, &before);
	r.o.nontrivial = !stream.is_empty();
	judge(r, &ran, &m, &t, &before, "sink");
	Ok(())
}

pub const HARD_SINK: [usize; 8] = [
	host::IN_EIO, host::OUT_EIO, host::OUT_EPIPE, host::FW_EIO, host::FW_ENOSPC, host::OPEN_FAIL, host::MKDIR_FAIL,
	host::CHDIR_FAIL,
];
