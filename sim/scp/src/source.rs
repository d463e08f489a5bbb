//! Sending: the real source against a model sink, then its stream against the real sink.
use crate::{
	host::{self, show, Plan, Seg},
	sink::{self, Dest, Target, Tri},
	Run,
};
use std::fs;

struct Src {
	arg: Vec<u8>,
	name: Vec<u8>,
	/// contents; `None`: cannot be sent
	data: Option<Vec<u8>>,
	sure: bool,
	/// what the header has to say
	size: u64,
}

const HARD: [usize; 6] =
	[host::IN_EIO, host::OUT_EIO, host::OUT_EPIPE, host::FR_EIO, host::OPEN_FAIL, host::FR_TRUNC];

fn files(r: &mut Run) -> Result<Vec<Src>, String> {
	let root = r.root.clone();
	let n = if r.chance(1, 40) { 1 + r.pick(40) } else { 1 + r.pick(4) } as usize;
	let mut v: Vec<Src> = Vec::new();
	for i in 0..n {
		let name: Vec<u8> = match r.pick(14) {
			12 | 13 => {
				let mut n = sink::name(r);
				if n == b"d" || n == b"e" {
					// directories are made by these names
					n.push(b'x');
				}
				n
			}
			0 | 1 => format!("f{i}").into(),
			2 => b"with space".to_vec(),
			3 => b" lead".to_vec(),
			4 => "ünï".as_bytes().to_vec(),
			5 => b"C0644 3 x".to_vec(),
			6 => vec![b'n'; 255],
			7 => b"tab\tand\rmore".to_vec(),
			8 => b"...".to_vec(),
			9 => b"-f".to_vec(),
			10 => b"0".to_vec(),
			_ => format!("g{}", r.pick(2)).into(),
		};
		let (arg, key): (Vec<u8>, Vec<u8>) = {
			let cat = |a: &str, b: &[u8]| [a.as_bytes(), b].concat();
			match r.pick(6) {
				0 | 1 if name[0] != b'-' => (name.clone(), cat("work/", &name)),
				2 => (cat("d/e/", &name), cat("work/d/e/", &name)),
				3 => (cat(&format!("{root}/abs/"), &name), cat("abs/", &name)),
				4 => (cat("../up/", &name), cat("up/", &name)),
				_ => (cat("./", &name), cat("work/", &name)),
			}
		};
		let full = std::path::Path::new(&root).join(host::os(&key));
		fs::create_dir_all(full.parent().unwrap()).map_err(|e| e.to_string())?;
		let odd = if r.chance(1, 12) { 1 + r.pick(5) } else { 0 };
		let size = if n < 6 { r.size_or_large() } else { r.size() };
		let data = r.contents(size);
		// a file named twice keeps its last contents
		match odd {
			1 => {
				// missing
				if !full.exists() {
					v.push(Src { arg, name, data: None, sure: true, size: 0 });
					continue;
				}
			}
			2 => {
				// not a file
				v.push(Src { arg: b"d/e".to_vec(), name: b"e".to_vec(), data: None, sure: true, size: 0 });
				let _ = fs::create_dir_all(format!("{root}/work/d/e"));
				continue;
			}
			3 => {
				// a name that cannot be put in a header
				let nm = b"new\nline".to_vec();
				fs::write(format!("{root}/work/new\nline"), &data).map_err(|e| e.to_string())?;
				v.push(Src { arg: nm.clone(), name: nm, data: None, sure: true, size: 0 });
				continue;
			}
			4 => {
				let nm = b"caf\xe9".to_vec();
				let p = std::path::Path::new(&root).join("work").join(host::os(&nm));
				fs::write(p, &data).map_err(|e| e.to_string())?;
				v.push(Src { arg: nm.clone(), name: nm, size: data.len() as u64, data: Some(data), sure: false });
				continue;
			}
			_ => {}
		}
		fs::write(&full, &data).map_err(|e| e.to_string())?;
		if odd == 5 {
			// too large for 32 bits, but only its header gets sent
			let base = [1u64 << 31, 1 << 32, 3 << 31, 5_000_000_000][r.pick(4) as usize];
			let f = fs::OpenOptions::new().write(true).open(&full).map_err(|e| e.to_string())?;
			f.set_len(base - 1 + size as u64).map_err(|e| e.to_string())?;
		}
		v.push(Src { arg, name, data: Some(data), sure: true, size: 0 });
	}
	// what is on disk now is what has to be sent
	for s in &mut v {
		if s.sure {
			let p = std::path::Path::new(&root).join("work").join(host::os(&s.arg));
			s.size = fs::metadata(&p).map_or(0, |m| m.len());
			s.data = if s.name.contains(&b'\n') || !p.is_file() {
				None
			} else if s.size >= host::HUGE {
				// a program may find this more than it can take
				s.sure = false;
				Some(Vec::new())
			} else {
				fs::read(p).ok()
			};
		}
	}
	Ok(v)
}

/// One file as it appears in a stream.
struct Sent<'a> {
	mode: &'a [u8],
	size: u64,
	name: &'a [u8],
	data: &'a [u8],
	complete: bool,
}

/// Take the stream apart without knowing what should be in it.
fn parse(mut s: &[u8]) -> Result<(Vec<Sent<'_>>, &[u8]), String> {
	let mut v = Vec::new();
	while !s.is_empty() {
		let Some(nl) = s.iter().position(|c| *c == b'\n') else { return Ok((v, s)) };
		let line = &s[..nl];
		let mut it = line.splitn(3, |c| *c == b' ');
		let (mode, size, name) = (it.next(), it.next(), it.next());
		let (Some(mode), Some(size), Some(name)) = (mode, size, name) else {
			return Err(format!("not a header: {}", show(line)));
		};
		let ok = mode.len() == 5 && mode[0] == b'C' && mode[1..].iter().all(|c| (b'0'..=b'7').contains(c));
		let size = std::str::from_utf8(size).ok().filter(|s| s.bytes().all(|c| c.is_ascii_digit())).and_then(|s| s.parse::<u64>().ok());
		let Some(size) = size.filter(|_| ok) else { return Err(format!("not a header: {}", show(line))) };
		s = &s[nl + 1..];
		let n = size.min(s.len() as u64) as usize;
		let mut x = Sent { mode, size, name, data: &s[..n], complete: false };
		s = &s[n..];
		if n as u64 == size {
			match s.first() {
				Some(0) => {
					x.complete = true;
					s = &s[1..];
				}
				Some(c) => return Err(format!("contents of {} are ended by {c}", show(name))),
				None => {}
			}
		}
		let stop = !x.complete;
		v.push(x);
		if stop {
			return Ok((v, b""));
		}
	}
	Ok((v, b""))
}

pub fn run(r: &mut Run) -> Result<(), String> {
	let src = files(r)?;
	let mut plan = Plan { sink_model: true, ..Default::default() };
	plan.prob = host::faults(r, if r.prop == "C18" || r.prop == "C19" { &HARD } else { &[] });
	plan.kill_at = host::kill_at(r, 1, 16);
	if r.chance(1, 4) {
		let at = r.pick(2 * src.len() as u32 + 1);
		let b: &[u8] = [
			&b"\x01scp: no space left\n"[..], b"\x02scp: fatal\n", b"\x01", b"X", b"\n", b"", b"\x01\0\0\0\0\0\0", b"\xff",
		][r.pick(8) as usize];
		plan.refuse = Some((at, b.to_vec()));
	}
	if let Some(i) = src.iter().position(|s| s.size >= host::HUGE) {
		// the sink has no room for that
		let at = 1 + 2 * i as u32;
		if plan.refuse.as_ref().map_or(true, |(a, _)| *a > at) {
			plan.refuse = Some((at, b"\x01scp: no space left\n".to_vec()));
		}
		r.probe("huge_file");
	}
	let mut args: Vec<Vec<u8>> = vec![b"-f".to_vec()];
	for s in &src {
		args.push(s.arg.clone());
		r.say(format!("file {:?}: {:?} bytes", show(&s.arg), s.data.as_ref().map(|_| s.size)));
	}
	let before = host::tree(&r.root.clone());
	let ran = host::exec(r, 0, &args, &plan)?;
	r.o.nontrivial = !ran.out.is_empty();
	let hard = ran.hard();
	let trunc = ran.faults[host::FR_TRUNC] > 0;
	// what has been appended meanwhile may be sent or not
	let grown = ran.faults[host::FR_GROW] > 0;
	if let Some(e) = &ran.escape {
		r.viol("C19", "changes-files", format!("sending changed something: {e}"));
	}
	if host::tree(&r.root.clone()) != before {
		r.viol("C19", "changes-files", "sending changed files");
	}
	if ran.spin {
		r.viol("C18", "spin", "scp goes on forever without progress");
		return Ok(());
	}
	match ran.ahead {
		0 => {}
		1 | 4 | 6 => r.viol("C19", "not-in-step", format!("data sent before the acknowledgement it has to wait for ({})", ran.ahead)),
		_ => r.viol("C19", "stream", format!("the sink cannot make sense of the stream ({})", ran.ahead)),
	}
	if ran.deadlock {
		r.viol("C19", "waits-for-nothing", "the source waits for an acknowledgement that the sink does not owe");
	}
	if ran.after_refusal > 0 {
		r.viol("C19", "goes-on-after-refusal", format!("{} bytes sent after the sink refused", ran.after_refusal));
	}
	if ran.refused {
		r.probe("refused");
	}
	// the stream itself
	let (sent, rest) = match parse(&ran.out) {
		Ok(x) => x,
		Err(e) => {
			r.viol("C19", "stream", e);
			(Vec::new(), &b""[..])
		}
	};
	let mut complete = 0;
	for (i, x) in sent.iter().enumerate() {
		let Some(s) = src.get(i) else {
			r.viol("C19", "stream", format!("file {} was never asked for", show(x.name)));
			break;
		};
		let Some(d) = &s.data else {
			r.viol("C19", "stream", format!("{} cannot be sent, but {} was", show(&s.arg), show(x.name)));
			break;
		};
		if x.name != s.name {
			r.viol("C19", "wrong-name", format!("header names {}, the file is {}", show(x.name), show(&s.name)));
		}
		if grown && x.size > s.size {
			if !x.data.starts_with(d) && !d.starts_with(x.data) {
				r.viol("C19", "wrong-contents", format!("contents of {} are not the file's", show(&s.name)));
			}
		} else if !trunc && x.size != s.size {
			r.viol("C19", "wrong-size", format!("header of {} says {}, the file has {}", show(&s.name), x.size, s.size));
		} else if !d.starts_with(x.data) {
			r.viol("C19", "wrong-contents", format!("contents of {} are not the file's", show(&s.name)));
		}
		if x.complete {
			complete += 1;
			let _ = x.mode;
		}
	}
	r.count("files_sent", complete);
	// a header cut short has to be the start of the right one
	if !rest.is_empty() {
		if let Some(Src { name, data: Some(_), size, .. }) = src.get(sent.len()) {
			let tail = [b" ", size.to_string().as_bytes(), b" ", &name[..], b"\n"].concat();
			if rest[0] != b'C' || rest.len() > 5 && !grown && !tail.starts_with(&rest[5..]) {
				r.viol("C19", "stream", format!("{} is not the start of a header", show(rest)));
			}
		} else {
			r.viol("C19", "stream", format!("{} sent where nothing is due", show(rest)));
		}
	}
	if ran.killed() {
		r.probe("killed");
		return Ok(());
	}
	// the outcome
	let stop = src.iter().position(|s| s.data.is_none());
	let sure = src.iter().all(|s| s.sure);
	let all = stop.is_none() && complete as usize == src.len();
	let must_fail = hard.is_some() || ran.refused || stop.is_some();
	if must_fail && ran.status == 0 {
		let w = hard.unwrap_or(if ran.refused { "the sink refused" } else { "a file cannot be sent" });
		r.viol("C18", "failure-not-reported", format!("exit status 0 although: {w}"));
		if ran.refused {
			r.viol("C19", "refusal-ignored", "exit status 0 although the sink refused");
		}
	}
	if ran.status == 0 && !all {
		r.viol("C18", "success-incomplete", format!("exit status 0 with {complete} of {} files sent", src.len()));
	}
	if ran.status == 0 && !ran.refused && ran.acks_read != 1 + 2 * src.len() as u32 {
		r.viol("C18", "success-unconfirmed", format!("exit status 0 after {} of {} acknowledgements", ran.acks_read, 1 + 2 * src.len()));
	}
	if !must_fail && !trunc && sure {
		r.probe("complete_transfer");
		if ran.status != 0 || !all {
			r.viol("C18", "fails-without-cause", format!("exit status {}, {complete} of {} files", ran.status, src.len()));
		}
		if !all {
			r.viol("C19", "incomplete", format!("{complete} of {} files sent although nothing failed", src.len()));
		}
	}
	if hard.is_none() && !trunc && !ran.refused && sure {
		let due = stop.unwrap_or(src.len());
		if (complete as usize) < due {
			r.viol("C19", "incomplete", format!("{complete} of {due} files sent"));
		}
	}
	// the other real side
	if complete > 0 && r.chance(1, 2) {
		let n: usize = {
			let mut s = &ran.out[..];
			for x in &sent {
				if !x.complete {
					break;
				}
				let nl = s.iter().position(|c| *c == b'\n').unwrap();
				s = &s[nl + 1 + x.size as usize + 1..];
			}
			ran.out.len() - s.len()
		};
		let stream = ran.out[..n].to_vec();
		let t = Target { dir: true, dests: vec![Dest { arg: b"../received".to_vec(), key: b"received".to_vec() }] };
		let mut p = Plan { segs: vec![Seg { data: stream.clone(), need: 0 }], ..Default::default() };
		p.prob = host::faults(r, &[]);
		let before = host::tree(&r.root.clone());
		let got = host::exec(r, 1, &sink::args(&t), &p)?;
		let m = sink::model(&stream, &t, &before);
		let after = host::tree(&r.root.clone());
		sink::judge(r, &got, &m, &t, &before, "round trip");
		r.probe("round_trip");
		if got.hard().is_none() && (got.status != 0 || m.success == Tri::No) {
			if sure {
				r.viol("C19", "round-trip", format!("a sink fed this stream fails: {} {}", got.status, m.why));
			}
		} else {
			for (i, s) in src.iter().take(complete as usize).enumerate() {
				if !s.sure || trunc || sent[i].size > s.size || src[i + 1..complete as usize].iter().any(|x| x.name == s.name) {
					continue;
				}
				let key = [b"received/", &s.name[..]].concat();
				if after.get(&key) != Some(&s.data) {
					r.viol("C19", "round-trip", format!("{} arrives changed", show(&s.name)));
				}
			}
		}
	}
	Ok(())
}
