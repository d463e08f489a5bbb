//! Scratch directories, and running the real program with its calls interposed.
use crate::Run;
use simcore::choice::{mix, Rng};
use std::{
	collections::BTreeMap,
	ffi::{CString, OsStr},
	fs, io,
	os::unix::{ffi::OsStrExt, fs::PermissionsExt},
	path::Path,
	sync::OnceLock,
};

static SHIM: &[u8] = include_bytes!(concat!(env!("OUT_DIR"), "/shim.so"));
static BASE: OnceLock<String> = OnceLock::new();

pub const NSTREAM: usize = 5;
pub const NFAULT: usize = 22;
// must match the interposer
pub const IN_SHORT: usize = 0;
pub const IN_EINTR: usize = 1;
pub const IN_EIO: usize = 2;
pub const OUT_SHORT: usize = 3;
pub const OUT_EINTR: usize = 4;
pub const OUT_EIO: usize = 5;
pub const OUT_EPIPE: usize = 6;
pub const FW_SHORT: usize = 7;
pub const FW_EINTR: usize = 8;
pub const FW_EIO: usize = 9;
pub const FW_ENOSPC: usize = 10;
pub const FR_SHORT: usize = 11;
pub const FR_EINTR: usize = 12;
pub const FR_EIO: usize = 13;
pub const FR_TRUNC: usize = 14;
pub const FR_GROW: usize = 15;
pub const OPEN_EINTR: usize = 16;
pub const OPEN_FAIL: usize = 17;
pub const MKDIR_FAIL: usize = 18;
pub const KILL: usize = 19;
pub const SENDFILE: usize = 20;
pub const CHDIR_FAIL: usize = 21;
const NAMES: [&str; NFAULT] = [
	"stdin_short_read", "stdin_interrupted", "stdin_error", "stdout_short_write", "stdout_interrupted", "stdout_error",
	"stdout_broken_pipe", "file_short_write", "file_write_interrupted", "file_write_error", "disk_full",
	"file_short_read", "file_read_interrupted", "file_read_error", "file_truncated_while_read",
	"file_grows_while_read", "open_interrupted", "open_failure", "mkdir_failure", "kill", "sendfile_used",
	"chdir_failure",
];
const HARD: [usize; 9] = [IN_EIO, OUT_EIO, OUT_EPIPE, FW_EIO, FW_ENOSPC, FR_EIO, OPEN_FAIL, MKDIR_FAIL, CHDIR_FAIL];

#[repr(C)]
#[derive(Clone, Copy)]
struct St {
	off: u32,
	len: u32,
	pos: u32,
}

#[repr(C)]
struct Hdr {
	magic: u32,
	peer: u32,
	kill_at: u32,
	end_error: u32,
	nseg: u32,
	seg_off: u32,
	refuse_at: u32,
	refuse_off: u32,
	refuse_len: u32,
	prob: [u32; NFAULT],
	st: [St; NSTREAM],
	root: [u8; 256],
	log_off: u32,
	log_cap: u32,
	log_len: u32,
	out_off: u32,
	out_cap: u32,
	out_len: u32,
	faults: [u32; NFAULT],
	calls: u32,
	in_read: u32,
	deadlock: u32,
	ahead: u32,
	escaped: u32,
	overflow: u32,
	refused: u32,
	after_refusal: u32,
	acks_read: u32,
	escape: [u8; 512],
}

pub struct Seg {
	pub data: Vec<u8>,
	/// bytes the sender wants to see on stdout before it sends this
	pub need: u32,
}

#[derive(Default)]
pub struct Plan {
	pub sink_model: bool,
	pub kill_at: u32,
	pub end_error: bool,
	pub segs: Vec<Seg>,
	/// sink model: which answer refuses, and how
	pub refuse: Option<(u32, Vec<u8>)>,
	pub prob: [u32; NFAULT],
}

#[derive(Default, Debug)]
pub struct Ran {
	/// exit code, or -signal
	pub status: i32,
	pub out: Vec<u8>,
	pub faults: [u32; NFAULT],
	pub in_read: u32,
	pub deadlock: bool,
	pub ahead: u32,
	pub escape: Option<String>,
	pub spin: bool,
	pub refused: bool,
	pub after_refusal: u32,
	pub acks_read: u32,
}

impl Ran {
	pub fn killed(&self) -> bool {
		self.faults[KILL] > 0
	}
	pub fn hard(&self) -> Option<&'static str> {
		HARD.iter().find(|f| self.faults[**f] > 0).map(|f| NAMES[*f])
	}
}

extern "C" fn cleanup() {
	if let Some(b) = BASE.get() {
		let _ = fs::remove_dir_all(b);
	}
}

/// Once per check: the program and the interposer where an unprivileged user can use them.
pub fn install() {
	let base = format!("/tmp/nora_scp_sim.{:010}", std::process::id());
	let me = std::env::current_exe().expect("own path");
	let scp = me.with_file_name("nora_scp_real");
	let go = || -> io::Result<()> {
		let _ = fs::remove_dir_all(&base);
		fs::create_dir(&base)?;
		fs::set_permissions(&base, fs::Permissions::from_mode(0o777))?;
		fs::copy(&scp, format!("{base}/scp"))?;
		fs::set_permissions(format!("{base}/scp"), fs::Permissions::from_mode(0o755))?;
		fs::write(format!("{base}/shim.so"), SHIM)?;
		fs::set_permissions(format!("{base}/shim.so"), fs::Permissions::from_mode(0o755))?;
		Ok(())
	};
	if let Err(e) = go() {
		eprintln!("cannot prepare {base}: {e}");
		let _ = fs::remove_dir_all(&base);
		std::process::exit(2);
	}
	let _ = BASE.set(base);
	// the processes of single runs leave by _exit, so this is done once
	unsafe { libc::atexit(cleanup) };
}

/// Once per run: no privileges, and an empty directory.
pub fn prepare() -> io::Result<String> {
	unsafe {
		libc::setgroups(0, std::ptr::null());
		libc::setgid(65534);
		libc::setuid(65534);
		libc::umask(0o022);
	}
	let root = format!("{}/{:010}", BASE.get().unwrap(), std::process::id());
	let _ = fs::remove_dir_all(&root);
	fs::create_dir(&root)?;
	fs::create_dir(format!("{root}/work"))?;
	Ok(root)
}

pub fn remove(root: &str) {
	let _ = fs::remove_dir_all(root);
}

/// Every path below `dir`, relative: contents of files, `None` for directories.
/// Files of this size and more are sparse, and nobody reads them.
pub const HUGE: u64 = 1 << 30;

pub fn tree(dir: &str) -> BTreeMap<Vec<u8>, Option<Vec<u8>>> {
	fn walk(d: &Path, rel: &[u8], m: &mut BTreeMap<Vec<u8>, Option<Vec<u8>>>) {
		let Ok(l) = fs::read_dir(d) else { return };
		for e in l.flatten() {
			let mut p = rel.to_vec();
			if !p.is_empty() {
				p.push(b'/');
			}
			p.extend_from_slice(e.file_name().as_bytes());
			match e.file_type() {
				Ok(t) if t.is_dir() => {
					m.insert(p.clone(), None);
					walk(&e.path(), &p, m);
				}
				Ok(t) if t.is_file() => {
					let size = e.metadata().map_or(0, |m| m.len());
					let data = if size < HUGE { fs::read(e.path()).unwrap_or_default() } else { format!("({size} bytes)").into() };
					m.insert(p, Some(data));
				}
				_ => {
					m.insert(p, Some(b"(special file)".to_vec()));
				}
			}
		}
	}
	let mut m = BTreeMap::new();
	walk(Path::new(dir), b"", &mut m);
	m
}

const LOG: usize = 24 << 20;
const OUT: usize = 32 << 20;
const CHOICES: usize = 20_000;

/// Run the program once. `slot` numbers the processes of a run.
pub fn exec(r: &mut Run, slot: u32, args: &[Vec<u8>], plan: &Plan) -> Result<Ran, String> {
	let data: usize = plan.segs.iter().map(|s| s.data.len() + 16).sum::<usize>() + 4096;
	let hl = std::mem::size_of::<Hdr>();
	let st_off = (hl + 63) / 64 * 64;
	let dat_off = st_off + NSTREAM * CHOICES * 4;
	let log_off = (dat_off + data + 4095) / 4096 * 4096;
	let out_off = log_off + LOG;
	let total = out_off + OUT;
	unsafe {
		let fd = libc::memfd_create(b"sim\0".as_ptr() as *const _, 0);
		if fd < 0 || libc::ftruncate(fd, total as _) != 0 {
			return Err("memfd".into());
		}
		let p = libc::mmap(std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
		if p == libc::MAP_FAILED {
			return Err("mmap".into());
		}
		let p = p as *mut u8;
		let h = &mut *(p as *mut Hdr);
		h.magic = 0x5cb;
		h.peer = plan.sink_model as u32;
		h.kill_at = plan.kill_at;
		h.end_error = plan.end_error as u32;
		h.prob = plan.prob;
		h.root[..r.root.len()].copy_from_slice(r.root.as_bytes());
		h.log_off = log_off as u32;
		h.log_cap = LOG as u32;
		h.out_off = out_off as u32;
		h.out_cap = OUT as u32;
		for i in 0..NSTREAM {
			let id = 100 + slot * 10 + i as u32;
			let off = st_off + i * CHOICES * 4;
			h.st[i] = St { off: off as u32, len: CHOICES as u32, pos: 0 };
			let a = std::slice::from_raw_parts_mut(p.add(off) as *mut u32, CHOICES);
			match &r.replay {
				Some(m) => {
					let v = m.get(&id).map_or(&[][..], |v| &v[..]);
					let n = v.len().min(CHOICES);
					a[..n].copy_from_slice(&v[..n]);
				}
				None => {
					let mut g = Rng::new(mix(r.seed, id as u64));
					for x in a {
						*x = (g.next() >> 33) as u32;
					}
				}
			}
		}
		// segments: table, then bytes
		let mut at = dat_off;
		h.seg_off = at as u32;
		h.nseg = plan.segs.len() as u32;
		let tab = std::slice::from_raw_parts_mut(p.add(at) as *mut u32, plan.segs.len() * 3);
		at += plan.segs.len() * 12;
		for (i, s) in plan.segs.iter().enumerate() {
			tab[i * 3] = at as u32;
			tab[i * 3 + 1] = s.data.len() as u32;
			tab[i * 3 + 2] = s.need;
			std::ptr::copy_nonoverlapping(s.data.as_ptr(), p.add(at), s.data.len());
			at += s.data.len();
		}
		h.refuse_at = u32::MAX;
		if let Some((k, b)) = &plan.refuse {
			h.refuse_at = *k;
			h.refuse_off = at as u32;
			h.refuse_len = b.len() as u32;
			std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(at), b.len());
		}
		// the program
		let base = BASE.get().unwrap();
		let c = |s: &[u8]| CString::new(s).unwrap();
		let exe = c(format!("{base}/scp").as_bytes());
		let mut argv: Vec<CString> = vec![c(b"scp")];
		argv.extend(args.iter().map(|a| c(a)));
		let env = [c(format!("LD_PRELOAD={base}/shim.so").as_bytes()), c(format!("SIM_SCP_FD={fd}").as_bytes())];
		let mut argp: Vec<_> = argv.iter().map(|a| a.as_ptr()).collect();
		argp.push(std::ptr::null());
		let mut envp: Vec<_> = env.iter().map(|a| a.as_ptr()).collect();
		envp.push(std::ptr::null());
		let cwd = c(format!("{}/work", r.root).as_bytes());
		let (mut a, mut b) = ([0; 2], [0; 2]);
		if libc::pipe(a.as_mut_ptr()) != 0 || libc::pipe(b.as_mut_ptr()) != 0 {
			return Err("pipe".into());
		}
		let pid = libc::fork();
		if pid < 0 {
			return Err("fork".into());
		}
		if pid == 0 {
			libc::dup2(a[0], 0);
			libc::dup2(b[1], 1);
			for f in [a[0], a[1], b[0], b[1]] {
				if f > 2 {
					libc::close(f);
				}
			}
			libc::signal(libc::SIGPIPE, libc::SIG_DFL);
			libc::alarm(60);
			if libc::chdir(cwd.as_ptr()) == 0 {
				libc::execve(exe.as_ptr(), argp.as_ptr(), envp.as_ptr());
			}
			libc::_exit(99);
		}
		let mut st = 0;
		while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
		for f in [a[0], a[1], b[0], b[1], fd] {
			libc::close(f);
		}
		let log = std::slice::from_raw_parts(p.add(log_off), h.log_len as usize).to_vec();
		let out = std::slice::from_raw_parts(p.add(out_off), h.out_len as usize).to_vec();
		for i in 0..NSTREAM {
			let id = 100 + slot * 10 + i as u32;
			let s = h.st[i];
			let n = s.pos.min(s.len) as usize;
			let v = std::slice::from_raw_parts(p.add(s.off as usize) as *const u32, n).to_vec();
			r.o.streams.insert(id, v);
		}
		let status = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -libc::WTERMSIG(st) };
		let cstr = |b: &[u8]| String::from_utf8_lossy(&b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())]).into_owned();
		let mut ran = Ran {
			status,
			out,
			faults: h.faults,
			in_read: h.in_read,
			deadlock: h.deadlock != 0,
			ahead: h.ahead,
			escape: (h.escaped != 0).then(|| cstr(&h.escape)),
			spin: h.overflow == 2 || h.overflow == 3,
			refused: h.refused != 0,
			after_refusal: h.after_refusal,
			acks_read: h.acks_read,
		};
		let calls = h.calls;
		let overflow = h.overflow;
		libc::munmap(p as *mut _, total);
		let line: Vec<String> = args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
		r.say(format!("scp {line:?}"));
		r.say(String::from_utf8_lossy(&log).into_owned());
		r.say(format!("scp ended with {status}, {} bytes on stdout", ran.out.len()));
		for i in 0..NFAULT {
			if ran.faults[i] > 0 {
				*r.o.faults.entry(NAMES[i].into()).or_default() += ran.faults[i] as u64;
			}
		}
		r.o.events += calls as u64;
		r.o.now += calls as u64;
		if status == 99 || calls == 0 && status != 1 && status != 101 {
			return Err(format!("scp could not be run (status {status})"));
		}
		if status == -libc::SIGXCPU {
			ran.spin = true;
		}
		if overflow == 1 || overflow == 4 || status == -libc::SIGALRM {
			return Err(format!("simulator capacity (overflow {overflow}, status {status})"));
		}
		Ok(ran)
	}
}

/// How system calls misbehave in a run.
pub fn faults(r: &mut Run, hard: &[usize]) -> [u32; NFAULT] {
	let mut p = [0; NFAULT];
	let ch = &mut r.ch;
	let st = crate::ST_FAULT;
	if ch.chance(st, 3, 4) {
		for f in [IN_SHORT, OUT_SHORT, FW_SHORT, FR_SHORT] {
			p[f] = [0, 100, 400, 900][ch.choose(st, 4) as usize];
		}
		for f in [IN_EINTR, OUT_EINTR, FW_EINTR, FR_EINTR, OPEN_EINTR] {
			p[f] = [0, 0, 60, 300][ch.choose(st, 4) as usize];
		}
		p[SENDFILE] = [0, 0, 500, 1000][ch.choose(st, 4) as usize];
		p[FR_GROW] = [0, 0, 500][ch.choose(st, 3) as usize];
	}
	if !hard.is_empty() && ch.chance(st, 1, 2) {
		let f = hard[ch.choose(st, hard.len() as u32) as usize];
		p[f] = [15, 60, 200, 600][ch.choose(st, 4) as usize];
		if f == KILL {
			p[f] = 0;
		}
	}
	p
}

/// The call at which the process is killed, or 0.
pub fn kill_at(r: &mut Run, n: u32, d: u32) -> u32 {
	let ch = &mut r.ch;
	let st = crate::ST_FAULT;
	if !ch.chance(st, n, d) {
		return 0;
	}
	match ch.choose(st, 3) {
		0 => 1 + ch.choose(st, 12),
		1 => 1 + ch.choose(st, 60),
		_ => 1 + ch.choose(st, 400),
	}
}

pub fn show(b: &[u8]) -> String {
	let n = b.len().min(60);
	let s: String = b[..n].iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
	if n < b.len() {
		format!("{s}... ({} bytes)", b.len())
	} else {
		s
	}
}

pub fn os(b: &[u8]) -> &OsStr {
	OsStr::from_bytes(b)
}
