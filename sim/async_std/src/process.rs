use futures::io::{AsyncRead, AsyncWrite};
use simcore::world::*;
use std::{
	ffi::OsStr,
	future::Future,
	io,
	os::unix::{ffi::OsStrExt, process::ExitStatusExt},
	path::Path,
	pin::Pin,
	sync::Arc,
	task::{Context, Poll},
};

pub use std::process::{ExitStatus, Output};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
	Piped,
	Null,
	Inherit,
	Other,
}

#[derive(Debug)]
pub struct Stdio(Kind);
impl Stdio {
	pub fn piped() -> Self {
		Self(Kind::Piped)
	}
	pub fn null() -> Self {
		Self(Kind::Null)
	}
	pub fn inherit() -> Self {
		Self(Kind::Inherit)
	}
}
impl From<std::process::Stdio> for Stdio {
	/// The standard library keeps what kind it is to itself; it is the leading discriminant.
	fn from(s: std::process::Stdio) -> Self {
		let tag = |s: &std::process::Stdio| unsafe { std::ptr::read_unaligned(s as *const _ as *const u32) };
		let t = tag(&s);
		let k = if t == tag(&std::process::Stdio::piped()) {
			Kind::Piped
		} else if t == tag(&std::process::Stdio::null()) {
			Kind::Null
		} else if t == tag(&std::process::Stdio::inherit()) {
			Kind::Inherit
		} else {
			Kind::Other
		};
		Self(k)
	}
}
impl From<std::fs::File> for Stdio {
	fn from(_: std::fs::File) -> Self {
		Self(Kind::Other)
	}
}

#[derive(Debug)]
pub struct Command {
	argv: Vec<Vec<u8>>,
	io: [Option<Kind>; 3],
	kill_on_drop: bool,
	/// its directory or environment is not the daemon's own
	elsewhere: bool,
}

impl Command {
	pub fn new(p: impl AsRef<OsStr>) -> Self {
		Self { argv: vec![p.as_ref().as_bytes().to_vec()], io: [None; 3], kill_on_drop: false, elsewhere: false }
	}
	pub fn arg(&mut self, a: impl AsRef<OsStr>) -> &mut Self {
		self.argv.push(a.as_ref().as_bytes().to_vec());
		self
	}
	pub fn args<I, S>(&mut self, a: I) -> &mut Self
	where
		I: IntoIterator<Item = S>,
		S: AsRef<OsStr>,
	{
		for x in a {
			self.arg(x);
		}
		self
	}
	pub fn env(&mut self, _: impl AsRef<OsStr>, _: impl AsRef<OsStr>) -> &mut Self {
		self.elsewhere = true;
		self
	}
	pub fn envs<I, K, V>(&mut self, i: I) -> &mut Self
	where
		I: IntoIterator<Item = (K, V)>,
		K: AsRef<OsStr>,
		V: AsRef<OsStr>,
	{
		self.elsewhere |= i.into_iter().next().is_some();
		self
	}
	pub fn env_remove(&mut self, _: impl AsRef<OsStr>) -> &mut Self {
		self.elsewhere = true;
		self
	}
	pub fn env_clear(&mut self) -> &mut Self {
		self.elsewhere = true;
		self
	}
	pub fn current_dir(&mut self, _: impl AsRef<Path>) -> &mut Self {
		self.elsewhere = true;
		self
	}
	pub fn stdin(&mut self, s: impl Into<Stdio>) -> &mut Self {
		self.io[0] = Some(s.into().0);
		self
	}
	pub fn stdout(&mut self, s: impl Into<Stdio>) -> &mut Self {
		self.io[1] = Some(s.into().0);
		self
	}
	pub fn stderr(&mut self, s: impl Into<Stdio>) -> &mut Self {
		self.io[2] = Some(s.into().0);
		self
	}
	pub fn reap_on_drop(&mut self, _: bool) -> &mut Self {
		self
	}
	pub fn kill_on_drop(&mut self, x: bool) -> &mut Self {
		self.kill_on_drop = x;
		self
	}
	pub fn spawn(&mut self) -> io::Result<Child> {
		let piped: Vec<bool> = self.io.iter().map(|k| *k == Some(Kind::Piped)).collect();
		let shell = self.argv[0] == b"/sim/shell";
		let k = with(|w| {
			w.progress += 1;
			w.daemon_spawn(&self.argv, shell, piped.iter().all(|p| *p), self.elsewhere)
		});
		let Some(k) = k else {
			// nul bytes are refused before the system is asked
			if self.argv.iter().any(|a| a.contains(&0)) {
				return Err(io::ErrorKind::InvalidInput.into());
			}
			let e = [2, 13, 11, 12, 24, 7][with(|w| w.ch.choose(ST_FAULT, 6)) as usize];
			return Err(io::Error::from_raw_os_error(e));
		};
		// a stream that is not connected to the server is as good as closed
		let (i, o, e) = (ChildStdin(SimStdin(k)), ChildStdout(SimStdout(k)), ChildStderr(SimStderr(k)));
		Ok(Child {
			stdin: piped[0].then(|| i),
			stdout: piped[1].then(|| o),
			stderr: piped[2].then(|| e),
			k,
			guard: Arc::new(Guard { k, kill_on_drop: self.kill_on_drop }),
		})
	}
	pub fn status(&mut self) -> impl Future<Output = io::Result<ExitStatus>> + Send + 'static {
		let c = self.spawn();
		async move { c?.status().await }
	}
}

#[derive(Debug)]
pub struct Child {
	pub stdin: Option<ChildStdin>,
	pub stdout: Option<ChildStdout>,
	pub stderr: Option<ChildStderr>,
	k: usize,
	guard: Arc<Guard>,
}

/// Shared by the child and whoever waits for it; the last to go kills it if so asked.
#[derive(Debug)]
struct Guard {
	k: usize,
	kill_on_drop: bool,
}

fn status(s: i32) -> ExitStatus {
	ExitStatus::from_raw(if s < 0 { -s } else { (s & 0xff) << 8 })
}

impl Child {
	pub fn id(&self) -> u32 {
		1000 + self.k as u32
	}
	pub fn kill(&mut self) -> io::Result<()> {
		let k = self.k;
		with(|w| w.proc_kill(k));
		Ok(())
	}
	pub fn status(&mut self) -> impl Future<Output = io::Result<ExitStatus>> + Send + 'static {
		drop(self.stdin.take());
		let w = SimWait(self.k);
		let guard = self.guard.clone();
		async move {
			let s = w.await;
			drop(guard);
			Ok(status(s))
		}
	}
	pub fn try_status(&mut self) -> io::Result<Option<ExitStatus>> {
		let k = self.k;
		Ok(with(|w| w.procs[k].exited).map(status))
	}
}
impl Drop for Guard {
	fn drop(&mut self) {
		if self.kill_on_drop {
			let k = self.k;
			try_with(|w| w.proc_kill(k));
		}
	}
}

pub struct ChildStdin(SimStdin);
pub struct ChildStdout(SimStdout);
pub struct ChildStderr(SimStderr);

macro_rules! dbg {
	($($t:ident)*) => {$(impl std::fmt::Debug for $t {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			f.write_str(stringify!($t))
		}
	})*};
}
dbg!(ChildStdin ChildStdout ChildStderr);

impl AsyncWrite for ChildStdin {
	fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
		Pin::new(&mut self.0).poll_write(cx, b)
	}
	fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
		Pin::new(&mut self.0).poll_flush(cx)
	}
	fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
		Pin::new(&mut self.0).poll_close(cx)
	}
}
impl AsyncRead for ChildStdout {
	fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
		Pin::new(&mut self.0).poll_read(cx, b)
	}
}
impl AsyncRead for ChildStderr {
	fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
		Pin::new(&mut self.0).poll_read(cx, b)
	}
}
