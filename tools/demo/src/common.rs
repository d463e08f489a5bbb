//! A server in memory, a hand-driven client, and processes whose ends the demonstration holds.
#![allow(dead_code)]
pub use crate::{crypto::*, wire::{b, wrap, Put}};
use futures::{
	channel::{mpsc, oneshot},
	io::{AsyncRead, AsyncReadExt, AsyncWrite},
	StreamExt,
};
use nora_ssh::{
	auth::Auth,
	cipher,
	server::{IoSet, Server, ServerHandlers, SpawnType},
	Identifier,
};
use rand::{rngs::StdRng, SeedableRng};
use sha2::{Digest, Sha256};
use std::{
	collections::VecDeque,
	future::Future,
	io,
	pin::Pin,
	sync::{Arc, Mutex},
	task::{Context, Poll, Waker},
};

/// A one-way byte pipe.
#[derive(Default)]
pub struct PipeS {
	pub buf: VecDeque<u8>,
	pub eof: bool,
	/// reader gone
	pub broken: bool,
	pub cap: usize,
	/// bytes per read / write call, 0: no limit
	pub rchunk: usize,
	pub wchunk: usize,
	pub rd_dropped: bool,
	pub wr_dropped: bool,
	pub read_error: bool,
	/// calls to read that found nothing, and in total
	pub polls: u64,
	rw: Option<Waker>,
	ww: Option<Waker>,
}
#[derive(Clone)]
pub struct Pipe(pub Arc<Mutex<PipeS>>);
impl Pipe {
	pub fn new(cap: usize) -> Self {
		Pipe(Arc::new(Mutex::new(PipeS { cap, ..Default::default() })))
	}
	pub fn with<R>(&self, f: impl FnOnce(&mut PipeS) -> R) -> R {
		let mut g = self.0.lock().unwrap();
		let r = f(&mut g);
		if let Some(w) = g.rw.take() {
			w.wake();
		}
		if let Some(w) = g.ww.take() {
			w.wake();
		}
		r
	}
	pub fn put(&self, b: &[u8]) {
		self.with(|p| p.buf.extend(b))
	}
	pub fn end(&self) {
		self.with(|p| p.eof = true)
	}
	pub fn take_all(&self) -> Vec<u8> {
		self.with(|p| p.buf.drain(..).collect())
	}
}
pub struct Rd(pub Pipe);
pub struct Wr(pub Pipe);
impl Drop for Rd {
	fn drop(&mut self) {
		self.0.with(|p| {
			p.rd_dropped = true;
			p.broken = true;
		})
	}
}
impl Drop for Wr {
	fn drop(&mut self) {
		self.0.with(|p| {
			p.wr_dropped = true;
			p.eof = true;
		})
	}
}
impl AsyncRead for Rd {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
		let mut p = self.0 .0.lock().unwrap();
		p.polls += 1;
		if p.buf.is_empty() {
			if p.read_error {
				return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
			}
			if p.eof {
				return Poll::Ready(Ok(0));
			}
			p.rw = Some(cx.waker().clone());
			return Poll::Pending;
		}
		let mut n = b.len().min(p.buf.len());
		if p.rchunk > 0 {
			n = n.min(p.rchunk);
		}
		for x in &mut b[..n] {
			*x = p.buf.pop_front().unwrap();
		}
		if let Some(w) = p.ww.take() {
			w.wake();
		}
		Poll::Ready(Ok(n))
	}
}
impl AsyncWrite for Wr {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
		let mut p = self.0 .0.lock().unwrap();
		if p.broken {
			return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
		}
		let room = p.cap.saturating_sub(p.buf.len());
		if room == 0 {
			p.ww = Some(cx.waker().clone());
			return Poll::Pending;
		}
		let mut n = b.len().min(room);
		if p.wchunk > 0 {
			n = n.min(p.wchunk);
		}
		p.buf.extend(&b[..n]);
		if let Some(w) = p.rw.take() {
			w.wake();
		}
		Poll::Ready(Ok(n))
	}
	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}
	fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		self.0.end();
		Poll::Ready(Ok(()))
	}
}

pub struct Proc {
	pub user: Vec<u8>,
	pub shell: bool,
	pub command: Vec<u8>,
	pub stdin: Pipe,
	pub stdout: Pipe,
	pub stderr: Pipe,
	pub exit: Option<oneshot::Sender<u32>>,
}
#[derive(Default)]
pub struct Log {
	pub procs: Vec<Proc>,
	/// calls of authenticate: user, service, method, [alg, key, sig, msg] or [password]
	pub auths: Vec<(Vec<u8>, Vec<u8>, &'static str, Vec<Vec<u8>>)>,
	pub exists: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>,
	/// capacity of new stdin pipes
	pub stdin_cap: usize,
	pub refuse_spawn: bool,
}
pub type Shared = Arc<Mutex<Log>>;
/// Accepts `none`, the password "ok", and any public-key request with signature "good".
struct Handlers {
	incoming: futures::lock::Mutex<mpsc::UnboundedReceiver<(Rd, Wr)>>,
	log: Shared,
}
#[async_trait::async_trait]
impl ServerHandlers for Handlers {
	type Sign = p256::NistP256;
	type Crypt = cipher::ChaCha20Poly1305;
	type Read = Rd;
	type Write = Wr;
	type User = Vec<u8>;
	type Stdin = Wr;
	type Stdout = Rd;
	type Stderr = Rd;
	type Rng = StdRng;
	async fn accept(&self) -> (Rd, Wr) {
		let mut l = self.incoming.lock().await;
		match l.next().await {
			Some(x) => x,
			None => futures::future::pending().await,
		}
	}
	async fn public_key_exists<'a>(&self, user: &'a [u8], service: &'a [u8], alg: &'a [u8], key: &'a [u8]) -> Result<(), ()> {
		self.log.lock().unwrap().exists.push((user.into(), service.into(), alg.into(), key.into()));
		Ok(())
	}
	async fn authenticate<'a>(&self, user: &'a [u8], service: &'a [u8], auth: Auth<'a>) -> Result<Vec<u8>, ()> {
		let (m, v, ok) = match auth {
			Auth::None => ("none", vec![], user != b"refused"),
			Auth::Password(p) => ("password", vec![p.to_vec()], p == b"ok"),
			Auth::PublicKey { algorithm, key, signature, message } => (
				"publickey",
				vec![algorithm.to_vec(), key.to_vec(), signature.to_vec(), message.to_vec()],
				signature == b"good",
			),
		};
		self.log.lock().unwrap().auths.push((user.into(), service.into(), m, v));
		if ok {
			Ok(user.to_vec())
		} else {
			Err(())
		}
	}
	async fn spawn<'a>(&self, user: &'a mut Vec<u8>, ty: SpawnType<'a>, _: &'a [u8]) -> Result<IoSet<Wr, Rd, Rd>, ()> {
		let mut l = self.log.lock().unwrap();
		if l.refuse_spawn {
			return Err(());
		}
		let (shell, command) = match ty {
			SpawnType::Shell => (true, vec![]),
			SpawnType::Exec { command } => (false, command.to_vec()),
		};
		let cap = if l.stdin_cap == 0 { 1 << 30 } else { l.stdin_cap };
		let (i, o, e) = (Pipe::new(cap), Pipe::new(1 << 30), Pipe::new(1 << 30));
		let (tx, rx) = oneshot::channel();
		l.procs.push(Proc {
			user: user.clone(),
			shell,
			command,
			stdin: i.clone(),
			stdout: o.clone(),
			stderr: e.clone(),
			exit: Some(tx),
		});
		Ok(IoSet {
			stdin: Some(Wr(i)),
			stdout: Some(Rd(o)),
			stderr: Some(Rd(e)),
			wait: Box::pin(async move { rx.await.unwrap_or(255) }),
		})
	}
}

struct Flag(std::sync::atomic::AtomicBool);
impl std::task::Wake for Flag {
	fn wake(self: Arc<Self>) {
		self.0.store(true, std::sync::atomic::Ordering::SeqCst)
	}
}
type Task = (Option<Pin<Box<dyn Future<Output = ()>>>>, Arc<Flag>);

/// The server and its executor.
pub struct World {
	tasks: Vec<Task>,
	incoming: mpsc::UnboundedSender<(Rd, Wr)>,
	pub log: Shared,
}
impl World {
	pub fn new() -> Self {
		let (tx, rx) = mpsc::unbounded();
		let log: Shared = Default::default();
		let h = Handlers { incoming: futures::lock::Mutex::new(rx), log: log.clone() };
		let key = ecdsa::SigningKey::<p256::NistP256>::random(StdRng::seed_from_u64(7));
		let server = Server::new(Identifier::new(b"SSH-2.0-demo").unwrap(), key, h);
		let mut w = World { tasks: vec![], incoming: tx, log };
		w.spawn(async move {
			server.start().await;
		});
		w
	}
	pub fn spawn(&mut self, f: impl Future<Output = ()> + 'static) {
		self.tasks.push((Some(Box::pin(f)), Arc::new(Flag(true.into()))));
	}
	/// Run everything until nothing can go on. A panic of the server ends the demonstration.
	pub fn run(&mut self) {
		let mut polls = 0;
		loop {
			let mut idle = true;
			for t in &mut self.tasks {
				if t.0.is_some() && t.1 .0.swap(false, std::sync::atomic::Ordering::SeqCst) {
					idle = false;
					let w = t.1.clone().into();
					if t.0.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w)).is_ready() {
						t.0 = None;
					}
				}
			}
			polls += 1;
			assert!(polls < 1_000_000, "the server runs without end");
			if idle {
				return;
			}
		}
	}
	/// Run a client's future; `None` if it waits forever.
	pub fn client<T: 'static>(&mut self, f: impl Future<Output = T> + 'static) -> Option<T> {
		let r = Arc::new(Mutex::new(None));
		let q = r.clone();
		self.spawn(async move {
			let v = f.await;
			*q.lock().unwrap() = Some(v);
		});
		self.run();
		let x = r.lock().unwrap().take();
		x
	}
	pub fn connect(&mut self) -> Conn {
		let (a, b) = (Pipe::new(1 << 30), Pipe::new(1 << 30));
		self.incoming.unbounded_send((Rd(a.clone()), Wr(b.clone()))).unwrap();
		Conn::new(a, b)
	}
	/// A connection that is ready for channels.
	pub fn session(&mut self, user: &[u8]) -> Conn {
		let mut c = self.connect();
		let u = user.to_vec();
		self.client(async move {
			c.handshake().await.expect("handshake");
			c.service().await.expect("service");
			let r = c.auth_none(&u).await.expect("auth");
			assert_eq!(r[0], 52, "authentication");
			c
		})
		.expect("the session never gets ready")
	}
	/// Open a channel and start a process.
	pub fn exec(&mut self, mut c: Conn, id: u32, cmd: &[u8]) -> (Conn, u32) {
		let cmd = cmd.to_vec();
		self.client(async move {
			let s = c.open(id, 1 << 20, 1 << 15).await.expect("open");
			c.send(&b().u8(98).u32(s).s(b"exec").u8(1).s(&cmd));
			let r = c.recv().await.expect("reply");
			assert_eq!(r[0], 99, "exec");
			(c, s)
		})
		.expect("the process never starts")
	}
}

pub struct Conn {
	pub tx: Pipe,
	pub rx: Pipe,
	rd: Rd,
	pub ident: Vec<u8>,
	pub secret: [u8; 32],
	pub enc: Option<Sealer>,
	pub dec: Option<Sealer>,
	pub session: Vec<u8>,
	pub kex: Vec<u8>,
	pub eph: Vec<u8>,
	pub host: Vec<u8>,
	pub secret_shared: [u8; 32],
}
impl Conn {
	/// Connect to a daemon on this machine.
	pub fn dial(port: u16) -> Conn {
		use std::io::{Read, Write};
		let s = (0..500)
			.find_map(|_| {
				std::thread::sleep(std::time::Duration::from_millis(20));
				std::net::TcpStream::connect(("127.0.0.1", port)).ok()
			})
			.expect("the daemon cannot be reached");
		let (a, b) = (Pipe::new(1 << 30), Pipe::new(1 << 30));
		let (mut rd, mut wr, rx, tx) = (s.try_clone().unwrap(), s, b.clone(), a.clone());
		std::thread::spawn(move || {
			let mut buf = [0; 4096];
			while let Ok(n @ 1..) = rd.read(&mut buf) {
				rx.put(&buf[..n]);
			}
			rx.with(|p| {
				p.wr_dropped = true;
				p.eof = true
			});
		});
		std::thread::spawn(move || loop {
			let v = tx.take_all();
			if wr.write_all(&v).is_err() {
				return;
			}
			std::thread::sleep(std::time::Duration::from_millis(1));
		});
		Conn::new(a, b)
	}
	fn new(tx: Pipe, rx: Pipe) -> Self {
		Conn {
			rd: Rd(rx.clone()),
			tx,
			rx,
			ident: b"SSH-2.0-democlient".to_vec(),
			secret: rand::random(),
			enc: None,
			dec: None,
			session: vec![],
			kex: Conn::proposal("curve25519-sha256", "ecdsa-sha2-nistp256", "chacha20-poly1305@openssh.com", "chacha20-poly1305@openssh.com"),
			eph: vec![],
			host: Vec::new(),
			secret_shared: [0; 32],
		}
	}
	pub fn proposal(k: &str, h: &str, c: &str, d: &str) -> Vec<u8> {
		let mut v = b().u8(20).raw(&[9; 16]);
		for l in [k, h, c, d, "none", "none", "none", "none", "", ""] {
			v = v.s(l.as_bytes());
		}
		v.u8(0).u32(0)
	}
	async fn exact(&mut self, n: usize) -> Option<Vec<u8>> {
		let mut v = vec![0; n];
		self.rd.read_exact(&mut v).await.ok()?;
		Some(v)
	}
	async fn clear(&mut self) -> Option<Vec<u8>> {
		let l = self.exact(4).await?;
		let n = u32::from_be_bytes(l[..].try_into().unwrap()) as usize;
		let p = self.exact(n).await?;
		Some(p[1..n - p[0] as usize].to_vec())
	}
	/// Key exchange as an ordinary client; `None` if it fails.
	pub async fn handshake(&mut self) -> Option<()> {
		let mut id = Vec::new();
		while !id.ends_with(b"\r\n") {
			id.extend(self.exact(1).await?);
		}
		id.truncate(id.len() - 2);
		self.tx.put(&[&self.ident[..], b"\r\n"].concat());
		let skex = self.clear().await?;
		self.tx.put(&wrap(&self.kex, 0, true, 0));
		let public = *x25519_dalek::PublicKey::from(&x25519_dalek::StaticSecret::from(self.secret)).as_bytes();
		self.tx.put(&wrap(&b().u8(30).s(&public), 0, true, 0));
		let reply = self.clear().await?;
		let mut r = Rd_(&reply[1..]);
		let host = r.s()?.to_vec();
		self.host = host.clone();
		self.eph = r.s()?.to_vec();
		let sig = r.s()?.to_vec();
		let seph: [u8; 32] = self.eph[..].try_into().ok()?;
		let k = x25519_dalek::StaticSecret::from(self.secret).diffie_hellman(&seph.into());
		let k = *k.as_bytes();
		self.secret_shared = k;
		let h = Sha256::digest(
			b().s(&self.ident).s(&id).s(&self.kex).s(&skex).s(&host).s(&public).s(&seph).mpint(&k),
		)
		.to_vec();
		// signature
		let mut hk = Rd_(&host);
		(hk.s()?, hk.s()?);
		let q = hk.s()?;
		let vk = p256::ecdsa::VerifyingKey::from_sec1_bytes(q).ok()?;
		let mut sg = Rd_(&sig);
		sg.s()?;
		let mut rs = Rd_(sg.s()?);
		let (a, bb) = (rs.mpint32()?, rs.mpint32()?);
		let s = p256::ecdsa::Signature::from_scalars(a, bb).ok()?;
		use p256::ecdsa::signature::Verifier;
		vk.verify(&h, &s).ok()?;
		// keys
		let km = |x: u8| -> [u8; 64] {
			let k1 = Sha256::digest(b().mpint(&k).raw(&h).u8(x).raw(&h));
			let k2 = Sha256::digest(b().mpint(&k).raw(&h).raw(&k1));
			[k1, k2].concat().try_into().unwrap()
		};
		if self.clear().await? != [21] {
			return None;
		}
		self.tx.put(&wrap(&[21], 0, true, 0));
		self.enc = Some(Sealer::new(&km(b'C'), 3));
		self.dec = Some(Sealer::new(&km(b'D'), 3));
		self.session = h;
		Some(())
	}
	pub fn seal(&mut self, payload: &[u8]) -> Vec<u8> {
		self.enc.as_mut().unwrap().seal(&wrap(payload, 0, false, 0))
	}
	pub fn send(&mut self, payload: &[u8]) {
		let p = self.seal(payload);
		self.tx.put(&p);
	}
	/// The next packet, whole: packet length, then everything after it.
	pub async fn recv_packet(&mut self) -> Option<(u32, Vec<u8>)> {
		let l = self.exact(4).await?;
		let n = self.dec.as_ref().unwrap().open_len(&l);
		assert!(n < 40000, "the server's packet stream is out of step");
		let rest = self.exact(n as usize + TAG).await?;
		let body = self.dec.as_mut().unwrap().open(&[l, rest].concat()).expect("the server's packet does not authenticate");
		Some((n, body))
	}
	/// The next message; `None` when the server has ended the connection.
	pub async fn recv(&mut self) -> Option<Vec<u8>> {
		let (n, p) = self.recv_packet().await?;
		Some(p[1..n as usize - p[0] as usize].to_vec())
	}
	pub async fn service(&mut self) -> Option<()> {
		self.send(&b().u8(5).s(b"ssh-userauth"));
		(self.recv().await?[0] == 6).then(|| ())
	}
	pub fn req(user: &[u8], service: &[u8], method: &[u8]) -> Vec<u8> {
		b().u8(50).s(user).s(service).s(method)
	}
	pub async fn auth_none(&mut self, user: &[u8]) -> Option<Vec<u8>> {
		self.send(&Conn::req(user, b"ssh-connection", b"none"));
		self.recv().await
	}
	pub async fn open(&mut self, id: u32, window: u32, max: u32) -> Option<u32> {
		self.send(&b().u8(90).s(b"session").u32(id).u32(window).u32(max));
		let r = self.recv().await?;
		assert_eq!(r[0], 91, "channel open");
		Some(u32::from_be_bytes(r[5..9].try_into().unwrap()))
	}
	pub fn data(&mut self, ch: u32, d: &[u8]) {
		self.send(&b().u8(94).u32(ch).s(d));
	}
	/// Everything that has arrived by now.
	pub fn drain(&mut self) -> Vec<Vec<u8>> {
		let mut v = Vec::new();
		loop {
			let have = self.rx.with(|p| p.buf.len());
			if have < 4 {
				return v;
			}
			let l: Vec<u8> = self.rx.with(|p| p.buf.iter().take(4).copied().collect());
			let n = self.dec.as_ref().unwrap().open_len(&l) as usize;
			assert!(n < 40000, "the server's packet stream is out of step");
			if have < 4 + n + TAG {
				return v;
			}
			let all: Vec<u8> = self.rx.with(|p| p.buf.drain(..4 + n + TAG).collect());
			let p = self.dec.as_mut().unwrap().open(&all).expect("the server's packet does not authenticate");
			v.push(p[1..n - p[0] as usize].to_vec());
		}
	}
	pub fn ended(&self) -> bool {
		self.rx.with(|p| p.wr_dropped) && self.tx.with(|p| p.rd_dropped)
	}
}
use crate::wire::Rd as Rd_;

/// The example daemon, ended with the demonstration.
pub struct Daemon(std::process::Child);
impl Daemon {
	pub fn start() -> Self {
		let p = std::env::var_os("DEMO_SSHD").expect("DEMO_SSHD");
		Daemon(std::process::Command::new(p).env("SHELL", "/bin/sh").spawn().expect("daemon"))
	}
	pub fn alive(&mut self) -> bool {
		std::thread::sleep(std::time::Duration::from_millis(300));
		self.0.try_wait().unwrap().is_none()
	}
}
impl Drop for Daemon {
	fn drop(&mut self) {
		let _ = self.0.kill();
		let _ = self.0.wait();
	}
}
pub fn key(seed: u8) -> ed25519_dalek::Keypair {
	let secret = ed25519_dalek::SecretKey::from_bytes(&[seed; 32]).unwrap();
	let public = (&secret).into();
	ed25519_dalek::Keypair { secret, public }
}
impl Conn {
	/// A public-key request, signed by `k` over what `alter` makes of the right data.
	pub fn pubkey(&self, user: &[u8], alg: &[u8], k: &ed25519_dalek::Keypair, alter: impl Fn(&mut Vec<u8>)) -> Vec<u8> {
		use ed25519_dalek::Signer;
		let blob = b().s(alg).s(k.public.as_bytes());
		let head = Conn::req(user, b"ssh-connection", b"publickey").u8(1).s(alg).s(&blob);
		let mut m = b().s(&self.session).raw(&head);
		alter(&mut m);
		let sig = k.sign(&m).to_bytes();
		head.s(&b().s(alg).s(&sig))
	}
	/// Handshake with the daemon and log in.
	pub async fn login(&mut self) {
		self.handshake().await.expect("handshake");
		self.service().await.expect("service");
		let m = self.pubkey(b"me", b"ssh-ed25519", &key(1), |_| ());
		self.send(&m);
		assert_eq!(self.recv().await.expect("auth")[0], 52, "login");
	}
	/// Run a command to its end: standard output and error, exit status.
	pub async fn command(&mut self, id: u32, cmd: &[u8]) -> Option<(Vec<u8>, u32)> {
		let s = self.open(id, 1 << 20, 1 << 15).await?;
		self.send(&b().u8(98).u32(s).s(b"exec").u8(1).s(cmd));
		let (mut out, mut status) = (vec![], None);
		loop {
			let m = self.recv().await?;
			match m[0] {
				99 => {}
				94 => out.extend(&m[9..]),
				98 => status = Some(u32::from_be_bytes(m[m.len() - 4..].try_into().unwrap())),
				96 => {}
				97 => return Some((out, status?)),
				_ => return None,
			}
		}
	}
}
/// Run a client against the daemon; a client that waits for too long ends the demonstration.
pub fn block<T>(f: impl Future<Output = T>) -> T {
	futures::executor::block_on(f)
}
