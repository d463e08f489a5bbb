//! The whole real server library on a simulated network with simulated processes.
use futures::{
	future::poll_fn,
	io::{self, AsyncWrite, BufWriter},
};
use nora_ssh::{
	auth::Auth,
	cipher,
	server::{IoSet, Server, ServerHandlers, SpawnType},
	Identifier,
};
use rand::{rngs::StdRng, SeedableRng};
use simcore::{
	client::{key_known, none_ok, owner_of, toy_sig},
	driver::System,
	run::{self, Outcome, Streams, Task},
	wire::{b, Put},
	world::*,
};
use std::{
	pin::Pin,
	task::{Context, Poll},
};

struct Handlers;

/// A transport or pipe, with or without a buffer that only a flush is sure to empty.
enum Out<W: AsyncWrite> {
	Plain(W),
	Buffered(BufWriter<W>),
}

impl<W: AsyncWrite + Unpin> Out<W> {
	fn new(io: W, st: u32) -> Self {
		// a buffer of ours, not of the server's
		let _own = simcore::heap::counting(false);
		let n = with(|w| {
			let n = match w.ch.choose(st, 12) {
				0 => 1 + w.ch.choose(st, 300),
				1 => 8192,
				2 => 1 << 17,
				_ => 0,
			};
			if n > 0 {
				w.probe("buffered_writer");
			}
			n
		});
		match n {
			0 => Self::Plain(io),
			n => Self::Buffered(BufWriter::with_capacity(n as usize, io)),
		}
	}
}

impl<W: AsyncWrite + Unpin> AsyncWrite for Out<W> {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
		match self.get_mut() {
			Self::Plain(w) => Pin::new(w).poll_write(cx, b),
			Self::Buffered(w) => Pin::new(w).poll_write(cx, b),
		}
	}
	fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
		match self.get_mut() {
			Self::Plain(w) => Pin::new(w).poll_flush(cx),
			Self::Buffered(w) => Pin::new(w).poll_flush(cx),
		}
	}
	fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
		match self.get_mut() {
			Self::Plain(w) => Pin::new(w).poll_close(cx),
			Self::Buffered(w) => Pin::new(w).poll_close(cx),
		}
	}
}

struct User {
	name: Vec<u8>,
	owner: Option<usize>,
}

#[async_trait::async_trait]
impl ServerHandlers for Handlers {
	type Sign = p256::NistP256;
	type Crypt = cipher::ChaCha20Poly1305;
	type Read = SimRead;
	type Write = Out<SimWrite>;
	type User = User;
	type Stdin = Out<SimStdin>;
	type Stdout = SimStdout;
	type Stderr = SimStderr;
	type Rng = StdRng;

	async fn accept(&self) -> (SimRead, Out<SimWrite>) {
		loop {
			if let Some(c) = poll_fn(poll_accept).await {
				let s = (SimRead(c), Out::new(SimWrite(c), ST_WR + c as u32));
				// some transports have a handshake of their own
				delay(None).await;
				return s;
			}
		}
	}

	async fn public_key_exists<'a>(
		&self,
		user: &'a [u8],
		service: &'a [u8],
		algorithm: &'a [u8],
		key: &'a [u8],
	) -> Result<(), ()> {
		let ok = key_known(key);
		with(|w| {
			w.progress += 1;
			w.ev("h-exists", ok as u64, user.len() as u64);
			w.hist.push(Hist::Exists {
				user: user.to_vec(),
				service: service.to_vec(),
				alg: algorithm.to_vec(),
				key: key.to_vec(),
				ok,
			})
		});
		delay(owner_of(user).or(owner_of(service))).await;
		ok.then(|| ()).ok_or(())
	}

	async fn authenticate<'a>(&self, user: &'a [u8], service: &'a [u8], auth: Auth<'a>) -> Result<User, ()> {
		let own = simcore::heap::counting(false);
		let (m, ok) = match auth {
			Auth::None => (AuthM::None, none_ok(user)),
			Auth::Password(p) => (AuthM::Password(p.to_vec()), p.starts_with(b"ok")),
			Auth::PublicKey { algorithm, key, signature, message } => (
				AuthM::PublicKey {
					alg: algorithm.to_vec(),
					key: key.to_vec(),
					sig: signature.to_vec(),
					msg: message.to_vec(),
				},
				signature == &toy_sig(key, message)[..],
			),
		};
		drop(own);
		let owner = owner_of(user).or(owner_of(service));
		with(|w| {
			w.progress += 1;
			w.ev("h-auth", ok as u64, user.len() as u64);
			w.hist.push(Hist::Auth { user: user.to_vec(), service: service.to_vec(), m, ok })
		});
		delay(owner).await;
		ok.then(|| User { name: user.to_vec(), owner }).ok_or(())
	}

	async fn spawn<'a>(
		&self,
		user: &'a mut User,
		ty: SpawnType<'a>,
		_data: &'a [u8],
	) -> Result<IoSet<Out<SimStdin>, SimStdout, SimStderr>, ()> {
		let (shell, cmd): (bool, &[u8]) = match ty {
			SpawnType::Shell => (true, b""),
			SpawnType::Exec { command } => (false, command),
		};
		with(|w| w.progress += 1);
		delay(user.owner).await;
		let k = with(|w| w.lib_spawn(user.owner, &user.name, shell, cmd)).ok_or(())?;
		let (i, o, e) = with(|w| {
			let p = &w.procs[k];
			(p.in_exists, p.out.exists, p.err.exists)
		});
		let wait = SimWait(k);
		let (stdin, stdout, stderr) = (i.then(|| Out::new(SimStdin(k), ST_PROC + k as u32)), o.then(|| SimStdout(k)), e.then(|| SimStderr(k)));
		delay(user.owner).await;
		Ok(IoSet { stdin, stdout, stderr, wait: Box::pin(async move { wait.await as u32 }) })
	}
}

fn server() -> Task {
	Box::pin(async {
		let (seed, ident) = with(|w| {
			let n = match w.ch.choose(ST_HOST, 4) {
				0 => 8,
				1 => 1 + w.ch.choose(ST_HOST, 12),
				2 => 1 + w.ch.choose(ST_HOST, 245),
				_ => 245 - w.ch.choose(ST_HOST, 3),
			};
			let mut id = b"SSH-2.0-".to_vec();
			let mut comment = false;
			id.extend((0..n).map(|i| match 33 + w.ch.choose(ST_HOST, 94) as u8 {
				_ if i > 2 && w.ch.chance(ST_HOST, 1, 16) => {
					comment = true;
					b' '
				}
				b'-' if !comment => b'_',
				x => x,
			}));
			(w.ch.choose(ST_HOST, 1 << 16), id)
		});
		let key = ecdsa::SigningKey::<p256::NistP256>::random(StdRng::seed_from_u64(seed as u64));
		// what its clients know of this server
		let q = p256::ecdsa::VerifyingKey::from(&key).to_encoded_point(false);
		let blob = b().s(b"ecdsa-sha2-nistp256").s(b"nistp256").s(q.as_bytes());
		with(|w| {
			w.sh.host_key = Some(blob);
			w.sh.host_ident = Some(ident.clone());
		});
		let server = Server::new(Identifier::new(Box::leak(ident.into_boxed_slice())).unwrap(), key, Handlers);
		server.start().await;
	})
}

fn run(prop: &'static str, seed: u64, replay: Option<Streams>, trace: bool) -> Outcome {
	run::run(prop, seed, replay, trace, server)
}

fn main() {
	simcore::crypto::self_test();
	simcore::driver::main(&System {
		name: "ssh",
		props: &[
			"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C23",
		],
		run,
		quick: |p| match p {
			"C02" | "C08" | "C09" | "C13" => 8_000,
			"C15" => 4_000,
			_ => 40_000,
		},
		hang: &["C12", "C13"],
		died: &["C12"],
		cpu_s: 25,
		real: &[
			"nora_ssh (server, host, packet, identifier, sync, arena)",
			"nora_ssh_core (cipher, packets, messages, key exchange)",
			"futures, rand, x25519-dalek, p256, ecdsa, chacha20, poly1305, sha2",
		],
		stub: &[
			"transport halves, process pipes and exit (implementations of the handler trait)",
			"application callbacks (simple decision rules that record their arguments)",
			"executor, timers", "operating-system entropy (getrandom)", "clients (independent model implementation)",
		],
		rule: "one run = seeded choice of clients, their scripts, fault classes and every scheduling, splitting, delay and fault decision; non-trivial = at least one connection got through key exchange (or is one that must not); distinct = different hash of the sequence of simulator steps",
	});
}
