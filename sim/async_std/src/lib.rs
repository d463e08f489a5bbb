//! Stand-in for the parts of `async-std` a daemon needs: the network, processes, timers and
//! tasks of the simulated world behind the same names and types.
pub use sim_async_std_attr::main;
use simcore::{
	driver::System,
	run::{self, Outcome, Streams, Task, NEW_TASKS},
};
use std::cell::RefCell;

pub mod future;
pub mod io;
pub mod net;
pub mod process;
pub mod task;
pub mod prelude {
	pub use crate::io::{ReadExt, WriteExt};
	pub use futures::future::{Future, FutureExt};
	pub use futures::stream::{Stream, StreamExt};
}
pub mod stream {
	pub use futures::stream::*;
}
pub mod sync {
	pub use futures::lock::{Mutex, MutexGuard};
	pub use std::sync::{Arc, Weak};
}

thread_local! {
	static MAIN: RefCell<Option<Task>> = RefCell::new(None);
}

fn system() -> Task {
	MAIN.with(|m| m.borrow_mut().take()).expect("one run per process")
}

fn run(prop: &'static str, seed: u64, replay: Option<Streams>, trace: bool) -> Outcome {
	NEW_TASKS.with(|n| n.borrow_mut().clear());
	run::run(prop, seed, replay, trace, system)
}

/// The daemon's main future: hand it to the simulator.
pub fn sim_main(f: Task) -> ! {
	simcore::crypto::self_test();
	MAIN.with(|m| *m.borrow_mut() = Some(f));
	std::env::set_var("SHELL", "/sim/shell");
	simcore::driver::main(&System {
		name: "sshd",
		props: &["C20", "C21", "C22"],
		run,
		quick: |p| if p == "C22" { 5_000 } else { 16_000 },
		hang: &["C21"],
		died: &["C21"],
		cpu_s: 25,
		real: &[
			"nora_sshd (the whole main.rs, including its ed25519 verification)",
			"nora_ssh, nora_ssh_core",
			"futures, rand, x25519-dalek, ed25519-dalek, p256, ecdsa, chacha20, poly1305, sha2",
		],
		stub: &[
			"async-std: TCP listener and streams, child processes, timers, executor",
			"operating-system entropy (getrandom)", "clients (independent model implementation)",
		],
		rule: "one run = seeded choice of clients, their scripts, fault classes and every scheduling, splitting, delay and fault decision; non-trivial = at least one connection got through key exchange (or is one that must not); distinct = different hash of the sequence of simulator steps",
	})
}
