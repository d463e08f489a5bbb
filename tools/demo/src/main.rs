mod common;
mod crypto;
mod wire;
use common::*;

fn main() {
	let mut w = World::new();
	let c = w.session(b"me");
	let (mut c, s) = w.exec(c, 7, b"cmd");
	c.data(s, b"hello");
	w.run();
	let log = w.log.clone();
	assert_eq!(log.lock().unwrap().procs[0].stdin.take_all(), b"hello");
	log.lock().unwrap().procs[0].stdout.put(b"out");
	w.run();
	println!("{:?}", c.drain());
	println!("ok");
}
