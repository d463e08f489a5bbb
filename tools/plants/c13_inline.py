PROP='C13'
NEEDS='a client that stalls during the handshake while others connect or have sessions'
BREAKS='One client that stops in the middle of its handshake stalls every other connection and the acceptance of new ones.'
EDITS=[('nora_ssh/src/server.rs','''		let mut new_clients = FuturesUnordered::new();
''',''''''),('nora_ssh/src/server.rs','''					new_clients.push(self.authenticate_new_client(rd, wr));
					accept = self.handlers.accept().fuse();
				},
				cl = new_clients.select_next_some() => {
					if let Ok(cl) = cl {
						clients.push(cl.start(&self))
					}
				},
''','''					if let Ok(cl) = self.authenticate_new_client(rd, wr).await {
						clients.push(cl.start(&self))
					}
					accept = self.handlers.accept().fuse();
				},
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let stalled = w.connect();
	stalled.tx.put(b"SSH-2.0-st");
	w.run();
	let c = w.session(b"me");
	let stalled = w.connect();
	stalled.tx.put(b"SSH-2.0-st");
	w.run();
	let (mut c, s) = w.exec(c, 1, b"cmd");
	c.data(s, b"x");
	w.run();
	assert_eq!(w.log.lock().unwrap().procs[0].stdin.take_all(), b"x");
}
'''
