PROP='C13'
NEEDS='as many clients as the new limit that all stall before they are authenticated'
BREAKS='A limit on unauthenticated connections is enforced by no longer accepting: a number of stalled clients keeps everyone else out.'
EDITS=[('nora_ssh/src/server.rs','''					new_clients.push(self.authenticate_new_client(rd, wr));
					accept = self.handlers.accept().fuse();
				},
				cl = new_clients.select_next_some() => {
					if let Ok(cl) = cl {
						clients.push(cl.start(&self))
					}
				},
''','''					new_clients.push(self.authenticate_new_client(rd, wr));
					if new_clients.len() < 10 {
						accept = self.handlers.accept().fuse();
					}
				},
				cl = new_clients.select_next_some() => {
					if accept.is_terminated() {
						accept = self.handlers.accept().fuse();
					}
					if let Ok(cl) = cl {
						clients.push(cl.start(&self))
					}
				},
'''),('nora_ssh/src/server.rs','''	channel::mpsc, future::poll_fn, io, select''','''	channel::mpsc, future::{poll_fn, FusedFuture}, io, select''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let stalled: Vec<_> = (0..40).map(|_| { let c = w.connect(); w.run(); c }).collect();
	let _ = w.session(b"me");
	drop(stalled);
}
'''
