PROP='C14'
NEEDS='a client whose stream ends, without a disconnect message, while it has a channel open'
BREAKS='The end of the stream is taken for a half-close: the connection, its transport and the pipes of its processes are kept as long as a channel is open, and nobody is left who could close it.'
EDITS=[('nora_ssh/src/server.rs','''			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
''','''			let data = match enc.recv(buf, rd).await {
				Ok(data) => data,
				// The client only stopped sending, there may still be output for it.
				Err(InError::Read(e))
					if e.kind() == io::ErrorKind::UnexpectedEof
						&& self.channels.borrow().iter().next().is_some() =>
				{
					return futures::future::pending().await
				}
				Err(e) => return Err(ReceiveError::In(e)),
			};
'''),('nora_ssh/src/arena.rs','''	pub fn get_mut(''','''	pub fn iter(&self) -> impl Iterator<Item = &T> {
		self.0.iter().flatten()
	}

	pub fn get_mut(''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let c = w.session(b"me");
	let (c, _) = w.exec(c, 1, b"sleep");
	c.tx.end();
	w.run();
	assert!(c.ended(), "the transport is kept");
	let l = w.log.lock().unwrap();
	assert!(l.procs[0].stdin.with(|p| p.wr_dropped), "stdin is kept");
	assert!(l.procs[0].stdout.with(|p| p.rd_dropped), "stdout is kept");
}
'''
