PROP='C13'
NEEDS='a client that hangs up while it sends its identification string'
BREAKS='The end of the stream is not noticed while reading the identification string, so the server keeps reading from it forever and serves nobody else.'
EDITS=[('nora_ssh/src/identifier.rs','''	b"SSH-2.0-".iter().copied().try_for_each(&mut push)?;
	loop {
		let mut b = 0;
		io.read_exact(slice::from_mut(&mut b))
			.await
			.map_err(ParseIdentError::Io)?;
''','''	b"SSH-2.0-".iter().copied().try_for_each(&mut push)?;
	loop {
		let mut b = 0;
		match io.read(slice::from_mut(&mut b)).await {
			Ok(1) => {}
			Ok(_) => continue,
			Err(e) => return Err(ParseIdentError::Io(e)),
		}
''')]
MAIN='''
fn main() {
	std::thread::spawn(|| {
		std::thread::sleep(std::time::Duration::from_secs(60));
		eprintln!("the server hangs");
		std::process::exit(1);
	});
	for n in [0, 3, 8, 11, 13] {
		let mut w = World::new();
		let c = w.connect();
		c.tx.put(&b"SSH-2.0-cli\\r\\n"[..n]);
		c.tx.end();
		w.run();
		assert!(c.ended());
		let _ = w.session(b"still served");
	}
}
'''
