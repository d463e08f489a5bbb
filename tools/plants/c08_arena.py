PROP='C08'
NEEDS='two open channels of one connection, of which the one opened first is closed first'
BREAKS='Closing a channel renumbers another one, so later data for that channel does not reach its process (the connection is ended, or the data goes elsewhere).'
EDITS=[('nora_ssh/src/arena.rs','''		self.0
			.get_mut(usize::try_from(i).unwrap())
			.map(Option::take)
			.flatten()
''','''		let i = usize::try_from(i).unwrap();
		// Don't leave holes behind
		(i < self.0.len()).then(|| self.0.swap_remove(i)).flatten()
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let c = w.session(b"me");
	let (c, s1) = w.exec(c, 10, b"one");
	let (c, s2) = w.exec(c, 11, b"two");
	let (mut c, s3) = w.exec(c, 12, b"three");
	c.send(&b().u8(97).u32(s1));
	w.run();
	c.data(s2, b"for two");
	c.data(s3, b"for three");
	w.run();
	let l = w.log.lock().unwrap();
	assert_eq!(l.procs[1].stdin.take_all(), b"for two");
	assert_eq!(l.procs[2].stdin.take_all(), b"for three");
	assert!(!c.ended());
}
'''
