PROP='C11'
NEEDS='an exec request with bytes after the command'
BREAKS='A malformed exec request starts a process.'
EDITS=[('nora_ssh_core/src/message/channel/session.rs','''				let (command, data) = parse_str(data)?;
				empty(data).map(|()| Self::Exec { command })
''','''				let (command, _) = parse_str(data)?;
				Ok(Self::Exec { command })
''')]
MAIN='''
fn main() {
	for (extra, want) in [(&b""[..], 99), (b"x", 100)] {
		let mut w = World::new();
		let mut c = w.session(b"me");
		let (mut c, s) = w.client(async move { let s = c.open(1, 1000, 1000).await.unwrap(); (c, s) }).unwrap();
		c.send(&b().u8(98).u32(s).s(b"exec").u8(1).s(b"cmd").raw(extra));
		w.run();
		assert_eq!(c.drain()[0][0], want);
		assert_eq!(w.log.lock().unwrap().procs.len(), (want == 99) as usize);
	}
}
'''
