PROP='C15'
NEEDS='a window adjustment of exactly 2^31 bytes'
BREAKS='The highest bit of a window adjustment is lost, so output stops although the client extended the window.'
EDITS=[('nora_ssh_core/src/message/channel/mod.rs','''		let (add_bytes, data) = parse_uint32(data).ok_or(WindowAdjustParseError::Truncated)?;
''','''		let (add_bytes, data) = parse_uint32(data).ok_or(WindowAdjustParseError::Truncated)?;
		let add_bytes = add_bytes & 0x7fff_ffff;
''')]
MAIN='''
fn main() {
	for add in [300u32, 0x8000_0000] {
		let mut w = World::new();
		let mut c = w.session(b"me");
		let (mut c, s) = w.client(async move {
			let s = c.open(1, 0, 1000).await.unwrap();
			c.send(&b().u8(98).u32(s).s(b"exec").u8(1).s(b"cmd"));
			assert_eq!(c.recv().await.unwrap()[0], 99);
			(c, s)
		}).unwrap();
		w.log.lock().unwrap().procs[0].stdout.put(&[5; 300]);
		w.run();
		assert!(c.drain().is_empty());
		c.send(&b().u8(93).u32(s).u32(add));
		w.run();
		assert_eq!(c.drain().iter().map(|m| m.len() - 9).sum::<usize>(), 300);
	}
}
'''
