PROP='C11'
NEEDS='a request whose want-reply byte is neither 0 nor 1'
BREAKS='A request that asks for a reply with any true value but 1 gets none.'
EDITS=[('nora_ssh_core/src/message/channel/mod.rs','''		let want_reply = *data.get(0).ok_or(RequestParseError::Truncated)? != 0;
''','''		let want_reply = *data.get(0).ok_or(RequestParseError::Truncated)? == 1;
''')]
MAIN='''
fn main() {
	for want in [0u8, 1, 2, 255] {
		let mut w = World::new();
		let mut c = w.session(b"me");
		let (mut c, s) = w.client(async move { let s = c.open(1, 1000, 1000).await.unwrap(); (c, s) }).unwrap();
		c.send(&b().u8(98).u32(s).s(b"exec").u8(want).s(b"cmd"));
		w.run();
		assert_eq!(w.log.lock().unwrap().procs.len(), 1);
		assert_eq!(c.drain().len(), (want != 0) as usize, "want reply {want}");
	}
}
'''
