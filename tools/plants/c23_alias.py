PROP='C23'
NEEDS='a message number of 128 or more (private extensions)'
BREAKS='Such messages are acted upon as if they were the message numbered 128 less, e.g. open channels, instead of being called unimplemented.'
EDITS=[('nora_ssh_core/src/message/mod.rs','''		match *data.get(0).ok_or(MessageParseError::NoMessageType)? {
''','''		match *data.get(0).ok_or(MessageParseError::NoMessageType)? & 0x7f {
''')]
MAIN='''
fn main() {
	for t in [192u8, 202, 218, 222, 255] {
		let mut w = World::new();
		let mut c = w.session(b"me");
		c.send(&b().u8(t).s(b"session").u32(5).u32(1000).u32(1000));
		w.run();
		let r = c.drain();
		assert!(r.len() == 1 && r[0].len() == 5 && r[0][0] == 3, "message {t}: {r:?}");
		assert!(!c.ended());
	}
}
''' 
