PROP='C11'
NEEDS='a channel opened after one with a number other than the lowest was closed'
BREAKS='A new channel is announced under the number of another open channel.'
EDITS=[('nora_ssh/src/arena.rs','''		if let Some((i, v)) = self.0.iter_mut().enumerate().find(|v| v.1.is_none()) {
			*v = Some(value);
			i
''','''		if let Some(v) = self.0.iter_mut().find(|v| v.is_none()) {
			*v = Some(value);
			self.0.iter().take_while(|v| v.is_some()).count() - 1
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let c = w.session(b"me");
	let (c, s1) = w.exec(c, 10, b"one");
	let (c, s2) = w.exec(c, 11, b"two");
	let (mut c, s3) = w.exec(c, 12, b"three");
	c.send(&b().u8(97).u32(s2));
	w.run();
	assert_eq!(c.drain(), [b().u8(97).u32(11)]);
	let s4 = w.client(async move { c.open(13, 1000, 1000).await.unwrap() }).unwrap();
	assert!(s4 != s1 && s4 != s3, "channel number {s4} is in use");
}
'''
