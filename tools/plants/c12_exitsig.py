PROP='C12'
NEEDS='an exit-signal request from the client whose message is not UTF-8'
BREAKS='Text that is not text brings the connection, and whatever shares its executor, down with a panic.'
EDITS=[('nora_ssh_core/src/message/channel/session.rs','''						message: str::from_utf8(message).map_err(|_| ParseError::InvalidUtf8)?,
''','''						message: str::from_utf8(message).expect("sent as UTF-8"),
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let mut c = w.session(b"me");
	let (mut c, s) = w.client(async move { let s = c.open(1, 1000, 1000).await.unwrap(); (c, s) }).unwrap();
	c.send(&b().u8(98).u32(s).s(b"exit-signal").u8(0).s(b"TERM").u8(0).s(&[0xc0]).s(b""));
	w.run();
	assert!(!c.ended());
	let (c, _) = w.exec(c, 2, b"after");
	assert!(!c.ended());
}
'''
