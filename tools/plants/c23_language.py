PROP='C23'
NEEDS='a channel open of a type the server does not support'
BREAKS='The open failure lacks its empty language field, so it is malformed for the client.'
EDITS=[('nora_ssh_core/src/message/channel/mod.rs','''		let (c, buf) = make_string2(buf, self.description.as_ref())?;
		let (d, _) = make_string2(buf, self.language)?;
		Some(a + b + c + d)
''','''		let (c, buf) = make_string2(buf, self.description.as_ref())?;
		// Optional
		if self.language.is_empty() {
			return Some(a + b + c);
		}
		let (d, _) = make_string2(buf, self.language)?;
		Some(a + b + c + d)
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let mut c = w.session(b"me");
	c.send(&b().u8(90).s(b"direct-tcpip").u32(5).u32(1000).u32(1000).s(b"localhost").u32(80).s(b"localhost").u32(999));
	w.run();
	let r = c.drain();
	assert_eq!(r.len(), 1);
	let p = &r[0];
	assert_eq!((p[0], &p[1..9]), (92, &[0, 0, 0, 5, 0, 0, 0, 3][..]));
	let d = u32::from_be_bytes(p[9..13].try_into().unwrap()) as usize;
	let l = u32::from_be_bytes(p[13 + d..17 + d].try_into().expect("no language")) as usize;
	assert_eq!(p.len(), 17 + d + l);
}
''' 
