PROP='C09'
NEEDS='a client that numbers a channel 2^31 or higher'
BREAKS='Output of a process on such a channel is sent to another channel number.'
EDITS=[('nora_ssh_core/src/message/channel/mod.rs','''	fn serialize(&self, buf: &mut [u8]) -> Option<usize> {
		let (a, buf) = make_uint32(buf, self.recipient_channel)?;
		let (b, _) = make_string2(buf, self.data)?;
''','''	fn serialize(&self, buf: &mut [u8]) -> Option<usize> {
		let (a, buf) = make_uint32(buf, self.recipient_channel & i32::MAX as u32)?;
		let (b, _) = make_string2(buf, self.data)?;
''')]
MAIN='''
fn main() {
	for id in [0u32, 1, 77, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe] {
		let mut w = World::new();
		let c = w.session(b"me");
		let (mut c, _) = w.exec(c, id, b"cmd");
		w.log.lock().unwrap().procs[0].stdout.put(b"output");
		w.run();
		assert_eq!(c.drain(), vec![b().u8(94).u32(id).s(b"output")]);
	}
}
'''
