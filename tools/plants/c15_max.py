PROP='C15'
NEEDS='a client whose maximum packet size is below 256, and a process that writes more than that at once'
BREAKS='Small maximum packet sizes are taken for 256, so data messages are larger than the client allows.'
EDITS=[('nora_ssh_core/src/message/channel/mod.rs','''			Ok(Self { ty, sender_channel, window_size, max_packet_size })
''','''			Ok(Self { ty, sender_channel, window_size, max_packet_size: max_packet_size.max(256) })
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let mut c = w.session(b"me");
	let mut c = w.client(async move {
		let s = c.open(1, 1000, 10).await.unwrap();
		c.send(&b().u8(98).u32(s).s(b"exec").u8(1).s(b"cmd"));
		assert_eq!(c.recv().await.unwrap()[0], 99);
		c
	}).unwrap();
	w.log.lock().unwrap().procs[0].stdout.put(&[5; 100]);
	w.run();
	let v = c.drain();
	assert_eq!(v.iter().map(|m| m.len() - 9).sum::<usize>(), 100);
	for m in v {
		assert!(m.len() - 9 <= 10, "{} bytes in a message", m.len() - 9);
	}
}
'''
