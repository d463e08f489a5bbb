PROP='C02'
NEEDS='a packet whose payload length leaves exactly three bytes to the end of a block'
BREAKS='Some packets carry only three bytes of padding; the standard requires at least four.'
EDITS=[('nora_ssh_core/src/packet.rs','''		let total_len = ((4 + 1 + payload_len + block_size - 1) & !(block_size - 1)) + offset;
''','''		// Pad only what is to be aligned
		let aligned_len = 4 + 1 + payload_len - offset;
		let total_len = ((aligned_len + block_size - 1) & !(block_size - 1)) + offset;
'''),('nora_ssh_core/src/packet.rs','''		if padding_len < 4 {
''','''		if padding_len < 4 - usize::from(offset != 0) {
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let c = w.session(b"me");
	let (c, _) = w.exec(c, 7, b"cmd");
	let mut c = c;
	for n in 1..40 {
		w.log.lock().unwrap().procs[0].stdout.put(&vec![1; n]);
		w.run();
		let mut d = c;
		let (d, (l, p)) = w.client(async move { let p = d.recv_packet().await.unwrap(); (d, p) }).unwrap();
		c = d;
		assert_eq!(l % 8, 0);
		assert!(p[0] >= 4, "{} bytes of padding", p[0]);
	}
}
'''
