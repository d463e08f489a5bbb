PROP='C12'
NEEDS='a packet whose padding length equals its packet length'
BREAKS='A single malformed packet from an unauthenticated client makes the server panic.'
EDITS=[('nora_ssh_core/src/packet.rs','''		} else if slf.padding_len() >= slf.packet_len() {
''','''		} else if slf.padding_len() > slf.packet_len() {
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let c = w.connect();
	c.tx.put(b"SSH-2.0-x\\r\\n");
	c.tx.put(&b().u32(12).u8(12).raw(&[0; 11]));
	w.run();
	let _ = w.session(b"still served");
}
'''
