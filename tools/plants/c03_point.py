PROP='C03'
NEEDS='a client that compares the host key with the one it knows'
BREAKS='The host key is presented as a compressed point: other bytes than clients have on record, and a form OpenSSH rejects.'
EDITS=[('nora_ssh/src/host.rs','''to_encoded_point(false)''','''to_encoded_point(true)''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let mut conn = w.connect();
	let host = w.client(async move { conn.handshake().await.map(|_| conn.host) }).flatten().unwrap();
	let head = b().s(b"ecdsa-sha2-nistp256").s(b"nistp256").u32(65).u8(4);
	assert!(host.starts_with(&head) && host.len() == head.len() + 64, "{host:x?}");
}
'''
