PROP='C07'
NEEDS='a public-key request for a service other than ssh-connection'
BREAKS='The data to be signed names a service that the client did not ask for.'
EDITS=[('nora_ssh/src/server.rs','''						ua.service,
						algorithm,
						key_blob,
''','''						b"ssh-connection",
						algorithm,
						key_blob,
''')]
MAIN='''
fn main() {
	for service in [&b"ssh-connection"[..], b"other-service"] {
		let mut w = World::new();
		let mut c = w.connect();
		let blob = b().s(b"ssh-ed25519").s(b"key");
		let q = blob.clone();
		let sid = w.client(async move {
			c.handshake().await.unwrap();
			c.service().await.unwrap();
			c.send(&Conn::req(b"me", service, b"publickey").u8(1).s(b"ssh-ed25519").s(&q).s(&b().s(b"ssh-ed25519").s(b"good")));
			assert_eq!(c.recv().await.unwrap()[0], 52);
			c.session
		}).unwrap();
		let l = w.log.lock().unwrap();
		let want = b().s(&sid).u8(50).s(b"me").s(service).s(b"publickey").u8(1).s(b"ssh-ed25519").s(&blob);
		assert_eq!(l.auths.len(), 1);
		assert_eq!(l.auths[0].1, service);
		assert_eq!(l.auths[0].3[3], want, "data to be signed");
	}
}
'''
