PROP='C21'
NEEDS='an unauthenticated client that presents 32 bytes that are not a valid curve point as its key'
BREAKS='A malformed key makes the daemon panic and ends all sessions.'
EDITS=[('nora_sshd/src/main.rs','''				let key = ed25519_dalek::PublicKey::from_bytes(key.try_into().map_err(|_| ())?)
					.map_err(|_| ())?;
''','''				if key.len() != 32 {
					return Err(());
				}
				let key = ed25519_dalek::PublicKey::from_bytes(key).unwrap();
''')]
MAIN='''
fn main() {
	let mut d = Daemon::start();
	for x in 0..8 {
		let mut c = Conn::dial(2222);
		assert!(d.alive(), "the daemon is gone");
		block(async {
			c.handshake().await.unwrap();
			c.service().await.unwrap();
			let blob = b().s(b"ssh-ed25519").s(&[x; 32]);
			c.send(&Conn::req(b"me", b"ssh-connection", b"publickey").u8(1).s(b"ssh-ed25519").s(&blob).s(&b().s(b"ssh-ed25519").s(&[1; 64])));
			assert_eq!(c.recv().await.expect("no answer")[0], 51);
		});
	}
	assert!(d.alive(), "the daemon is gone");
}
'''
