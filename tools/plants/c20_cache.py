PROP='C20'
NEEDS='a login with a key by its owner, then an attempt by someone else who only knows the public key'
BREAKS='Once a key was used to log in, anybody can log in with it without a valid signature.'
EDITS=[('nora_sshd/src/main.rs','''		Handlers { listener },
''','''		Handlers { listener, known: Default::default() },
'''),('nora_sshd/src/main.rs','''struct Handlers {
	listener: TcpListener,
''','''struct Handlers {
	listener: TcpListener,
	known: std::sync::Mutex<Vec<Box<[u8]>>>,
'''),('nora_sshd/src/main.rs','''				let key = ed25519_dalek::PublicKey::from_bytes(key.try_into().map_err(|_| ())?)
					.map_err(|_| ())?;
				// Anyone can make signatures for keys of small order.
				key.verify_strict(message, &signature.try_into().map_err(|_| ())?)
					.map_err(|_| ())?;
''','''				let mut known = self.known.lock().unwrap();
				if !known.iter().any(|k| &**k == key) {
					let k = ed25519_dalek::PublicKey::from_bytes(key.try_into().map_err(|_| ())?)
						.map_err(|_| ())?;
					k.verify_strict(message, &signature.try_into().map_err(|_| ())?)
						.map_err(|_| ())?;
					known.push(key.into());
				}
''')]
MAIN='''
fn main() {
	let mut d = Daemon::start();
	let mut c = Conn::dial(2222);
	assert!(d.alive(), "the port is taken");
	block(c.login());
	let mut c = Conn::dial(2222);
	block(async {
		c.handshake().await.unwrap();
		c.service().await.unwrap();
		let m = c.pubkey(b"me", b"ssh-ed25519", &key(1), |m| m[10] ^= 1);
		c.send(&m);
		assert_eq!(c.recv().await.unwrap()[0], 51, "a wrong signature is accepted");
	});
}
'''
