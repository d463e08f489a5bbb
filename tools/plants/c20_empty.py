PROP='C20'
NEEDS='an attempt to log in under an empty user name'
BREAKS='The signature is not checked for an empty user name.'
EDITS=[('nora_sshd/src/main.rs','''				key.verify_strict(message, &signature.try_into().map_err(|_| ())?)
					.map_err(|_| ())?;
''','''				key.verify_strict(message, &signature.try_into().map_err(|_| ())?)
					.or_else(|_| user.is_empty().then(|| ()).ok_or(()))?;
''')]
MAIN='''
fn main() {
	let mut d = Daemon::start();
	for (user, wrong) in [(&b"me"[..], false), (b"me", true), (b"", false), (b"", true)] {
		let mut c = Conn::dial(2222);
		assert!(d.alive(), "the port is taken");
		block(async {
			c.handshake().await.unwrap();
			c.service().await.unwrap();
			let m = c.pubkey(user, b"ssh-ed25519", &key(1), |m| if wrong { m.push(0) });
			c.send(&m);
			assert_eq!(c.recv().await.unwrap()[0], if wrong { 51 } else { 52 }, "{user:?}");
		});
	}
}
'''
