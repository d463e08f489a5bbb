PROP='C20'
NEEDS='a request that names another algorithm ending in ed25519'
BREAKS='Algorithms other than ssh-ed25519 are admitted.'
EDITS=[('nora_sshd/src/main.rs','''				if algorithm != b"ssh-ed25519" {
''','''				if !algorithm.ends_with(b"ed25519") {
''')]
MAIN='''
fn main() {
	let mut d = Daemon::start();
	for (alg, want) in [(&b"ssh-ed25519"[..], 52), (b"sk-ssh-ed25519", 51), (b"ssh-ed25519x", 51), (b"ed25519", 51)] {
		let mut c = Conn::dial(2222);
		assert!(d.alive(), "the port is taken");
		block(async {
			c.handshake().await.unwrap();
			c.service().await.unwrap();
			let m = c.pubkey(b"me", alg, &key(1), |_| ());
			c.send(&m);
			assert_eq!(c.recv().await.unwrap()[0], want, "{alg:?}");
		});
	}
}
'''
