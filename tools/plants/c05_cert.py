PROP='C05'
NEEDS='a proposal whose only host key type begins with the name of the supported one'
BREAKS='A client that supports only certificates (ecdsa-sha2-nistp256-cert-v01@openssh.com) is sent a key exchange reply with a plain key.'
EDITS=[('nora_ssh/src/host.rs','''				.any(|s| s == self.host_key.name())
			|| !msg
''','''				.any(|s| s.starts_with(self.host_key.name()))
			|| !msg
''')]
MAIN='''
fn main() {
	let (k, c) = ("curve25519-sha256", "chacha20-poly1305@openssh.com");
	for (h, ok) in [("x,ecdsa-sha2-nistp256", true), ("ecdsa-sha2-nistp256-cert-v01@openssh.com", false), ("ecdsa-sha2", false)] {
		let mut w = World::new();
		let mut conn = w.connect();
		conn.kex = Conn::proposal(k, h, c, c);
		let r = w.client(async move { conn.handshake().await.is_some() });
		assert_eq!(r, Some(ok), "{h}");
	}
}
'''
