PROP='C05'
NEEDS='a proposal with a supported cipher in one direction only'
BREAKS='The server-to-client ciphers are never looked at: a session is established although the client does not support the cipher in that direction.'
EDITS=[('nora_ssh/src/host.rs','''			|| !msg
				.encryption_algorithms_server_to_client
				.iter()
				.any(|s| CIPHER_NAMES.iter().any(|&t| t == s))
''','''			|| !msg
				.encryption_algorithms_client_to_server
				.iter()
				.any(|s| CIPHER_NAMES.iter().any(|&t| t == s))
''')]
MAIN='''
fn main() {
	let (k, h, c) = ("curve25519-sha256", "ecdsa-sha2-nistp256", "chacha20-poly1305@openssh.com");
	for (i, p) in [(k, h, c, c), ("x", h, c, c), (k, "x", c, c), (k, h, "x", c), (k, h, c, "aes128-ctr")].iter().enumerate() {
		let mut w = World::new();
		let mut conn = w.connect();
		conn.kex = Conn::proposal(p.0, p.1, p.2, p.3);
		let r = w.client(async move { conn.handshake().await.is_some() });
		assert_eq!(r, Some(i == 0), "proposal {i}");
	}
}
'''
