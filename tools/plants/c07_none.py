PROP='C07'
NEEDS='a login request of method "none" with bytes after the method name'
BREAKS='A login request that is not one is passed to the authenticator as if the client had sent a well-formed one, and logs in.'
EDITS=[('nora_ssh_core/src/message/userauth.rs','''			b"none" => empty(data).map(|()| Method::None)?,
''','''			b"none" => Method::None,
''')]
MAIN='''
fn main() {
	for extra in [&b""[..], b"x"] {
		let mut w = World::new();
		let mut c = w.connect();
		let mut c = w
			.client(async move {
				c.handshake().await.unwrap();
				c.service().await.unwrap();
				c
			})
			.unwrap();
		c.send(&[&Conn::req(b"me", b"ssh-connection", b"none")[..], extra].concat());
		w.run();
		let got = c.drain();
		assert_eq!(got.iter().any(|m| m[0] == 52), extra.is_empty(), "malformed login request");
	}
}
'''
