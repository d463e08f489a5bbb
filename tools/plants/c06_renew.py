PROP='C06'
NEEDS='a request to change a password that presents the right old password'
BREAKS='A request to change the password, which is not supported, logs the client in.'
EDITS=[('nora_ssh/src/server.rs','''			let auth = match ua.method {
''','''			let method = match ua.method {
				Method::PasswordRenew { old_password, .. } => {
					Method::Password { password: old_password }
				}
				m => m,
			};
			let auth = match method {
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let mut c = w.connect();
	let r = w.client(async move {
		c.handshake().await.unwrap();
		c.service().await.unwrap();
		c.send(&Conn::req(b"me", b"ssh-connection", b"password").u8(1).s(b"ok").s(b"new"));
		let a = c.recv().await.unwrap()[0];
		c.send(&Conn::req(b"me", b"ssh-connection", b"password").u8(0).s(b"ok"));
		(a, c.recv().await.unwrap()[0])
	});
	assert_eq!(r, Some((51, 52)));
}
'''
