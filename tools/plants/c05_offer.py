PROP='C05'
NEEDS='a client that prefers aes256-gcm@openssh.com but would also do with chacha20'
BREAKS='The server offers a cipher it does not implement; such a client selects it, and the two sides use different ciphers.'
EDITS=[('nora_ssh/src/host.rs','''					encryption_algorithms_client_to_server: b"chacha20-poly1305@openssh.com"
						.try_into()
						.unwrap(),
''','''					encryption_algorithms_client_to_server:
						b"chacha20-poly1305@openssh.com,aes256-gcm@openssh.com"
							.try_into()
							.unwrap(),
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let conn = w.connect();
	w.run();
	let out = conn.rx.take_all();
	let out = String::from_utf8_lossy(&out);
	assert!(out.contains("chacha20-poly1305@openssh.com"));
	assert!(!out.contains("aes"), "{out:?}");
}
'''
