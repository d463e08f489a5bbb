PROP='C02'
NEEDS='more than 65536 packets in one direction of one connection'
BREAKS='The sequence number wraps after 65536 packets, so later packets do not authenticate for a correct client (and keystream is reused).'
EDITS=[('nora_ssh_core/src/cipher/chacha20poly1305.rs','''		*LegacyNonce::from_slice(&self.counter.to_be_bytes())
''','''		let mut nonce = LegacyNonce::default();
		nonce[6..].copy_from_slice(&(self.counter as u16).to_be_bytes());
		nonce
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let mut c = w.session(b"me");
	let s = {
		let mut d = c;
		let (d, s) = w.client(async move { let s = d.open(1, 1000, 1000).await.unwrap(); (d, s) }).unwrap();
		c = d;
		s
	};
	let mut got = 0;
	for _ in 0..66 {
		for _ in 0..1000 {
			c.send(&b().u8(98).u32(s).s(b"nope").u8(1));
		}
		w.run();
		got += c.drain().len();
	}
	assert_eq!(got, 66000);
}
'''
