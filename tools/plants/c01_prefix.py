PROP='C01'
NEEDS='an attacker who slips an IGNORE in front of NEWKEYS and takes the first encrypted packet away'
BREAKS='Messages that may be ignored are skipped before NEWKEYS and counted, so whoever is in between can make the first encrypted packets vanish unnoticed (prefix truncation).'
EDITS=[('nora_ssh/src/host.rs',"""		let pkt = packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
			.await
			.map_err(HandleNewClientError::PacketParseError)?;
		Message::parse(pkt.payload())
			.map_err(HandleNewClientError::MessageParseError)?
			.into_new_keys()
			.ok_or(HandleNewClientError::ExpectedKeys)?;
""","""		// The client may send messages that are to be ignored at any time.
		let mut receive_cipher = receive_cipher;
		loop {
			let pkt = packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
				.await
				.map_err(HandleNewClientError::PacketParseError)?;
			match Message::parse(pkt.payload()).map_err(HandleNewClientError::MessageParseError)? {
				Message::Ignore(_) | Message::Debug(_) => {
					client_packets += 1;
					receive_cipher = In(ChaCha20Poly1305::from_key_material(
						&key_material,
						Direction::ClientToServer,
						client_packets,
					));
				}
				Message::NewKeys(_) => break,
				_ => return Err(HandleNewClientError::ExpectedKeys),
			}
		}
""")]
MAIN='''
fn main() {
	let mut w = World::new();
	let mut c = w.connect();
	let mut c = w
		.client(async move {
			c.handshake().await.unwrap();
			// Whoever is in between: a message of its own before NEWKEYS, ...
			let newkeys = c.tx.take_all();
			c.tx.put(&wire::wrap(&b().u8(2).s(b"x"), 0, true, 0));
			c.tx.put(&newkeys);
			// ... and the client's first packet taken away.
			c.seal(&b().u8(2).s(b"first"));
			c.send(&b().u8(5).s(b"ssh-userauth"));
			c
		})
		.unwrap();
	w.run();
	assert!(c.drain().is_empty(), "the client's first packet is missing and nobody noticed");
	assert!(c.ended());
}
'''
