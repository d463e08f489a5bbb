PROP='C03'
NEEDS='a client whose identification string has a comment after a space'
BREAKS='The comment is left out of the exchange hash, so the host key signature does not verify for such clients.'
EDITS=[('nora_ssh/src/identifier.rs','''	Identifier::new(&buf[..i]).ok_or(ParseIdentError::IdentifierTooLong)
''','''	// Comments are of no interest
	let i = buf[..i].iter().position(|&c| c == b' ').unwrap_or(i);
	Identifier::new(&buf[..i]).ok_or(ParseIdentError::IdentifierTooLong)
''')]
MAIN='''
fn main() {
	for id in ["SSH-2.0-plain", "SSH-2.0-client with a comment"] {
		let mut w = World::new();
		let mut c = w.connect();
		c.ident = id.as_bytes().to_vec();
		let r = w.client(async move { c.handshake().await.is_some() });
		assert_eq!(r, Some(true), "{id}");
	}
}
'''
