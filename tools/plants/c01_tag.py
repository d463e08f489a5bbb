PROP='C01'
NEEDS='bytes altered in transit only in the second half of a packet authentication tag'
BREAKS='Only half of the tag is compared, so a packet that was altered in transit is still acted upon.'
EDITS=[('nora_ssh_core/src/cipher/chacha20poly1305.rs',
'''		self.compute_tag(data) == Tag::new(<[u8; TAG_SIZE]>::try_from(tag).unwrap().into())
''','''		self.compute_tag(data).into_bytes()[..TAG_SIZE / 2] == tag[..TAG_SIZE / 2]
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let mut c = w.session(b"me");
	let mut p = c.seal(&b().u8(90).s(b"session").u32(1).u32(1000).u32(1000));
	*p.last_mut().unwrap() ^= 1;
	c.tx.put(&p);
	w.run();
	assert!(c.ended(), "the connection survives an altered packet");
	assert!(c.drain().is_empty(), "an altered packet is answered");
}
'''
