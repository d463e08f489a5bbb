PROP='C01'
NEEDS='an altered packet'
BREAKS='An altered packet is skipped instead of ending the connection, so the server goes on reading from a stream it cannot trust.'
EDITS=[('nora_ssh/src/host.rs','''		let (len, data) = buf.split_at_mut(4);
		io.read_exact(len).await.map_err(InError::Read)?;
		let lenb = self
			.0
			.decrypt_length(len.try_into().unwrap())
			.map_err(InError::Cipher)?;
		let len = u32::from_be_bytes(lenb).try_into().unwrap();
		let data = data
			.get_mut(..len + self.0.tag_size())
			.ok_or(InError::BufferTooSmall(len))?;
		io.read_exact(data).await.map_err(InError::Read)?;
		let data = &mut buf[..4 + len + self.0.tag_size()];
		self.0.decrypt_data(data).map_err(InError::Cipher)?;
		data[..4].copy_from_slice(&lenb);
''','''		loop {
			let (len, data) = buf.split_at_mut(4);
			io.read_exact(len).await.map_err(InError::Read)?;
			let lenb = self
				.0
				.decrypt_length(len.try_into().unwrap())
				.map_err(InError::Cipher)?;
			let len = u32::from_be_bytes(lenb).try_into().unwrap();
			let data = data
				.get_mut(..len + self.0.tag_size())
				.ok_or(InError::BufferTooSmall(len))?;
			io.read_exact(data).await.map_err(InError::Read)?;
			let data = &mut buf[..4 + len + self.0.tag_size()];
			// Damaged packets are of no use
			if self.0.decrypt_data(data).is_ok() {
				data[..4].copy_from_slice(&lenb);
				break;
			}
		}
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let mut c = w.session(b"me");
	let p = c.seal(&b().u8(90).s(b"session").u32(1).u32(1000).u32(1000));
	let mut q = p.clone();
	*q.last_mut().unwrap() ^= 1;
	c.tx.put(&q);
	w.run();
	assert!(c.ended(), "the connection survives an altered packet");
	c.tx.put(&p);
	w.run();
	assert!(c.drain().is_empty(), "something after an altered packet is answered");
}
'''
