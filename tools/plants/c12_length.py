PROP='C12'
NEEDS='a client that announces a packet larger than the receive buffer'
BREAKS='An oversized packet length makes the server panic instead of ending the connection.'
EDITS=[('nora_ssh/src/host.rs','''		let data = data
			.get_mut(..len + self.0.tag_size())
			.ok_or(InError::BufferTooSmall(len))?;
		io.read_exact(data).await.map_err(InError::Read)?;
''','''		if len > data.len() {
			return Err(InError::BufferTooSmall(len));
		}
		let data = &mut data[..len + self.0.tag_size()];
		io.read_exact(data).await.map_err(InError::Read)?;
''')]
MAIN='''
fn main() {
	for n in [34976u32, 34980, 34984, 34992, 34996, 35000, 40000, u32::MAX] {
		let mut w = World::new();
		let mut c = w.session(b"me");
		// only the length matters
		let p = c.enc.as_mut().unwrap().seal(&b().u32(n).raw(&[4; 16]));
		c.tx.put(&p[..4]);
		c.tx.put(&vec![0; 40000]);
		w.run();
		let _ = w.session(b"still served");
	}
}
'''
