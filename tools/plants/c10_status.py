PROP='C10'
NEEDS='a process whose exit status does not fit in one byte'
BREAKS='The client is told only the low byte of the exit status.'
EDITS=[('nora_ssh_core/src/message/channel/session.rs','''				let (a, _) = make_uint32(buf, *status)?;
				Some((b"exit-status", a))
''','''				let (a, _) = make_uint32(buf, *status & 0xff)?;
				Some((b"exit-status", a))
''')]
MAIN='''
fn main() {
	for status in [0, 1, 255, 256, 0x1234_5678] {
		let mut w = World::new();
		let c = w.session(b"me");
		let (mut c, _) = w.exec(c, 7, b"cmd");
		{
			let mut l = w.log.lock().unwrap();
			l.procs[0].stdout.end();
			l.procs[0].stderr.end();
			let x = l.procs[0].exit.take().unwrap();
			x.send(status).unwrap();
		}
		w.run();
		let v = c.drain();
		assert_eq!(v[0], b().u8(98).u32(7).s(b"exit-status").u8(0).u32(status));
		assert_eq!(v[1..], [b().u8(96).u32(7), b().u8(97).u32(7)]);
	}
}
'''
