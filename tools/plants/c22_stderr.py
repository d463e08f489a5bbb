PROP='C22'
NEEDS='a shell that writes to its standard error'
BREAKS='What a shell writes to its standard error does not reach the client.'
EDITS=[('nora_sshd/src/main.rs','''				let mut shell = process::Command::new(shell)
					.stdin(process::Stdio::piped())
					.stdout(process::Stdio::piped())
					.stderr(process::Stdio::piped())
''','''				let mut shell = process::Command::new(shell)
					.stdin(process::Stdio::piped())
					.stdout(process::Stdio::piped())
					.stderr(process::Stdio::null())
''')]
MAIN='''
fn main() {
	let mut d = Daemon::start();
	let mut c = Conn::dial(2222);
	assert!(d.alive(), "the port is taken");
	block(async {
		c.login().await;
		let s = c.open(1, 1000, 1000).await.unwrap();
		c.send(&b().u8(98).u32(s).s(b"shell").u8(1));
		assert_eq!(c.recv().await.unwrap()[0], 99);
		c.data(s, b"echo hello >&2; exit 3\\n");
		assert_eq!(c.recv().await.unwrap(), b().u8(94).u32(1).s(b"hello\\n"));
		assert_eq!(c.recv().await.unwrap(), b().u8(98).u32(1).s(b"exit-status").u8(0).u32(3));
	});
}
'''
