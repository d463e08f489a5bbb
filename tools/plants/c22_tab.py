PROP='C22'
NEEDS='a command with whitespace other than single spaces between its words'
BREAKS='Tabs no longer separate arguments.'
EDITS=[('nora_sshd/src/main.rs','''					.split(|c| c.is_ascii_whitespace())
''','''					.split(|&c| c == b' ' || c == b'\\n')
''')]
MAIN='''
fn main() {
	let mut d = Daemon::start();
	let mut c = Conn::dial(2222);
	assert!(d.alive(), "the port is taken");
	block(async {
		c.login().await;
		for cmd in ["printf <%s> a b", " printf  <%s>\\n a b ", "printf\\t<%s>\\ta\\tb", "printf <%s>\\ra\\x0cb"] {
			assert_eq!(c.command(1, cmd.as_bytes()).await, Some((b"<a><b>".to_vec(), 0)), "{cmd:?}");
		}
	});
}
'''
