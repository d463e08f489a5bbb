PROP='C08'
NEEDS='a data message without data, followed by more input'
BREAKS='Empty data is taken for the end of the input, what the client sends after it never reaches the process.'
EDITS=[('nora_ssh/src/server.rs','''				Message::Channel(msg::Channel::Data(d)) => {
''','''				Message::Channel(msg::Channel::Data(d)) if !d.data.is_empty() => {
'''),('nora_ssh/src/server.rs','''				Message::Channel(msg::Channel::Eof(e)) => {
					self.channel(e.recipient_channel)?.input.take();
''','''				// An empty read is the end.
				Message::Channel(msg::Channel::Eof(msg::channel::Eof { recipient_channel }))
				| Message::Channel(msg::Channel::Data(msg::channel::Data {
					recipient_channel,
					..
				})) => {
					self.channel(recipient_channel)?.input.take();
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let c = w.session(b"me");
	let (mut c, s) = w.exec(c, 1, b"cat");
	c.data(s, b"one");
	c.data(s, b"");
	c.data(s, b"two");
	w.run();
	let l = w.log.lock().unwrap();
	let p = &l.procs[0];
	assert_eq!(p.stdin.take_all(), b"onetwo");
	assert!(!p.stdin.with(|p| p.wr_dropped), "stdin has ended");
}
'''
