PROP='C14'
NEEDS='clients that fail the key exchange, again and again'
BREAKS='Buffers are kept for reuse, but one whose key exchange fails is not given back: each such client costs 64 kB for good.'
EDITS=[('nora_ssh/src/host.rs','''		let mut pkt_buf = Vec::new();
		pkt_buf.resize(1 << 16, 0);
''','''		// Clearing a fresh buffer for every client is slow.
		let pkt_buf = BUFFERS.lock().unwrap().pop();
		let mut pkt_buf = pkt_buf.unwrap_or_else(|| vec![0; 1 << 16].leak());
'''),('nora_ssh/src/host.rs','''		Ok(HostClient { receive_cipher, send_cipher, session_identifier: *hash.as_ref() })
''','''		BUFFERS.lock().unwrap().push(pkt_buf);
		Ok(HostClient { receive_cipher, send_cipher, session_identifier: *hash.as_ref() })
'''),('nora_ssh/src/host.rs','''impl Host<p256::NistP256> {
''','''static BUFFERS: std::sync::Mutex<Vec<&'static mut [u8]>> = std::sync::Mutex::new(Vec::new());

impl Host<p256::NistP256> {
''')]
MAIN='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

struct Counted;
static USED: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counted {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		USED.fetch_add(l.size(), Ordering::SeqCst);
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		USED.fetch_sub(l.size(), Ordering::SeqCst);
		System.dealloc(p, l)
	}
}
#[global_allocator]
static A: Counted = Counted;

fn main() {
	let mut w = World::new();
	let mut before = 0;
	for i in 0..60 {
		if i == 10 {
			before = USED.load(Ordering::SeqCst);
		}
		let c = w.connect();
		c.tx.put(b"SSH-2.0-x\\r\\n");
		c.tx.put(&wire::wrap(&b().u8(2).s(b"nonsense"), 0, true, 0));
		w.run();
		assert!(c.ended());
	}
	let kept = USED.load(Ordering::SeqCst).saturating_sub(before);
	assert!(kept < 1_000_000, "{kept} bytes kept after 50 failed key exchanges");
}
'''
