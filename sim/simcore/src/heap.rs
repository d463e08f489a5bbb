//! Counts what the system under test keeps allocated. Only what is allocated while it runs, and not
//! in one of the simulator's own functions, is counted.
use std::{
	alloc::{GlobalAlloc, Layout, System},
	cell::Cell,
};

thread_local! {
	static ON: Cell<bool> = const { Cell::new(false) };
	static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub struct Heap;

#[global_allocator]
static HEAP: Heap = Heap;

fn room(l: Layout) -> usize {
	l.align().max(16)
}

fn outer(l: Layout) -> Layout {
	unsafe { Layout::from_size_align_unchecked(l.size() + room(l), room(l)) }
}

fn count(n: i64) {
	let _ = LIVE.try_with(|c| c.set(c.get() + n));
}

unsafe fn tag(p: *mut u8, l: Layout) -> *mut u8 {
	if p.is_null() {
		return p;
	}
	let on = ON.try_with(|c| c.get()).unwrap_or(false);
	let q = p.add(room(l));
	q.sub(1).write(on as u8);
	if on {
		count(l.size() as i64);
	}
	q
}

unsafe impl GlobalAlloc for Heap {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		tag(System.alloc(outer(l)), l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		tag(System.alloc_zeroed(outer(l)), l)
	}
	unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
		if q.sub(1).read() != 0 {
			count(-(l.size() as i64));
		}
		System.dealloc(q.sub(room(l)), outer(l))
	}
	unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
		let counted = q.sub(1).read() != 0;
		let p = System.realloc(q.sub(room(l)), outer(l), n + room(l));
		if p.is_null() {
			return p;
		}
		if counted {
			count(n as i64 - l.size() as i64);
		}
		p.add(room(l))
	}
}

/// Sets whether to count, until dropped.
pub struct Counting(bool);

pub fn counting(on: bool) -> Counting {
	Counting(ON.with(|c| c.replace(on)))
}

impl Drop for Counting {
	fn drop(&mut self) {
		ON.with(|c| c.set(self.0))
	}
}

/// Bytes in use now.
pub fn live() -> i64 {
	LIVE.with(|c| c.get())
}
