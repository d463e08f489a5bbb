//! Stand-in for the `getrandom` crate: the simulator's only source of entropy.
//! Every request draws from a generator the simulator seeds at the start of a run.
use std::cell::Cell;
use std::fmt;

thread_local! {
	static STATE: Cell<u64> = Cell::new(0x9e3779b97f4a7c15);
	static CALLS: Cell<u64> = Cell::new(0);
	static BYTES: Cell<u64> = Cell::new(0);
}

/// Put the generator in a state that is a function of `seed` only.
pub fn sim_seed(seed: u64) {
	STATE.with(|s| s.set(seed ^ 0x6a09e667f3bcc909));
	CALLS.with(|c| c.set(0));
	BYTES.with(|c| c.set(0));
}

pub fn sim_calls() -> u64 {
	CALLS.with(|c| c.get())
}

fn next() -> u64 {
	STATE.with(|s| {
		let x = s.get().wrapping_add(0x9e3779b97f4a7c15);
		s.set(x);
		let mut z = x;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^ (z >> 31)
	})
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
	CALLS.with(|c| c.set(c.get() + 1));
	BYTES.with(|c| c.set(c.get() + dest.len() as u64));
	for c in dest.chunks_mut(8) {
		c.copy_from_slice(&next().to_le_bytes()[..c.len()]);
	}
	Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Error(core::num::NonZeroU32);

impl Error {
	pub const INTERNAL_START: u32 = 1 << 31;
	pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
	pub const fn raw_os_error(self) -> Option<i32> {
		None
	}
	pub const fn code(self) -> core::num::NonZeroU32 {
		self.0
	}
}
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "getrandom error {}", self.0)
	}
}
impl From<core::num::NonZeroU32> for Error {
	fn from(c: core::num::NonZeroU32) -> Self {
		Self(c)
	}
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
	fn from(e: Error) -> Self {
		std::io::Error::new(std::io::ErrorKind::Other, e)
	}
}
