//! SSH data types, written from RFC 4251/4253 and sharing no code with the crates under test.

pub trait Put {
	fn u32(self, x: u32) -> Self;
	fn u8(self, x: u8) -> Self;
	fn s(self, s: &[u8]) -> Self;
	fn raw(self, s: &[u8]) -> Self;
	fn mpint(self, be: &[u8]) -> Self;
}

impl Put for Vec<u8> {
	fn u32(mut self, x: u32) -> Self {
		self.extend_from_slice(&x.to_be_bytes());
		self
	}
	fn u8(mut self, x: u8) -> Self {
		self.push(x);
		self
	}
	fn s(self, s: &[u8]) -> Self {
		self.u32(s.len() as u32).raw(s)
	}
	fn raw(mut self, s: &[u8]) -> Self {
		self.extend_from_slice(s);
		self
	}
	/// A non-negative integer given as big-endian bytes.
	fn mpint(self, be: &[u8]) -> Self {
		let i = be.iter().position(|&b| b != 0).unwrap_or(be.len());
		let be = &be[i..];
		if be.first().map_or(false, |b| b & 0x80 != 0) {
			self.u32(be.len() as u32 + 1).u8(0).raw(be)
		} else {
			self.s(be)
		}
	}
}

pub fn b() -> Vec<u8> {
	Vec::new()
}

#[derive(Clone, Copy)]
pub struct Rd<'a>(pub &'a [u8]);

impl<'a> Rd<'a> {
	pub fn u8(&mut self) -> Option<u8> {
		let (x, r) = self.0.split_first()?;
		self.0 = r;
		Some(*x)
	}
	pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
		(self.0.len() >= n).then(|| {
			let (a, r) = self.0.split_at(n);
			self.0 = r;
			a
		})
	}
	pub fn u32(&mut self) -> Option<u32> {
		self.take(4).map(|b| u32::from_be_bytes(b.try_into().unwrap()))
	}
	pub fn s(&mut self) -> Option<&'a [u8]> {
		let n = self.u32()? as usize;
		self.take(n)
	}
	pub fn end(&self) -> Option<()> {
		self.0.is_empty().then(|| ())
	}
	/// A non-negative mpint as 32 big-endian bytes.
	pub fn mpint32(&mut self) -> Option<[u8; 32]> {
		let mut s = self.s()?;
		if s.first().map_or(false, |b| b & 0x80 != 0) {
			return None;
		}
		while s.first() == Some(&0) {
			s = &s[1..];
		}
		if s.len() > 32 {
			return None;
		}
		let mut v = [0; 32];
		v[32 - s.len()..].copy_from_slice(s);
		Some(v)
	}
}

/// Length, padding length, payload, padding; `extra` more blocks of padding than needed.
/// With `len_counts`, the length field is part of what is padded to a block.
pub fn wrap(payload: &[u8], extra: usize, len_counts: bool, fill: u8) -> Vec<u8> {
	let head = 1 + payload.len() + if len_counts { 4 } else { 0 };
	let mut pad = 8 - head % 8;
	if pad < 4 {
		pad += 8;
	}
	pad += 8 * extra;
	while pad > 255 {
		pad -= 8;
	}
	let mut v = b().u32((1 + payload.len() + pad) as u32).u8(pad as u8).raw(payload);
	v.resize(v.len() + pad, fill);
	v
}
