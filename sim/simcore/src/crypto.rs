//! The model client's own chacha20-poly1305@openssh.com, written from the specification
//! and sharing no code with the cipher under test.

fn quarter(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
	s[a] = s[a].wrapping_add(s[b]);
	s[d] = (s[d] ^ s[a]).rotate_left(16);
	s[c] = s[c].wrapping_add(s[d]);
	s[b] = (s[b] ^ s[c]).rotate_left(12);
	s[a] = s[a].wrapping_add(s[b]);
	s[d] = (s[d] ^ s[a]).rotate_left(8);
	s[c] = s[c].wrapping_add(s[d]);
	s[b] = (s[b] ^ s[c]).rotate_left(7);
}

/// DJB chacha20: 64-bit counter, 64-bit nonce.
pub fn chacha20_block(key: &[u8; 32], counter: u64, nonce: &[u8; 8]) -> [u8; 64] {
	let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
	let mut s = [0u32; 16];
	s[0] = 0x61707865;
	s[1] = 0x3320646e;
	s[2] = 0x79622d32;
	s[3] = 0x6b206574;
	for i in 0..8 {
		s[4 + i] = w(&key[4 * i..]);
	}
	s[12] = counter as u32;
	s[13] = (counter >> 32) as u32;
	s[14] = w(&nonce[..4]);
	s[15] = w(&nonce[4..]);
	let init = s;
	for _ in 0..10 {
		quarter(&mut s, 0, 4, 8, 12);
		quarter(&mut s, 1, 5, 9, 13);
		quarter(&mut s, 2, 6, 10, 14);
		quarter(&mut s, 3, 7, 11, 15);
		quarter(&mut s, 0, 5, 10, 15);
		quarter(&mut s, 1, 6, 11, 12);
		quarter(&mut s, 2, 7, 8, 13);
		quarter(&mut s, 3, 4, 9, 14);
	}
	let mut out = [0; 64];
	for i in 0..16 {
		out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
	}
	out
}

pub fn chacha20_xor(key: &[u8; 32], counter: u64, nonce: &[u8; 8], data: &mut [u8]) {
	for (i, c) in data.chunks_mut(64).enumerate() {
		let b = chacha20_block(key, counter + i as u64, nonce);
		c.iter_mut().zip(b.iter()).for_each(|(x, y)| *x ^= y);
	}
}

/// One-time authenticator, 26-bit limbs.
pub fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
	let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as u64;
	let r = [
		le(&key[0..]) & 0x3ffffff,
		(le(&key[3..]) >> 2) & 0x3ffff03,
		(le(&key[6..]) >> 4) & 0x3ffc0ff,
		(le(&key[9..]) >> 6) & 0x3f03fff,
		(le(&key[12..]) >> 8) & 0x00fffff,
	];
	let s = [0, r[1] * 5, r[2] * 5, r[3] * 5, r[4] * 5];
	let mut h = [0u64; 5];
	for chunk in msg.chunks(16) {
		let mut b = [0u8; 17];
		b[..chunk.len()].copy_from_slice(chunk);
		b[chunk.len()] = 1;
		h[0] += le(&b[0..]) & 0x3ffffff;
		h[1] += (le(&b[3..]) >> 2) & 0x3ffffff;
		h[2] += (le(&b[6..]) >> 4) & 0x3ffffff;
		h[3] += (le(&b[9..]) >> 6) & 0x3ffffff;
		h[4] += (le(&b[12..]) >> 8) | ((b[16] as u64) << 24);
		let m = |a: u64, b: u64| a as u128 * b as u128;
		let mut d = [
			m(h[0], r[0]) + m(h[1], s[4]) + m(h[2], s[3]) + m(h[3], s[2]) + m(h[4], s[1]),
			m(h[0], r[1]) + m(h[1], r[0]) + m(h[2], s[4]) + m(h[3], s[3]) + m(h[4], s[2]),
			m(h[0], r[2]) + m(h[1], r[1]) + m(h[2], r[0]) + m(h[3], s[4]) + m(h[4], s[3]),
			m(h[0], r[3]) + m(h[1], r[2]) + m(h[2], r[1]) + m(h[3], r[0]) + m(h[4], s[4]),
			m(h[0], r[4]) + m(h[1], r[3]) + m(h[2], r[2]) + m(h[3], r[1]) + m(h[4], r[0]),
		];
		for i in 0..4 {
			let c = d[i] >> 26;
			d[i] &= 0x3ffffff;
			d[i + 1] += c;
		}
		let c = d[4] >> 26;
		d[4] &= 0x3ffffff;
		d[0] += c * 5;
		let c = d[0] >> 26;
		d[0] &= 0x3ffffff;
		d[1] += c;
		for i in 0..5 {
			h[i] = d[i] as u64;
		}
	}
	// full carry
	for _ in 0..2 {
		for i in 0..4 {
			let c = h[i] >> 26;
			h[i] &= 0x3ffffff;
			h[i + 1] += c;
		}
		let c = h[4] >> 26;
		h[4] &= 0x3ffffff;
		h[0] += c * 5;
	}
	let c = h[0] >> 26;
	h[0] &= 0x3ffffff;
	h[1] += c;
	// h - p
	let mut g = [0u64; 5];
	let mut c = 5;
	for i in 0..5 {
		g[i] = h[i] + c;
		c = g[i] >> 26;
		g[i] &= 0x3ffffff;
	}
	let v = if c != 0 { g } else { h };
	let n: u128 = v[0] as u128
		| (v[1] as u128) << 26
		| (v[2] as u128) << 52
		| (v[3] as u128) << 78
		| (v[4] as u128) << 104;
	let k = u128::from_le_bytes(key[16..32].try_into().unwrap());
	n.wrapping_add(k).to_le_bytes()
}

pub const TAG: usize = 16;

#[derive(Clone)]
pub struct Sealer {
	k_main: [u8; 32],
	k_len: [u8; 32],
	pub seq: u64,
}

impl Sealer {
	/// `key` is the 64 bytes of key material for one direction.
	pub fn new(key: &[u8; 64], seq: u64) -> Self {
		Self {
			k_main: key[..32].try_into().unwrap(),
			k_len: key[32..].try_into().unwrap(),
			seq,
		}
	}

	pub fn key_bytes(&self) -> Vec<u8> {
		[self.k_main, self.k_len].concat()
	}

	fn nonce(&self) -> [u8; 8] {
		self.seq.to_be_bytes()
	}

	/// `raw`: 4-byte length, padding length, payload, padding (unencrypted).
	pub fn seal(&mut self, raw: &[u8]) -> Vec<u8> {
		let n = self.nonce();
		let mut v = raw.to_vec();
		chacha20_xor(&self.k_len, 0, &n, &mut v[..4]);
		chacha20_xor(&self.k_main, 1, &n, &mut v[4..]);
		let pk: [u8; 32] = chacha20_block(&self.k_main, 0, &n)[..32].try_into().unwrap();
		let tag = poly1305(&pk, &v);
		v.extend_from_slice(&tag);
		self.seq += 1;
		v
	}

	pub fn open_len(&self, b: &[u8]) -> u32 {
		let mut l: [u8; 4] = b[..4].try_into().unwrap();
		chacha20_xor(&self.k_len, 0, &self.nonce(), &mut l);
		u32::from_be_bytes(l)
	}

	/// `data`: encrypted length + body + tag. Returns the decrypted body after the length.
	pub fn open(&mut self, data: &[u8]) -> Option<Vec<u8>> {
		let n = self.nonce();
		let (ct, tag) = data.split_at(data.len() - TAG);
		let pk: [u8; 32] = chacha20_block(&self.k_main, 0, &n)[..32].try_into().unwrap();
		if poly1305(&pk, ct) != tag {
			return None;
		}
		let mut body = ct[4..].to_vec();
		chacha20_xor(&self.k_main, 1, &n, &mut body);
		self.seq += 1;
		Some(body)
	}
}

/// Known-answer self-test, run once at start-up.
pub fn self_test() {
	let secret = x25519_dalek::StaticSecret::from([0x42; 32]);
	for k in crate::client::low_order() {
		for top in [0, 0x80] {
			let mut k = k;
			k[31] |= top;
			assert_eq!(*secret.diffie_hellman(&x25519_dalek::PublicKey::from(k)).as_bytes(), [0; 32]);
		}
	}
	// RFC 8439 2.5.2
	let key: [u8; 32] = [
		0x85, 0xd6, 0xbe, 0x78, 0x57, 0x55, 0x6d, 0x33, 0x7f, 0x44, 0x52, 0xfe, 0x42, 0xd5, 0x06,
		0xa8, 0x01, 0x03, 0x80, 0x8a, 0xfb, 0x0d, 0xb2, 0xfd, 0x4a, 0xbf, 0xf6, 0xaf, 0x41, 0x49,
		0xf5, 0x1b,
	];
	assert_eq!(
		poly1305(&key, b"Cryptographic Forum Research Group"),
		[
			0xa8, 0x06, 0x1d, 0xc1, 0x30, 0x51, 0x36, 0xc6, 0xc2, 0x2b, 0x8b, 0xaf, 0x0c, 0x01,
			0x27, 0xa9
		]
	);
	// RFC 8439 A.3 #7..#11 corner: all-ones block
	let mut k = [0u8; 32];
	k[0] = 2;
	assert_eq!(
		poly1305(&k, &[0xff; 16]),
		[3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]
	);
	// draft-agl-tls-chacha20poly1305 test vector 1 (64-bit nonce): zero key and nonce
	let b = chacha20_block(&[0; 32], 0, &[0; 8]);
	assert_eq!(b[..8], [0x76, 0xb8, 0xe0, 0xad, 0xa0, 0xf1, 0x3d, 0x90]);
	// vector with nonce 00..01
	let b = chacha20_block(&[0; 32], 0, &[0, 0, 0, 0, 0, 0, 0, 1]);
	assert_eq!(b[..8], [0xde, 0x9c, 0xba, 0x7b, 0xf3, 0xd6, 0x9e, 0xf5]);
}
