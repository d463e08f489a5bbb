//! Choice streams: the only source of decisions in a simulated run.
//!
//! A run is a pure function of (scenario, seed) in random mode, and of
//! (scenario, seed, recorded streams) in replay mode. In every stream the value 0 is the
//! plainest choice (no fault, whole chunk, no delay), so that shrinking means
//! "delete or zero entries".
use std::collections::BTreeMap;

#[derive(Clone, Copy)]
pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed ^ 0xd1b54a32d192ed03);
		r.next();
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: u64) -> u64 {
		((self.next() as u128 * n as u128) >> 64) as u64
	}
}

pub fn mix(a: u64, b: u64) -> u64 {
	Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0x2545f4914f6cdd1d)).next()
}

pub type StreamId = u32;

pub struct Stream {
	rng: Rng,
	replay: Option<Vec<u32>>,
	pos: usize,
	pub recorded: Vec<u32>,
}

pub struct Choices {
	seed: u64,
	replay: Option<BTreeMap<StreamId, Vec<u32>>>,
	pub streams: BTreeMap<StreamId, Stream>,
	pub drawn: u64,
}

impl Choices {
	pub fn new(seed: u64, replay: Option<BTreeMap<StreamId, Vec<u32>>>) -> Self {
		Self { seed, replay, streams: BTreeMap::new(), drawn: 0 }
	}

	/// A value in `0..n`. `n` = 0 or 1 draws nothing.
	pub fn choose(&mut self, id: StreamId, n: u32) -> u32 {
		if n <= 1 {
			return 0;
		}
		self.drawn += 1;
		let seed = self.seed;
		let replay = &mut self.replay;
		let s = self.streams.entry(id).or_insert_with(|| Stream {
			rng: Rng::new(mix(seed, id as u64 + 1)),
			replay: replay.as_mut().map(|r| r.remove(&id).unwrap_or_default()),
			pos: 0,
			recorded: Vec::new(),
		});
		let v = match &s.replay {
			Some(r) => {
				let v = r.get(s.pos).copied().unwrap_or(0);
				s.pos += 1;
				if v >= n {
					v % n
				} else {
					v
				}
			}
			None => s.rng.below(n as u64) as u32,
		};
		s.recorded.push(v);
		v
	}

	/// True with probability `num`/`den`; the plain choice is false.
	pub fn chance(&mut self, id: StreamId, num: u32, den: u32) -> bool {
		if num == 0 {
			return false;
		}
		self.choose(id, den) >= den - num.min(den)
	}

	/// `lo..=hi`, plain choice `lo`.
	pub fn range(&mut self, id: StreamId, lo: u32, hi: u32) -> u32 {
		lo + self.choose(id, hi - lo + 1)
	}

	/// A size in `0..=max`, mostly small, sometimes close to `max`. Plain choice 0.
	pub fn size(&mut self, id: StreamId, max: u32) -> u32 {
		match self.choose(id, 8) {
			0 | 1 => self.choose(id, max.min(4) + 1),
			2 | 3 | 4 => self.choose(id, max.min(64) + 1),
			5 | 6 => self.choose(id, max.min(1024) + 1),
			_ => max - self.choose(id, max + 1),
		}
	}

	/// Weighted index; plain choice is index 0.
	pub fn weighted(&mut self, id: StreamId, w: &[u32]) -> usize {
		let t: u32 = w.iter().sum();
		let mut v = self.choose(id, t);
		for (i, &x) in w.iter().enumerate() {
			if v < x {
				return i;
			}
			v -= x;
		}
		0
	}

	pub fn bytes(&mut self, id: StreamId, n: usize) -> Vec<u8> {
		// One draw per 4 bytes keeps recorded streams short.
		let mut v = Vec::with_capacity(n + 4);
		while v.len() < n {
			let x = self.choose(id, u32::MAX);
			v.extend_from_slice(&x.to_le_bytes());
		}
		v.truncate(n);
		v
	}

	pub fn recorded(&self) -> BTreeMap<StreamId, Vec<u32>> {
		self.streams
			.iter()
			.map(|(k, s)| (*k, s.recorded.clone()))
			.collect()
	}
}
