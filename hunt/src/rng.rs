//! Small deterministic random number generator (xorshift*), so that a seed identifies a run.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
		if r.0 == 0 { r.0 = 1 }
		for _ in 0..4 { r.next(); }
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 ^= self.0 >> 12;
		self.0 ^= self.0 << 25;
		self.0 ^= self.0 >> 27;
		self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
	}
	pub fn below(&mut self, n: usize) -> usize { (self.next() >> 33) as usize % n.max(1) }
	pub fn chance(&mut self, percent: usize) -> bool { self.below(100) < percent }
	pub fn pick<'a, T>(&mut self, s: &'a [T]) -> Option<&'a T> { if s.is_empty() { None } else { Some(&s[self.below(s.len())]) } }
	pub fn u32(&mut self) -> u32 { (self.next() >> 16) as u32 }
}
