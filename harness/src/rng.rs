//! Small deterministic generator; every random choice of the harness comes from here.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
  z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for b in s.bytes() {
    h ^= b as u64;
    h = h.wrapping_mul(0x0000_0100_0000_01B3);
  }
  mix(h)
}

impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(mix(seed))
  }
  pub fn for_case(seed: u64, prop: &str, idx: u64) -> Self {
    Rng(mix(mix(seed) ^ hash_str(prop).rotate_left(17) ^ mix(idx.wrapping_mul(0x5851_F42D_4C95_7F2D))))
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  /// Uniform in `0..n` (n > 0).
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % n as u64) as usize
  }
  /// Uniform in `a..=b`.
  pub fn range(&mut self, a: usize, b: usize) -> usize {
    a + self.below(b - a + 1)
  }
  /// True with probability `pct` percent.
  pub fn pct(&mut self, pct: usize) -> bool {
    self.below(100) < pct
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      let j = self.below(i + 1);
      xs.swap(i, j);
    }
  }
}
