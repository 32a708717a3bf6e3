//! The only source of randomness of the simulator.

/// SplitMix64 finaliser.
pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
  z ^ (z >> 31)
}

/// Derives the seed of one run from the seed of the batch.
pub fn derive(seed: u64, domain: u64, i: u64) -> u64 {
  mix(mix(mix(seed) ^ domain.rotate_left(17)) ^ i.wrapping_mul(0xd6e8_feb8_6659_fd93))
}

/// A small deterministic generator (SplitMix64).
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
  pub fn new(seed: u64) -> Self {
    Self(mix(seed))
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    mix(self.0)
  }
  /// Uniform in `0..n` (0 if `n` is 0).
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 {
      0
    } else {
      ((self.next() as u128 * n as u128) >> 64) as usize
    }
  }
  /// Uniform in `l..=r`.
  pub fn range(&mut self, l: usize, r: usize) -> usize {
    l + self.below(r - l + 1)
  }
  /// True with probability `num / den`.
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  /// Index drawn with the given weights.
  pub fn weighted(&mut self, ws: &[usize]) -> usize {
    let total: usize = ws.iter().sum();
    let mut x = self.below(total.max(1));
    for (i, w) in ws.iter().enumerate() {
      if x < *w {
        return i;
      }
      x -= w;
    }
    ws.len() - 1
  }
  /// A size that is usually small, sometimes up to `max`.
  pub fn size(&mut self, max: usize) -> usize {
    let cap = match self.below(10) {
      0 => 0,
      1..=4 => max.min(4),
      5..=7 => max.min(16),
      8 => max.min(64),
      _ => max,
    };
    self.range(0, cap)
  }
}
