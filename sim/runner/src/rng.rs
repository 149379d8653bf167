//! The one source of randomness.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
  pub fn new(seed: u64) -> Rng {
    let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
    r.next();
    r
  }
  /// An independent stream.
  pub fn derive(seed: u64, label: &str) -> Rng {
    let mut h = seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ 0xcbf2_9ce4_8422_2325;
    for b in label.bytes() {
      h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    Rng::new(h)
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: u64) -> u64 {
    if n <= 1 {
      return 0;
    }
    self.next() % n
  }
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    lo + self.below((hi - lo + 1) as u64) as i64
  }
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.below(v.len() as u64) as usize]
  }
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
  let mut h = h;
  for b in bytes {
    h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
  }
  h
}
