//! The only source of choices: a small PRNG seeded from one integer.

#[must_use]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

#[must_use]
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93))
}

#[derive(Clone, Debug)]
pub struct Rng(u64);

/// A number of items large for a test, about a boundary of some kind.
pub fn many(r: &mut Rng) -> u64 {
    let at = if r.pct(4) { 65_536 } else { *r.pick(&[256, 256, 512, 1000, 1024, 1024, 2048, 4096]) };
    at + r.below(9) - 4
}

impl Rng {
    #[must_use]
    pub fn new(seed: u64) -> Self {
        Self(mix(seed ^ 0x5151_5151_5151_5151))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    /// Uniform in `0..n` (0 when `n` is 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability `p`/100.
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
}

/// FNV-1a style running hash for event logs.
#[derive(Clone, Debug)]
pub struct Hash(pub u64);
impl Default for Hash {
    fn default() -> Self {
        Self(0xcbf2_9ce4_8422_2325)
    }
}
impl Hash {
    pub fn add(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x).rotate_left(17).wrapping_mul(0x100_0000_01b3);
    }
}
