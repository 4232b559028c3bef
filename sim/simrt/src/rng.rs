//! The only random source of the simulator.
#[derive(Clone)]
pub struct Rng(pub u64, pub u64);

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash2(a: u64, b: u64) -> u64 {
    mix(mix(a).wrapping_add(b.wrapping_mul(0xD6E8FEB86659FD93)))
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), mix(seed ^ 0xABCDEF))
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        mix(r)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.usize(b - a + 1)
    }
    /// true with probability 1/n
    #[inline]
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// geometric: number of failures before a success of probability 1/n
    pub fn geometric(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let u = ((self.u64() >> 11) as f64 + 1.0) / ((1u64 << 53) as f64 + 1.0);
        let v = u.ln() / (1.0 - 1.0 / n as f64).ln();
        v as u64
    }
}
