//! The only source of randomness of the simulator: splitmix64 over one seed.

#[derive(Clone)]
pub struct Prng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Prng {
    pub fn new(seed: u64) -> Self {
        Self(mix(seed ^ 0x5851_f42d_4c95_7f2d))
    }

    pub fn of(seed: u64, prop: &str, index: u64) -> Self {
        let mut h = mix(seed.wrapping_add(0x9e37_79b9_7f4a_7c15));
        for b in prop.bytes() {
            h = mix(h ^ u64::from(b));
        }
        Self(mix(h ^ index.wrapping_mul(0xd6e8_feb8_6659_fd93)))
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }

    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True once in n.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// Log-uniform in 1..=max.
    pub fn log(&mut self, max: usize) -> usize {
        let bits = 64 - (max as u64).leading_zeros() as usize;
        let b = self.below(bits + 1);
        let hi = (1_usize << b).min(max).max(1);
        self.range(1, hi)
    }
}
