//! xoshiro256** seeded by splitmix64: the only source of randomness.

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub const fn dead() -> Rng { Rng([1, 2, 3, 4]) }
    /// An independent stream of the run's seed.
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut s = mix(seed ^ mix(stream));
        let mut r = [0; 4];
        for x in r.iter_mut() {
            s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
            *x = mix(s);
        }
        Rng(r)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    pub fn index(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    /// True with probability p/1000.
    pub fn permille(&mut self, p: u64) -> bool { self.below(1000) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.index(v.len())] }
    /// Log-uniform in 1..=2^bits.
    pub fn log(&mut self, bits: u64) -> u64 {
        let b = self.below(bits + 1);
        1 + self.below(1 << b)
    }
}
