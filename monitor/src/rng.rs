//! Deterministic PRNG (splitmix64-seeded xoshiro256**).
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b { h = (h ^ x as u64).wrapping_mul(0x100000001b3); }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() { z = z.wrapping_add(0x9E3779B97F4A7C15); *v = mix(z); }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 } }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { if hi <= lo { lo } else { lo + self.below((hi - lo + 1) as u64) as i64 } }
    pub fn i32r(&mut self, lo: i32, hi: i32) -> i32 { self.range(lo as i64, hi as i64) as i32 }
    pub fn chance(&mut self, p: f64) -> bool { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 <= p && p > 0.0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.idx(v.len())] }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut x = self.below(t as u64) as u32;
        for (i, &v) in w.iter().enumerate() { if x < v { return i; } x -= v; }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.idx(i + 1); v.swap(i, j); }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n { v.extend_from_slice(&self.u64().to_le_bytes()); }
        v.truncate(n);
        v
    }
    pub fn fork(&mut self) -> Rng { Rng::new(self.u64()) }
}
