//! Deterministic PRNG (splitmix64-seeded xoshiro256**); every random choice derives from VERIF_SEED.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn hash_f64s(h0: u64, v: &[f64]) -> u64 {
    let mut h = mix(h0 ^ v.len() as u64);
    for x in v {
        h = (h ^ x.to_bits()).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    }
    mix(h)
}

pub fn hash_bytes(h0: u64, v: &[u8]) -> u64 {
    let mut h = mix(h0 ^ v.len() as u64);
    for x in v {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut st = [0u64; 4];
        for x in st.iter_mut() {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            *x = mix(s);
        }
        Rng(st)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi.wrapping_sub(lo) as u64 as usize).wrapping_add(1)) as i64)
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn gauss(&mut self) -> f64 {
        let mut s = 0.0;
        for _ in 0..12 {
            s += self.f();
        }
        s - 6.0
    }
}
