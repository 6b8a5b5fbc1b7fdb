//! The only source of randomness of the simulator (xoshiro256**, seeded by splitmix64).

#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: u64) -> u64 { ((self.next() as u128 * n as u128) >> 64) as u64 }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let w = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + ((self.next() as u128 * w) >> 64) as i128) as i64
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.idx(v.len()); &v[i] }
    /// index chosen according to weights (at least one must be positive)
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 { return i; }
            r -= *x as u64;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { v.swap(i, self.idx(i + 1)); }
    }
    pub fn fork(&mut self) -> Rng { Rng::new(self.next()) }
}

/// 64-bit FNV-like mixing, stable across processes and builds
#[derive(Clone, Copy)]
pub struct Mix(pub u64);
impl Mix {
    pub fn new() -> Mix { Mix(0xcbf29ce484222325) }
    pub fn add(&mut self, x: u64) {
        let mut z = self.0 ^ x.wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        self.0 = z ^ (z >> 32);
    }
    pub fn str(&mut self, s: &str) {
        self.add(s.len() as u64);
        for c in s.as_bytes().chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(b));
        }
    }
}
