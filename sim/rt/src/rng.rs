//! The only source of randomness: splitmix64, derived from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn derive(a: u64, b: u64) -> u64 {
    mix(a.wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xD1342543DE82EF95) ^ mix(b.wrapping_add(0x2545F4914F6CDD1D)))
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5851F42D4C957F2D))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    /// true with probability pct/100
    pub fn pct(&mut self, pct: u32) -> bool {
        self.below(100) < pct as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.us(i + 1));
        }
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut x = self.below(tot as u64) as u32;
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
}
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf29ce484222325)
    }
    pub fn add(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x.wrapping_mul(0x100000001b3).wrapping_add(0x9E3779B97F4A7C15));
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for x in b {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
