/// splitmix64 / xorshift generator: small, fast, fully determined by its seed
#[derive(Clone)]
pub struct Rng {
    s: u64,
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng {
            s: seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03,
        };
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, ppm: u64) -> bool {
        self.below(1_000_000) < ppm
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}
