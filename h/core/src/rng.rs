//! Deterministic generator: every case is a pure function of (seed, stream, index).
#[derive(Clone)]
pub struct Rng {
    s: u64,
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64, stream: u64, index: u64) -> Self {
        let a = mix(seed.wrapping_add(0x9e3779b97f4a7c15));
        let b = mix(stream.wrapping_mul(0xd1342543de82ef95) ^ a);
        Rng { s: mix(index.wrapping_mul(0x2545f4914f6cdd1d) ^ b) }
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.s)
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (((self.u64() >> 32) * n) >> 32).min(n - 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len() as u64) as usize]
    }
}
