/// xorshift64*
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        Rng((z ^ (z >> 31)) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    /// 0 .. n-1
    pub fn below(&mut self, n: u64) -> u64 { ((self.next() >> 11) as u128 * n as u128 >> 53) as u64 }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as i64, hi as i64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len() as u64) as usize; &s[i] }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() { let j = self.us(0, i); s.swap(i, j); }
    }
}
