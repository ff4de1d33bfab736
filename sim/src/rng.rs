//! The only source of randomness: splitmix64-seeded xoshiro256**.
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }
pub fn mix(mut z: u64) -> u64 { z = z.wrapping_add(0x9E3779B97F4A7C15); z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
pub fn mix2(a: u64, b: u64) -> u64 { mix(a ^ mix(b).rotate_left(17)) }
impl Rng {
    pub fn new(seed: u64) -> Self { let mut s = [0; 4]; let mut x = seed; for v in s.iter_mut() { x = x.wrapping_add(0x9E3779B97F4A7C15); *v = mix(x); } Rng { s } }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3]; self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn weighted(&mut self, w: &[u64]) -> usize { let t: u64 = w.iter().sum(); let mut x = self.below(t); for (i, v) in w.iter().enumerate() { if x < *v { return i; } x -= v; } w.len() - 1 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n + 8); while v.len() < n { v.extend_from_slice(&self.next().to_le_bytes()); } v.truncate(n); v }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); } }
}
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { self.next() as u32 }
    fn next_u64(&mut self) -> u64 { self.next() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let b = self.next().to_le_bytes(); let n = c.len(); c.copy_from_slice(&b[..n]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
