//! Small deterministic random number generator (xorshift*), so that every
//! run is determined by its seed.
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x2545_F491_4F6C_DD1D);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..8 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { ((self.u64() >> 11) % n as u64) as usize }
    }
    /// lo..=hi
    pub fn r(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    /// true with probability p percent
    pub fn p(&mut self, p: usize) -> bool {
        self.n(100) < p
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.n(s.len())]
    }
    /// A word with a bias towards interesting values.
    pub fn word(&mut self) -> u16 {
        const EDGE: [u16; 20] = [
            0, 1, 2, 3, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x0FFF, 0x4000, 0x6C00, 0x6BFF, 0x7FFE,
            0x7FFF, 0x8000, 0x8001, 0x9400, 0xFF00, 0xFFFF,
        ];
        match self.n(6) {
            0 => EDGE[self.n(EDGE.len())],
            1 => 1 << self.n(16),
            _ => (self.u64() >> 20) as u16,
        }
    }
    pub fn byte(&mut self) -> u8 {
        match self.n(8) {
            0 => 0,
            1 => 255,
            _ => (self.u64() >> 20) as u8,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
}
