//! Deterministic generator of scenario data.
pub struct Rng(u64);
const B: [u8; 18] = [0, 1, 2, 3, 7, 8, 0x0F, 0x10, 0x28, 0x7F, 0x80, 0x81, 0x99, 0x9A, 0xF0, 0xFE, 0xFF, 0x55];
const W: [u16; 22] = [0, 1, 2, 3, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x200, 0x0FFF, 0x1000, 0x7FFE, 0x7FFF, 0x8000,
    0x8001, 0xFF00, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF];
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn bit(&mut self) -> i64 { (self.next() >> 40 & 1) as i64 }
    /// A byte, half of the time one at an edge of some carry or sign.
    pub fn byte(&mut self) -> u8 {
        if self.chance(2, 5) { B[self.below(B.len() as u64) as usize] } else { (self.next() >> 24) as u8 }
    }
    pub fn word(&mut self) -> u16 {
        match self.below(10) {
            0..=2 => W[self.below(W.len() as u64) as usize],
            3 | 4 => (self.byte() as u16) << 8 | self.byte() as u16,
            _ => (self.next() >> 20) as u16,
        }
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
}
const P1: [u8; 12] = [0xDD, 0xFD, 0xED, 0xCB, 0xED, 0xDD, 0xFD, 0xCB, 0xFB, 0x76, 0x37, 0x3F];
const P2: [u8; 12] = [0xFB, 0xFB, 0xF3, 0x76, 0xDD, 0xFD, 0xED, 0xFB, 0x00, 0xED, 0xC9, 0x3C];
const E2: [u8; 10] = [0x45, 0x4D, 0x57, 0x5F, 0x46, 0x56, 0x5E, 0xB0, 0x4D, 0x55];
/// Initial contents of memory: 0 arbitrary, 1 program-like, 2 interrupt-heavy, 3 ED page heavy.
pub fn mem_byte(seed: u64, addr: u16, mode: u8) -> u8 {
    let h = mix(seed ^ (addr as u64) << 32);
    let pick = (h >> 8) as usize % 60;
    match mode {
        1 if h & 3 == 0 => return P1[pick % 12],
        2 => {
            let prev = mix(seed ^ (addr.wrapping_sub(1) as u64) << 32);
            if prev & 1 == 0 && P2[(prev >> 8) as usize % 60 % 12] == 0xED { return E2[pick % 10] }
            if h & 1 == 0 { return P2[pick % 12] }
        }
        3 => {
            let prev = mix(seed ^ (addr.wrapping_sub(1) as u64) << 32);
            if prev & 3 == 0 { return 0x40 | (h >> 20) as u8 & 0xBF }
            if h & 3 == 0 { return 0xED }
        }
        // mostly I/O output and returns
        4 => {
            let prev = mix(seed ^ (addr.wrapping_sub(1) as u64) << 32);
            if prev & 3 == 0 { return [0x41, 0x4D, 0x79, 0xA3, 0xB3, 0x4D, 0x45, 0x4D][pick % 8] }
            if h & 3 == 0 { return 0xED }
            if h & 15 == 1 { return 0xD3 }
        }
        9 => return 0,
        _ => (),
    }
    if h & 3 == 0 { B[(h >> 8) as usize % B.len()] } else { (h >> 16) as u8 }
}
