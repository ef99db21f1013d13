//! Small helpers: random numbers, hashing, JSON output.
use std::fmt::Write;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

/// Seed of run `index` under the base seed.
pub fn run_seed(base: u64, index: u64, salt: &str) -> u64 {
    let mut h = Hash::new();
    h.u64(base);
    h.u64(index);
    for b in salt.bytes() {
        h.u64(b as u64);
    }
    h.get()
}

/// Order-dependent 64-bit hash (FNV-like with strong finish).
#[derive(Clone)]
pub struct Hash(u64);
impl Default for Hash {
    fn default() -> Self {
        Self::new()
    }
}
impl Hash {
    pub fn new() -> Self {
        Hash(0x243f6a8885a308d3)
    }
    #[inline]
    pub fn u64(&mut self, v: u64) {
        let mut z = self.0 ^ v.wrapping_mul(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 32)).wrapping_mul(0xd6e8feb86659fd93);
        self.0 = z ^ (z >> 29);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u64(u64::from_le_bytes(w));
        }
        self.u64(b.len() as u64);
    }
    pub fn get(&self) -> u64 {
        let mut x = self.0;
        splitmix(&mut x)
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
