//! Which processor features an x86 instruction needs.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Need {
    /// part of every processor the code is compiled for
    Base,
    Sse3,
    Ssse3,
    Sse41,
    Sse42,
    Sse4a,
    Popcnt,
    Movbe,
    Lzcnt,
    Bmi1,
    Bmi2,
    Adx,
    Aes,
    Clmul,
    Sha,
    Cx16,
    Rdrand,
    Rdseed,
    Avx,
    Avx2,
    F16c,
    Fma,
    Fma4,
    Xop,
    Avx512,
    /// XGETBV and friends
    Xsave,
    Cpuid,
    Xgetbv,
}

pub struct Vex {
    pub map: u8,
    pub pp: u8,
    pub w: bool,
    pub l: bool,
    pub r: bool,
    pub x: bool,
    pub b: bool,
    pub vvvv: u8,
    pub op: u8,
    /// offset of the ModRM byte
    pub modrm: usize,
}

pub fn vex(c: &[u8]) -> Option<Vex> {
    match c[0] {
        0xc5 => Some(Vex { map: 1, pp: c[1] & 3, w: false, l: c[1] & 4 != 0, r: c[1] & 0x80 == 0, x: false, b: false, vvvv: (!c[1] >> 3) & 15, op: c[2], modrm: 3 }),
        0xc4 | 0x8f => Some(Vex {
            map: c[1] & 31,
            pp: c[2] & 3,
            w: c[2] & 0x80 != 0,
            l: c[2] & 4 != 0,
            r: c[1] & 0x80 == 0,
            x: c[1] & 0x40 == 0,
            b: c[1] & 0x20 == 0,
            vvvv: (!c[2] >> 3) & 15,
            op: c[3],
            modrm: 4,
        }),
        _ => None,
    }
}

/// Classify the instruction (64-bit or 32-bit code) at the start of `c` (at least 15 bytes).
pub fn need(c: &[u8], wide: bool) -> Need {
    let mut i = 0;
    let (mut p66, mut f2, mut f3) = (false, false, false);
    loop {
        match c[i] {
            0x66 => p66 = true,
            0xf2 => {
                f2 = true;
                f3 = false;
            }
            0xf3 => {
                f3 = true;
                f2 = false;
            }
            0xf0 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 => {}
            _ => break,
        }
        i += 1;
        if i > 10 {
            return Need::Base;
        }
    }
    let mut rexw = false;
    if wide && c[i] & 0xf0 == 0x40 {
        rexw = c[i] & 8 != 0;
        i += 1;
    }
    let op = c[i];
    match op {
        // LES, LDS, BOUND
        0xc4 | 0xc5 | 0x62 if !wide && c[i + 1] < 0xc0 => return Need::Base,
        0xc4 | 0xc5 => return vex_need(&vex(&c[i..]).unwrap()),
        0x62 => return Need::Avx512,
        0x8f if c[i + 1] & 0x38 != 0 => return Need::Xop,
        0x0f => {}
        0xdb | 0xdd | 0xdf => {
            // fisttp
            let m = c[i + 1];
            if m < 0xc0 && (m >> 3) & 7 == 1 {
                return Need::Sse3;
            }
            return Need::Base;
        }
        _ => return Need::Base,
    }
    let o2 = c[i + 1];
    let m = c[i + 2];
    match o2 {
        0xa2 => Need::Cpuid,
        0x01 => match m {
            0xd0 => Need::Xgetbv,
            0xd1 => Need::Xsave,
            _ => Need::Base,
        },
        0x38 => match c[i + 2] {
            0x00..=0x0b | 0x1c..=0x1e => Need::Ssse3,
            0x37 => Need::Sse42,
            0x10..=0x41 => Need::Sse41,
            0xc8..=0xcd => Need::Sha,
            0xdb..=0xdf => Need::Aes,
            0xf0 | 0xf1 if f2 => Need::Sse42,
            0xf0 | 0xf1 => Need::Movbe,
            0xf6 => Need::Adx,
            _ => Need::Base,
        },
        0x3a => match c[i + 2] {
            0x0f => Need::Ssse3,
            0x44 => Need::Clmul,
            0x60..=0x63 => Need::Sse42,
            0xcc => Need::Sha,
            0xdf => Need::Aes,
            _ => Need::Sse41,
        },
        0x12 if f2 || f3 => Need::Sse3,
        0x16 if f3 => Need::Sse3,
        0x7c | 0x7d | 0xd0 if p66 || f2 => Need::Sse3,
        0xf0 if f2 => Need::Sse3,
        0x78 | 0x79 if p66 || f2 => Need::Sse4a,
        0x2b if f2 || f3 => Need::Sse4a,
        0xb8 if f3 => Need::Popcnt,
        0xbd if f3 => Need::Lzcnt,
        // F3 0F BC is compiled for processors that read it as BSF, too
        0xae if m < 0xc0 && (m >> 3) & 7 >= 4 && (m >> 3) & 7 != 7 => Need::Xsave,
        0xc7 => match (m >> 3) & 7 {
            1 if rexw => Need::Cx16,
            6 if m >= 0xc0 => Need::Rdrand,
            7 if m >= 0xc0 => Need::Rdseed,
            3 | 4 | 5 => Need::Xsave,
            _ => Need::Base,
        },
        _ => Need::Base,
    }
}

fn vex_need(v: &Vex) -> Need {
    match v.map {
        2 => match v.op {
            0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf => Need::Fma,
            0x13 => Need::F16c,
            0xf2 | 0xf3 => Need::Bmi1,
            0xf5 | 0xf6 => Need::Bmi2,
            0xf7 if v.pp == 0 => Need::Bmi1,
            0xf7 => Need::Bmi2,
            0xdb..=0xdf => Need::Avx,
            0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93 => Need::Avx2,
            0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x2b | 0x30..=0x40 if v.l => Need::Avx2,
            _ => Need::Avx,
        },
        3 => match v.op {
            0x1d => Need::F16c,
            0xf0 => Need::Bmi2,
            0x5c..=0x5f | 0x68..=0x6f | 0x78..=0x7f => Need::Fma4,
            0x00 | 0x01 | 0x02 | 0x38 | 0x39 | 0x46 => Need::Avx2,
            0x0e | 0x0f | 0x42 | 0x4c if v.l => Need::Avx2,
            _ => Need::Avx,
        },
        1 => match v.op {
            0x60..=0x6d | 0x70..=0x76 | 0xd1..=0xd5 | 0xd7..=0xe5 | 0xe8..=0xef | 0xf1..=0xfe if v.l && v.pp != 0 => Need::Avx2,
            _ => Need::Avx,
        },
        _ => Need::Avx,
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    fn n(b: &[u8]) -> Need {
        let mut v = b.to_vec();
        v.resize(16, 0x90);
        need(&v, true)
    }
    #[test]
    fn classes() {
        assert_eq!(n(&[0x0f, 0xa2]), Need::Cpuid);
        assert_eq!(n(&[0x0f, 0x01, 0xd0]), Need::Xgetbv);
        // vfmadd213sd xmm0, xmm1, xmm2
        assert_eq!(n(&[0xc4, 0xe2, 0xf1, 0xa9, 0xc2]), Need::Fma);
        // vfmaddsd xmm0, xmm0, xmm1, xmm2
        assert_eq!(n(&[0xc4, 0xe3, 0xf9, 0x6b, 0xc2, 0x10]), Need::Fma4);
        assert_eq!(n(&[0xf3, 0x0f, 0xb8, 0xc0]), Need::Popcnt);
        assert_eq!(n(&[0xf3, 0x48, 0x0f, 0xbd, 0xc0]), Need::Lzcnt);
        assert_eq!(n(&[0xf3, 0x0f, 0xbc, 0xc0]), Need::Base);
        assert_eq!(n(&[0x66, 0x0f, 0x3a, 0x0b, 0xc0, 0x0b]), Need::Sse41);
        assert_eq!(n(&[0xc5, 0xf8, 0x28, 0xc1]), Need::Avx);
        assert_eq!(n(&[0x0f, 0xae, 0x54, 0x24, 0x04]), Need::Base);
        assert_eq!(n(&[0x48, 0x0f, 0xc7, 0x0f]), Need::Cx16);
        assert_eq!(n(&[0xf2, 0x0f, 0x58, 0xc1]), Need::Base);
        // 32-bit: inc eax before popcnt; les
        assert_eq!(need(&[0x40, 0xf3, 0x0f, 0xb8, 0xc0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], false), Need::Base);
        assert_eq!(need(&[0xc4, 0x02, 0xf1, 0xa9, 0xc2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], false), Need::Base);
        assert_eq!(need(&[0xc4, 0xe2, 0xf1, 0xa9, 0xc2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], false), Need::Fma);
    }
}
