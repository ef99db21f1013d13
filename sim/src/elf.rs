//! Minimal ELF reader: loadable segments and symbols (32/64 bit, both byte orders).
use std::collections::BTreeMap;

pub struct Segment {
    pub addr: u64,
    pub data: Vec<u8>,
    pub flags: u32,
    /// written only while loading
    pub relro: bool,
}

pub struct Elf {
    pub big: bool,
    pub is64: bool,
    pub segs: Vec<Segment>,
    pub syms: BTreeMap<String, Sym>,
}

#[derive(Clone, Copy, Debug)]
pub struct Sym {
    pub addr: u64,
    pub size: u64,
    pub typ: u8,
    pub global: bool,
}

impl Elf {
    pub fn load(path: &str) -> Elf {
        let b = std::fs::read(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        assert_eq!(&b[..4], b"\x7fELF");
        let is64 = b[4] == 2;
        let big = b[5] == 2;
        let u16_ = |o: usize| if big { u16::from_be_bytes([b[o], b[o + 1]]) } else { u16::from_le_bytes([b[o], b[o + 1]]) } as u64;
        let u32_ = |o: usize| {
            let x: [u8; 4] = b[o..o + 4].try_into().unwrap();
            (if big { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) }) as u64
        };
        let u64_ = |o: usize| {
            let x: [u8; 8] = b[o..o + 8].try_into().unwrap();
            if big {
                u64::from_be_bytes(x)
            } else {
                u64::from_le_bytes(x)
            }
        };
        let (phoff, shoff, phsz, phn, shsz, shn) = if is64 {
            (u64_(32), u64_(40), u16_(54), u16_(56), u16_(58), u16_(60))
        } else {
            (u32_(28), u32_(32), u16_(42), u16_(44), u16_(46), u16_(48))
        };
        let mut segs = Vec::new();
        let mut relro = Vec::new();
        for i in 0..phn {
            let o = (phoff + i * phsz) as usize;
            if u32_(o) == 0x6474_e552 {
                relro.push(if is64 { (u64_(o + 16), u64_(o + 40)) } else { (u32_(o + 8), u32_(o + 20)) });
            }
            if u32_(o) != 1 {
                continue;
            }
            let (off, va, fsz, msz, fl) = if is64 {
                (u64_(o + 8), u64_(o + 16), u64_(o + 32), u64_(o + 40), u32_(o + 4))
            } else {
                (u32_(o + 4), u32_(o + 8), u32_(o + 16), u32_(o + 20), u32_(o + 24))
            };
            let mut data = b[off as usize..(off + fsz) as usize].to_vec();
            data.resize(msz as usize, 0);
            segs.push(Segment { addr: va, data, flags: fl as u32, relro: false });
        }
        for s in &mut segs {
            s.relro = relro.iter().any(|(a, l)| s.addr >= *a && s.addr < a + l);
        }
        let mut syms = BTreeMap::new();
        for i in 0..shn {
            let o = (shoff + i * shsz) as usize;
            if u32_(o + 4) != 2 {
                continue;
            }
            let (off, size, link) = if is64 { (u64_(o + 24), u64_(o + 32), u32_(o + 40)) } else { (u32_(o + 16), u32_(o + 20), u32_(o + 24)) };
            let so = (shoff + link * shsz) as usize;
            let stroff = if is64 { u64_(so + 24) } else { u32_(so + 16) } as usize;
            let ent = if is64 { 24 } else { 16 };
            for k in 0..size / ent {
                let p = (off + k * ent) as usize;
                let (name, val, sz, info, shndx) = if is64 {
                    (u32_(p), u64_(p + 8), u64_(p + 16), b[p + 4], u16_(p + 6))
                } else {
                    (u32_(p), u32_(p + 4), u32_(p + 8), b[p + 12], u16_(p + 14))
                };
                if shndx == 0 {
                    continue;
                }
                let n0 = stroff + name as usize;
                let n1 = n0 + b[n0..].iter().position(|&c| c == 0).unwrap();
                let name = String::from_utf8_lossy(&b[n0..n1]).to_string();
                let global = info >> 4 != 0;
                let s = Sym { addr: val, size: sz, typ: info & 15, global };
                if global || !syms.contains_key(&name) {
                    syms.insert(name, s);
                }
            }
        }
        Elf { big, is64, segs, syms }
    }
}
