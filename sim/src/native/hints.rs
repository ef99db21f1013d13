//! What the code of a routine suggests about interesting arguments (constants it compares with or
//! computes with), and where it refers to writable static data.
use super::engine::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Hint {
    F64(u64),
    F32(u32),
    Int(u64),
}

#[derive(Default, Clone)]
struct Body {
    calls: BTreeSet<u64>,
    hints: BTreeSet<Hint>,
    sites: BTreeSet<u64>,
}

pub struct Hints {
    bodies: BTreeMap<u64, Body>,
}

fn w32(c: &[u8], i: usize) -> Option<u32> {
    c.get(i..i + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()))
}

impl Hints {
    /// Bytes are looked at without regard to instruction boundaries: what is found by mistake does
    /// no harm.
    pub fn of(img: &Image) -> Hints {
        let starts: BTreeSet<u64> = img.starts().collect();
        let got = img.syms.get("_GLOBAL_OFFSET_TABLE_").copied().unwrap_or(0) as u32;
        let mut bodies = BTreeMap::new();
        for &(base, len) in &img.code {
            let all: Vec<u64> = starts.range(base..base + len as u64).copied().collect();
            for (k, &a) in all.iter().enumerate() {
                let end = all.get(k + 1).copied().unwrap_or(base + len as u64);
                let c = slice(a, (end - a) as usize);
                let mut b = Body::default();
                for i in 0..c.len() {
                    let pc = a + i as u64;
                    if matches!(c[i], 0xe8 | 0xe9) || (c[i] == 0x0f && c.get(i + 1).is_some_and(|x| x & 0xf0 == 0x80)) {
                        let o = if c[i] == 0x0f { 2 } else { 1 };
                        if let Some(d) = w32(c, i + o) {
                            let to = pc.wrapping_add(o as u64 + 4).wrapping_add(d as i32 as i64 as u64);
                            if to != a && starts.contains(&to) {
                                b.calls.insert(to);
                            }
                        }
                    }
                    let Some(d) = w32(c, i) else { continue };
                    // relative to the instruction's end, or to the global offset table
                    let m = if i > 0 { c[i - 1] } else { 0 };
                    if if img.wide { m & 0xc7 != 5 } else { m >> 6 != 2 } {
                        continue;
                    }
                    for tail in [0u64, 1, 2, 4] {
                        let at = if img.wide { pc.wrapping_add(4 + tail).wrapping_add(d as i32 as i64 as u64) } else { got.wrapping_add(d) as u64 };
                        if img.wide && img.in_exact_data(at) {
                            b.sites.insert(pc);
                        } else if tail == 0 {
                            if img.in_ro(at) && img.in_ro(at + 7) {
                                let v = slice(at, 8);
                                let w = u64::from_le_bytes(v.try_into().unwrap());
                                let p = if img.wide { w } else { w & 0xffff_ffff };
                                // a call through a table
                                if starts.contains(&p) {
                                    b.calls.insert(p);
                                    continue;
                                }
                                b.hints.insert(Hint::F64(w));
                                b.hints.insert(Hint::F32(u32::from_le_bytes(v[..4].try_into().unwrap())));
                            }
                        }
                    }
                }
                for i in 0..c.len() {
                    let imm = match c[i] {
                        0x3d | 0x05 | 0x2d | 0x25 | 0x35 | 0xa9 | 0xb8..=0xbf => w32(c, i + 1),
                        0x81 | 0x8d | 0x69 if c.get(i + 1).is_some_and(|m| m >> 6 >= 2) => w32(c, i + 2),
                        0x83 if c.get(i + 1).is_some_and(|m| m >> 6 == 3) => c.get(i + 2).map(|&x| x as i8 as i32 as u32),
                        _ => None,
                    };
                    if let Some(v) = imm {
                        b.hints.insert(Hint::Int(v as u64));
                    }
                    if i > 0 && c[i - 1] & 0xf8 == 0x48 && (0xb8..=0xbf).contains(&c[i]) && i + 9 <= c.len() {
                        let v = u64::from_le_bytes(c[i + 1..i + 9].try_into().unwrap());
                        b.hints.insert(Hint::Int(v));
                        b.hints.insert(Hint::F64(v));
                    }
                }
                bodies.insert(a, b);
            }
        }
        Hints { bodies }
    }

    /// Hints and references to static data of a routine and of everything it calls.
    pub fn routine(&self, addr: u64) -> (Vec<Hint>, Vec<u64>) {
        let (mut hints, mut sites) = (BTreeSet::new(), BTreeSet::new());
        let mut seen = BTreeSet::from([addr]);
        let mut todo = vec![(addr, 0)];
        while let Some((a, depth)) = todo.pop() {
            let Some(b) = self.bodies.get(&a) else { continue };
            hints.extend(b.hints.iter().copied().filter(plausible));
            sites.extend(b.sites.iter().copied());
            for &c in &b.calls {
                if depth < 6 && seen.insert(c) {
                    todo.push((c, depth + 1));
                }
            }
        }
        (hints.into_iter().take(400).collect(), sites.into_iter().collect())
    }
}

fn plausible(h: &Hint) -> bool {
    match *h {
        Hint::F64(b) => {
            let e = b >> 52 & 0x7ff;
            (1..0x7ff).contains(&e)
        }
        Hint::F32(b) => {
            let e = b >> 23 & 0xff;
            (64..192).contains(&e) && b << 9 != 0
        }
        Hint::Int(_) => true,
    }
}
