//! Search for arguments that reach every part of a routine, on builds that count which blocks were
//! entered and record what was compared.  The arguments found are used by the other simulations.
use super::calls::*;
use super::engine::*;
use super::lib64::*;
use crate::tape::{Tape, GEN};
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type Args3 = [u128; 3];
/// Calls per routine and build.
const CALLS: u64 = 40_000;
/// Further calls while something new was found among the last ones.
const MORE: u64 = 120_000;
/// Arguments kept per routine and build.
const KEEP: usize = 160;

struct Cov {
    lib: Lib,
    counters: (u64, usize),
    cmps: u64,
    cmp: u64,
    ctx: Box<Ctx>,
}

impl Cov {
    fn load(name: &str, path: &str) -> Option<Cov> {
        let mut lib = Lib::load(name, path);
        for f in &mut lib.fns {
            f.corpus = Rc::default();
        }
        let s = |n: &str| lib.img.syms.get(n).copied();
        let (a, b, cmps, cmp) = (s("__start___sancov_cntrs")?, s("__stop___sancov_cntrs")?, s("nsim_cmps")?, s("nsim_cmp")?);
        Some(Cov { lib, counters: (a, (b - a) as usize), cmps, cmp, ctx: Ctx::new() })
    }
    /// Blocks entered (with how often, coarsely) and how close comparisons came to equality.
    fn run(&mut self, call: &Call, seen: &mut Vec<(u64, u32)>) -> Ev {
        let m = slice_mut(self.counters.0, self.counters.1);
        m.fill(0);
        put64(self.cmps, 0);
        self.ctx.reset();
        prepare(&mut self.ctx, &self.lib.fns[call.f], call, SOLO_SLOT, stack_top(SOLO) - 8);
        let e = resume(&mut self.ctx, false);
        seen.clear();
        let m = slice(self.counters.0, self.counters.1);
        for (k, c) in m.chunks(8).enumerate() {
            if c.iter().all(|&x| x == 0) {
                continue;
            }
            for (j, &n) in c.iter().enumerate() {
                if n != 0 {
                    seen.push(((k * 8 + j) as u64, 8 - n.leading_zeros()));
                }
            }
        }
        for i in 0..get64(self.cmps).min(2048) {
            let at = self.cmp + 24 * i;
            let (pc, a, b) = (get64(at), get64(at + 8), get64(at + 16));
            let d = a.abs_diff(b);
            seen.push((1 << 63 | pc, 64 - d.leading_zeros()));
            seen.push((1 << 62 | pc, 64 - (a ^ b).leading_zeros()));
        }
        e
    }
}

/// Keep arguments within what the routine accepts.
fn legal(f: &Func, a: &mut Args3) {
    let floats = f.args.iter().any(|&c| is_float(c));
    for (i, &k) in f.args.iter().enumerate().take(3) {
        if k == b's' {
            a[i] %= bits(f.args[0]) as u128;
        } else if b"ilx".contains(&k) && floats && f.name.contains('n') && !f.name.contains("scalbn") {
            let v = (a[i] as i32).clamp(-200, 200);
            a[i] = mask(v as i128 as u128, bits(k));
        }
    }
    keep_defined(f, a);
}

fn mutate(t: &mut Tape, f: &Func, a: &Args3, corpus: &[Args3]) -> Args3 {
    if f.mem.is_some() {
        let mut b = gen_args(t, f, MAX_LEN);
        for i in 0..3 {
            if t.chance(GEN, 1, 2) && !(i == 1 && a[0] != b[0]) {
                b[i] = a[i];
            }
        }
        if t.chance(GEN, 1, 3) {
            b[0] = (b[0] + t.below(GEN, 17) as u128).saturating_sub(8).min(MAX_LEN as u128);
        }
        return b;
    }
    let mut b = *a;
    let n = f.args.len().min(3);
    for _ in 0..1 + t.below(GEN, 2) {
        let i = t.below(GEN, n as u64) as usize;
        let w = bits(f.args[i]).max(8);
        match t.below(GEN, 9) {
            0 | 1 => b[i] ^= 1 << t.below(GEN, w as u64),
            2 => b[i] = b[i].wrapping_add(1 + t.below(GEN, 16) as u128),
            3 => b[i] = b[i].wrapping_sub(1 + t.below(GEN, 16) as u128),
            4 => {
                let s = t.below(GEN, w as u64);
                let d = (1 + t.below(GEN, 16) as u128) << s;
                b[i] = if t.chance(GEN, 1, 2) { b[i].wrapping_add(d) } else { b[i].wrapping_sub(d) };
            }
            5 => b[i] = t.pick(GEN, corpus)[i],
            6 => b = near_args(t, f, &b),
            7 => {
                let g = gen_args(t, f, MAX_LEN);
                b[i] = g[i];
            }
            _ => {
                // a run of low bits set or cleared
                let m = (1u128 << t.below(GEN, w as u64)) - 1;
                b[i] = if t.chance(GEN, 1, 2) { b[i] & !m } else { b[i] | m };
            }
        }
        b[i] = mask(b[i], bits(f.args[i]).max(8));
    }
    b
}

/// Arguments that between them enter every block that was entered at all, and come closest to
/// equality in every comparison.
fn explore(cov: &mut Cov, i: usize) -> (Vec<Args3>, Vec<u64>) {
    let mut rng = Rng::new(0x3000 + i as u64);
    let f = cov.lib.fns[i].clone();
    let mut corpus: Vec<Args3> = Vec::new();
    let mut have: BTreeSet<(u64, u32)> = BTreeSet::new();
    // block -> first arguments; comparison -> closest arguments
    let mut blocks: BTreeMap<u64, usize> = BTreeMap::new();
    let mut close: BTreeMap<u64, (u32, usize)> = BTreeMap::new();
    let mut seen = Vec::new();
    let (mut bad, mut last) = (0, 0);
    let mut n = 0;
    while n < CALLS || n < MORE && n - last < CALLS {
        n += 1;
        let mut t = Tape::search(rng.next());
        let mut a = if corpus.is_empty() || t.chance(GEN, 1, 3) {
            gen_args(&mut t, &f, MAX_LEN)
        } else {
            let l = corpus.len() as u64;
            let k = if t.chance(GEN, 1, 2) { l - 1 - t.below(GEN, l.min(8)) } else { t.below(GEN, l) };
            mutate(&mut t, &f, &corpus[k as usize], &corpus)
        };
        legal(&f, &mut a);
        if cov.run(&Call { f: i, a }, &mut seen) != Ev::Ret {
            bad += 1;
            if bad > 3 {
                break;
            }
            continue;
        }
        let k = corpus.len();
        let mut new = false;
        for &(w, v) in &seen {
            if w >> 62 == 0 {
                if have.insert((w, v)) {
                    new = true;
                    if !blocks.contains_key(&w) {
                        blocks.insert(w, k);
                        last = n;
                    }
                }
            } else {
                let best = close.entry(w).or_insert((99, k));
                if v < best.0 {
                    *best = (v, k);
                    new = true;
                }
            }
        }
        if new {
            corpus.push(a);
        }
    }
    let mut ids: BTreeSet<usize> = blocks.values().copied().collect();
    for &(_, k) in close.values() {
        if ids.len() < KEEP {
            ids.insert(k);
        }
    }
    (ids.into_iter().rev().take(KEEP).map(|k| corpus[k]).collect(), blocks.into_keys().collect())
}

/// Explore this process's share of the routines; write what was found.
pub fn main(imgs: &[(&str, String)], part: usize, of: usize, out: &str) {
    map_world();
    let mut s = String::new();
    for (n, p) in imgs {
        let Some(mut cov) = Cov::load(n, p) else { continue };
        cov.lib.img.set_open(true);
        for i in (part..cov.lib.fns.len()).step_by(of) {
            let (v, blocks) = explore(&mut cov, i);
            let pcs = cov.lib.img.syms.get("__start___sancov_pcs").copied();
            s += &format!("# {} {} {} blocks", cov.lib.fns[i].name, cov.lib.name, blocks.len());
            for b in blocks {
                s += &format!(" {:x}", pcs.map_or(b, |p| get64(p + 16 * b)));
            }
            s.push('\n');
            for a in v {
                s += &format!("{} {:x} {:x} {:x}\n", cov.lib.fns[i].name, a[0], a[1], a[2]);
            }
        }
    }
    std::fs::write(out, s).unwrap();
}

/// Tell routines what was found for the images in this directory.
pub fn inform(fns: &mut [Func], image: &str) {
    let Some(d) = std::path::Path::new(image).parent() else { return };
    let c = load(d.join("args.txt").to_str().unwrap());
    for f in fns {
        f.corpus = c.get(&f.name).cloned().unwrap_or_default();
    }
}

fn load(path: &str) -> BTreeMap<String, Rc<Vec<Args3>>> {
    let mut m: BTreeMap<String, BTreeSet<Args3>> = BTreeMap::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let v: Vec<&str> = l.split(' ').collect();
        if v[0] == "#" || v.len() != 4 {
            continue;
        }
        let n = |i: usize| u128::from_str_radix(v[i], 16).unwrap_or(0);
        m.entry(v[0].to_string()).or_default().insert([n(1), n(2), n(3)]);
    }
    m.into_iter().map(|(k, v)| (k, Rc::new(v.into_iter().collect()))).collect()
}
