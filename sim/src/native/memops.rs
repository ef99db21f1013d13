//! C05: the x86-64 memory routines, instruction by instruction, with page faults, neighbours that
//! change and unmapped surroundings.
use super::engine::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN, SCHED};
use crate::util::{splitmix, Hash};

pub struct MemProp {
    imgs: Vec<(String, Image)>,
    c: Box<Ctx>,
}

/// Operands of many gigabytes start here; only the pages at their two ends exist.
const HUGE: [u64; 2] = [0x1000_0000_0000, 0x3000_0000_0000];

/// Two operand areas of PAGES pages, each surrounded by unmapped pages.
const AREA: [u64; 2] = [0x5000_0000, 0x5010_0000];
const PAGES: u64 = 3;
const PG: u64 = 4096;
const LEN: u64 = PAGES * PG;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Memcpy,
    Memmove,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
}
const OPS: [(Op, &str); 6] = [(Op::Memcpy, "memcpy"), (Op::Memmove, "memmove"), (Op::Memset, "memset"), (Op::Memcmp, "memcmp"), (Op::Bcmp, "bcmp"), (Op::Strlen, "strlen")];

impl MemProp {
    pub fn new(imgs: &[(&str, String)]) -> Self {
        super::lib64::map_world();
        for a in AREA {
            map_fixed(a, LEN as usize, P_RW);
        }
        for a in HUGE {
            for e in std::iter::once(0).chain((31..=44).map(|k| 1u64 << k)) {
                map_fixed(a + e - 2 * PG * (e > 0) as u64, 4 * PG as usize, P_RW);
            }
        }
        MemProp { imgs: imgs.iter().map(|(n, p)| (n.to_string(), Image::load(p))).collect(), c: Ctx::new() }
    }
}

struct Operand {
    addr: u64,
    len: u64,
    write: bool,
}
impl Operand {
    fn has(&self, a: u64) -> bool {
        a >= self.addr && a < self.addr + self.len
    }
    fn pages(&self) -> std::ops::Range<u64> {
        if self.len == 0 {
            return 0..0;
        }
        self.addr / PG..(self.addr + self.len - 1) / PG + 1
    }
}

fn draw_len(t: &mut Tape) -> u64 {
    match t.weighted(GEN, &[3, 5, 4, 2, 1]) {
        0 => t.below(GEN, 4),
        1 => t.below(GEN, 24),
        2 => t.below(GEN, 100),
        3 => t.below(GEN, 600),
        _ => t.below(GEN, 5000),
    }
}

/// Place an operand of `len` bytes in an area: against the first or last byte, across a page
/// boundary, or anywhere.
fn place(t: &mut Tape, base: u64, len: u64) -> u64 {
    match t.weighted(GEN, &[2, 4, 4, 3]) {
        0 => base + 64 + t.below(GEN, 32),
        1 => base + LEN - len - t.below(GEN, 20).min(LEN - len),
        2 => base + t.below(GEN, 20).min(LEN - len),
        _ => {
            let b = base + PG * (1 + t.below(GEN, 2));
            let back = t.below(GEN, 40).min(b - base);
            (b - back).min(base + LEN - len)
        }
    }
}

impl Prop for MemProp {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut r = RunResult::default();
        let ii = t.below(GEN, self.imgs.len() as u64) as usize;
        let (iname, img) = &mut self.imgs[ii];
        let (op, name) = OPS[t.below(GEN, OPS.len() as u64) as usize];
        let Some(&f) = img.syms.get(name) else {
            r.count("routine not in this image", 1);
            return r;
        };
        if op != Op::Strlen && !iname.contains("86") && t.chance(GEN, 1, 32) {
            return huge(&mut self.c, iname, img, op, name, f, t, verbose);
        }
        for a in AREA {
            protect(a, LEN as usize, P_RW);
        }
        let n = draw_len(t);
        let mut x = t.bits(GEN, 32);
        let few = t.chance(GEN, 1, 2);
        for a in AREA {
            for w in slice_mut(a, LEN as usize).chunks_mut(8) {
                let v = splitmix(&mut x).to_le_bytes();
                for (d, s) in w.iter_mut().zip(v) {
                    *d = if few { 1 + (s & 1) * 0x7f } else { s };
                }
            }
        }
        // operands: p is rdi, q is rsi
        let p = if op == Op::Strlen { place(t, AREA[0], n + 1) } else { place(t, AREA[0], n) };
        let mut q = 0;
        let mut ops = Vec::new();
        let fill = t.bits(GEN, 8) as u8;
        let mut strend = 0;
        match op {
            Op::Memset => ops.push(Operand { addr: p, len: n, write: true }),
            Op::Strlen => {
                for a in p..p + n {
                    let b = slice_mut(a, 1);
                    if b[0] == 0 {
                        b[0] = 0x80;
                    }
                }
                strend = p + n;
                slice_mut(strend, 1)[0] = 0;
                ops.push(Operand { addr: p, len: strend - p + 1, write: false });
            }
            Op::Memmove if t.chance(GEN, 3, 4) => {
                let d = match t.below(GEN, 3) {
                    0 => t.below(GEN, 20),
                    1 => t.below(GEN, n + 9),
                    _ => [0, 1, 7, 8, 9, 15, 16, 17][t.below(GEN, 8) as usize],
                };
                q = if t.chance(GEN, 1, 2) { (p + d).min(AREA[0] + LEN - n) } else { p.saturating_sub(d).max(AREA[0]) };
                ops.push(Operand { addr: p, len: n, write: true });
                ops.push(Operand { addr: q, len: n, write: false });
            }
            Op::Memcpy | Op::Memmove => {
                q = place(t, AREA[1], n);
                ops.push(Operand { addr: p, len: n, write: true });
                ops.push(Operand { addr: q, len: n, write: false });
            }
            Op::Memcmp | Op::Bcmp => {
                q = place(t, AREA[1], n);
                let src = slice(p, n as usize).to_vec();
                slice_mut(q, n as usize).copy_from_slice(&src);
                if n > 0 && t.chance(GEN, 3, 4) {
                    let k = t.below(GEN, n);
                    let b = slice_mut(q + k, 1);
                    b[0] = b[0].wrapping_add(1 + t.bits(GEN, 7) as u8);
                    // differences after the first must not matter
                    for _ in 0..t.below(GEN, 3) {
                        let j = k + t.below(GEN, n - k);
                        if j != k {
                            slice_mut(q + j, 1)[0] = t.bits(GEN, 8) as u8;
                        }
                    }
                }
                ops.push(Operand { addr: p, len: n, write: false });
                ops.push(Operand { addr: q, len: n, write: false });
            }
        }
        let n = if op == Op::Strlen { strend - p } else { n };
        // expected result and memory
        let mut want = [slice(AREA[0], LEN as usize).to_vec(), slice(AREA[1], LEN as usize).to_vec()];
        let at = |a: u64| -> (usize, usize) {
            let i = (a >= AREA[1]) as usize;
            (i, (a - AREA[i]) as usize)
        };
        match op {
            Op::Memcpy | Op::Memmove => {
                let v = slice(q, n as usize).to_vec();
                let (i, o) = at(p);
                want[i][o..o + n as usize].copy_from_slice(&v);
            }
            Op::Memset => {
                let (i, o) = at(p);
                want[i][o..o + n as usize].fill(fill);
            }
            _ => {}
        }
        let wret: i64 = match op {
            Op::Memcpy | Op::Memmove | Op::Memset => p as i64,
            Op::Strlen => n as i64,
            Op::Memcmp | Op::Bcmp => (0..n).map(|i| slice(p + i, 1)[0] as i64 - slice(q + i, 1)[0] as i64).find(|d| *d != 0).unwrap_or(0),
        };
        // Fault plan: pages of operands out at the start; the others mapped only if they belong to
        // an operand.  Neighbour bytes are those in operand pages but outside the operands.
        let paged = t.chance(FAULT, 1, 2);
        let evict = if paged { [0, 1, 6][t.below(FAULT, 3) as usize] } else { 0 };
        let mut present = std::collections::BTreeSet::new();
        let mut of = std::collections::BTreeMap::new();
        for o in &ops {
            for pg in o.pages() {
                *of.entry(pg).or_insert(false) |= o.write;
            }
        }
        for a in AREA {
            for pg in a / PG..(a + LEN) / PG {
                match of.get(&pg) {
                    Some(&w) if !paged => {
                        present.insert(pg);
                        protect(pg * PG, PG as usize, if w { P_RW } else { P_R });
                    }
                    _ => protect(pg * PG, PG as usize, P_NONE),
                }
            }
        }
        let mutate = [0u64, 2, 8, 16][t.weighted(SCHED, &[1, 2, 3, 2])];
        // candidate neighbour bytes: near operand ends, inside operand pages
        let mut near: Vec<u64> = Vec::new();
        for o in &ops {
            let last = o.addr + o.len;
            for a in (o.addr.saturating_sub(24)..o.addr).chain(last..last + 24) {
                if of.contains_key(&(a / PG)) && !ops.iter().any(|o| o.has(a)) {
                    near.push(a);
                }
            }
        }
        near.dedup();
        let c = &mut self.c;
        c.reset();
        img.pristine();
        let b32 = iname.contains("86");
        let red_zone = if b32 { 0 } else { 128 };
        let args = match op {
            Op::Memset => [p, fill as u64 | t.bits(GEN, 32) << 8 & 0xffff_ff00, n],
            Op::Strlen => [p, 0, 0],
            _ => [p, q, n],
        };
        c.rip = f;
        if b32 {
            let sp = stack_top(0) - 64;
            put32(sp, SENTINEL as u32);
            for (i, a) in args.iter().enumerate() {
                put32(sp + 4 + 4 * i as u64, *a as u32);
            }
            c.cs = CS32;
            c.r[RSP] = sp;
        } else {
            let sp = stack_top(0) - 8;
            put64(sp, SENTINEL);
            c.r[RSP] = sp;
            (c.r[RDI], c.r[RSI], c.r[RDX]) = (args[0], args[1], args[2]);
        }
        let (mut log, mut sig) = (Hash::new(), Hash::new());
        sig.u64(op as u64 | n << 8 | (p & 4095) << 24 | (q & 4095) << 40 | (ii as u64) << 56);
        if verbose {
            r.trace.push(format!("{iname}: {name} p={p:#x} q={q:#x} n={n} fill={fill:#x} paged={paged}"));
        }
        let show = format!("{name}({:#x}{}, {}) [{iname}]", p, if q != 0 { format!(", {q:#x}") } else { String::new() }, n);
        let (mut steps, mut faults, mut muts, mut evs, mut irqs) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut viol: Option<(String, String)> = None;
        let irq_den = if t.chance(FAULT, 1, 2) { 64 } else { 0 };
        let wop = ops.iter().find(|o| o.write).map(|o| (o.addr, o.len));
        loop {
            // other threads update neighbouring bytes between two instructions
            if mutate > 0 && !near.is_empty() && t.chance(SCHED, mutate, 32) {
                let a = near[t.below(SCHED, near.len() as u64) as usize];
                let pg = a / PG;
                let v = slice_val(a, &present, &of, pg, None).wrapping_add(1 + t.below(SCHED, 3) as u8);
                slice_val(a, &present, &of, pg, Some(v));
                let (i, o) = at(a);
                want[i][o] = v;
                muts += 1;
                sig.u64(steps << 16 | a & 0xffff);
                if verbose {
                    r.trace.push(format!("  step {steps}: another thread writes {v:#x} to {a:#x}"));
                }
            }
            if irq_den > 0 && t.chance(FAULT, 1, irq_den) {
                let s = c.r[RSP];
                slice_mut(s - red_zone - 1024, 1024).fill(0xb7);
                irqs += 1;
                if verbose {
                    r.trace.push(format!("  step {steps}: interrupt overwrites memory below the protected area"));
                }
            }
            if evict > 0 && !present.is_empty() && t.chance(FAULT, evict, 64) {
                let v: Vec<u64> = present.iter().copied().collect();
                let pg = v[t.below(FAULT, v.len() as u64) as usize];
                protect(pg * PG, PG as usize, P_NONE);
                present.remove(&pg);
                evs += 1;
                sig.u64(steps << 16 | 0xe);
                if verbose {
                    r.trace.push(format!("  step {steps}: page {:#x} taken away", pg * PG));
                }
            }
            let ev = resume(c, true);
            log.u64(c.rip);
            steps += 1;
            match ev {
                Ev::Step => {}
                Ev::Ret => break,
                Ev::Fault { addr, write, .. } => {
                    let pg = addr / PG;
                    match of.get(&pg) {
                        Some(&w) if !present.contains(&pg) => {
                            if write && !wop.is_some_and(|(a, l)| addr >= a && addr < a + l) {
                                viol = Some(("write".into(), format!("{show} writes to {addr:#x} outside its destination")));
                                break;
                            }
                            protect(pg * PG, PG as usize, if w { P_RW } else { P_R });
                            present.insert(pg);
                            faults += 1;
                            log.u64(addr);
                            sig.u64(addr);
                            if verbose {
                                r.trace.push(format!("  step {steps}: page fault at {addr:#x}, page brought in"));
                            }
                        }
                        _ => {
                            viol = Some(("access".into(), format!("{show} {} {addr:#x}, outside its operands' pages", if write { "writes to" } else { "reads" })));
                            break;
                        }
                    }
                }
                Ev::Timeout => {
                    viol = Some(("stuck".into(), format!("{show} does not finish")));
                    break;
                }
                e => {
                    viol = Some(("crash".into(), format!("{show}: {e:?} at {}", img.name_of(c.rip))));
                    break;
                }
            }
            // neighbours keep what their owners wrote
            for &a in &near {
                let pg = a / PG;
                if present.contains(&pg) {
                    let (i, o) = at(a);
                    let v = slice(a, 1)[0];
                    if v != want[i][o] {
                        viol = Some(("neighbour".into(), format!("{show}: byte at {a:#x} outside the destination changed from {:#x} to {v:#x} by the instruction before {}", want[i][o], img.name_of(c.rip))));
                        break;
                    }
                }
            }
            if viol.is_some() {
                break;
            }
            if steps > 200_000 {
                viol = Some(("stuck".into(), format!("{show} does not finish within 200000 instructions")));
                break;
            }
        }
        for a in AREA {
            protect(a, LEN as usize, P_RW);
        }
        if viol.is_none() {
            let got = match op {
                Op::Memcmp | Op::Bcmp => c.r[RAX] as i32 as i64,
                _ => c.r[RAX] as i64,
            };
            let ok = match op {
                Op::Memcmp => got.signum() == wret.signum(),
                Op::Bcmp => (got != 0) == (wret != 0),
                _ => got == wret,
            };
            log.u64(got as u64);
            if !ok {
                viol = Some(("result".into(), format!("{show} returned {got:#x}, expected {wret:#x}")));
            }
            for i in 0..2 {
                let m = slice(AREA[i], LEN as usize);
                if let Some(o) = (0..LEN as usize).find(|&o| m[o] != want[i][o]) {
                    if viol.is_none() {
                        let a = AREA[i] + o as u64;
                        viol = Some(("contents".into(), format!("{show}: byte at {a:#x} is {:#x} afterwards, expected {:#x}", m[o], want[i][o])));
                    }
                }
            }
        }
        r.violation = viol;
        r.count("fault: page of an operand not present", faults);
        r.count("fault: page taken away during the call", evs);
        r.count("fault: neighbouring byte updated by another thread during the call", muts);
        r.count("fault: interrupt that overwrites the memory below the protected area", irqs);
        r.count(&format!("calls of {name} [{iname}]"), 1);
        r.nontrivial = faults + muts + irqs > 0;
        r.steps = steps;
        r.log_hash = log.get();
        r.sig = sig.get();
        r.summary = format!("{show}: {faults} page faults, {evs} evictions, {muts} neighbour updates");
        r
    }
}

/// A call whose operands are larger than memory: the pages at both ends exist, the run ends at the
/// first access to a page between them.  What can be judged until then: no access outside the
/// operands, no byte other than its old or final value, and no return before everything is done.
#[allow(clippy::too_many_arguments)]
fn huge(c: &mut Ctx, iname: &str, img: &mut Image, op: Op, name: &str, f: u64, t: &mut Tape, verbose: bool) -> RunResult {
    let mut r = RunResult::default();
    let k = 31 + t.below(GEN, 14);
    let lo = t.below(GEN, 24);
    // the operand ends at most two pages beyond the window's middle
    let n = (1u64 << k) - lo * t.below(GEN, 2) + [0, 1, 8, 64, 2048][t.below(GEN, 5) as usize] + t.below(GEN, 16);
    let win = |b: u64| [(b, 4 * PG), (b + (1 << k) - 2 * PG, 4 * PG)];
    let off = [0, 1, 8, 13][t.below(GEN, 4) as usize];
    let p = HUGE[0] + PG + off;
    let (two, write) = match op {
        Op::Memset => (false, true),
        Op::Memcpy | Op::Memmove => (true, true),
        _ => (true, false),
    };
    // memmove: also with overlapping operands, in both directions
    let overlap = op == Op::Memmove && t.chance(GEN, 3, 4);
    let d = [8u64, 1, 24, 300][t.below(GEN, 4) as usize];
    let q = if overlap { if t.chance(GEN, 1, 2) { p + d } else { p - d } } else { HUGE[1] + PG + [0, 3, 8][t.below(GEN, 3) as usize] };
    let fill = t.bits(GEN, 8) as u8;
    let mut x = t.bits(GEN, 32);
    let wins: Vec<(u64, u64)> = win(HUGE[0]).into_iter().chain(win(HUGE[1])).collect();
    for &(a, l) in &wins {
        for b in slice_mut(a, l as usize).chunks_mut(8) {
            b.copy_from_slice(&splitmix(&mut x).to_le_bytes());
        }
    }
    let mut known = None;
    if matches!(op, Op::Memcmp | Op::Bcmp) {
        // equal as far as both are present
        for w in 0..2 {
            for a in wins[w].0..wins[w].0 + wins[w].1 {
                let b = a - p + q;
                if a >= p && a < p + n && wins.iter().any(|(x, l)| b >= *x && b < x + l) {
                    slice_mut(b, 1)[0] = slice(a, 1)[0];
                }
            }
        }
        if t.chance(GEN, 1, 2) {
            let i = t.below(GEN, 2 * PG);
            let v = slice_mut(q + i, 1);
            v[0] = v[0].wrapping_add(1 + t.bits(GEN, 7) as u8);
            known = Some(slice(p + i, 1)[0] as i64 - v[0] as i64);
        }
    }
    let orig: Vec<Vec<u8>> = wins.iter().map(|&(a, l)| slice(a, l as usize).to_vec()).collect();
    let byte = |a: u64| wins.iter().zip(&orig).find(|((b, l), _)| a >= *b && a < b + l).map(|((b, _), v)| v[(a - b) as usize]);
    for &(a, l) in &wins {
        protect(a, l as usize, P_NONE);
    }
    let mut ranges = vec![(p, n, write)];
    if two {
        ranges.push((q, n, false));
    }
    c.reset();
    img.pristine();
    let sp = stack_top(0) - 8;
    put64(sp, SENTINEL);
    c.rip = f;
    c.r[RSP] = sp;
    c.r[RDI] = p;
    c.r[RSI] = if two { q } else { fill as u64 };
    c.r[RDX] = n;
    let show = format!("{name}({p:#x}{}, {n:#x}) [{iname}]", if two { format!(", {q:#x}") } else { String::new() });
    if verbose {
        r.trace.push(show.clone());
    }
    let (mut log, mut sig) = (Hash::new(), Hash::new());
    sig.u64(op as u64 | k << 8 | d << 16 | (overlap as u64) << 40 | off << 48);
    sig.u64(n);
    let (mut steps, mut faults) = (0u64, 0u64);
    let mut viol = None;
    let mut done = false;
    loop {
        let ev = resume(c, false);
        log.u64(c.rip);
        steps += 1;
        match ev {
            Ev::Ret => {
                done = true;
                break;
            }
            Ev::Fault { addr, write, .. } => {
                log.u64(addr);
                let pg = addr / PG;
                let mine = |a: u64, n: u64| a / PG <= pg && pg <= (a + n - 1) / PG;
                if !ranges.iter().any(|&(a, n, w)| mine(a, n) && (w || !write)) {
                    viol = Some(("access".into(), format!("{show} {} {addr:#x}, outside its operands' pages", if write { "writes to" } else { "reads" })));
                    break;
                }
                if !wins.iter().any(|(a, l)| addr >= *a && addr < a + l) {
                    break;
                }
                protect(pg * PG, PG as usize, if ranges.iter().any(|&(a, n, w)| mine(a, n) && w) { P_RW } else { P_R });
                faults += 1;
                if verbose {
                    r.trace.push(format!("  page fault at {addr:#x}, page brought in"));
                }
            }
            e => {
                viol = Some(("crash".into(), format!("{show}: {e:?} at {}", img.name_of(c.rip))));
                break;
            }
        }
        if steps > 64 {
            viol = Some(("stuck".into(), format!("{show} faults again and again on pages that are present")));
            break;
        }
    }
    for &(a, l) in &wins {
        protect(a, l as usize, P_RW);
    }
    if viol.is_none() && done {
        let got = c.r[RAX] as i32 as i64;
        let ok = known.is_some_and(|w| if op == Op::Memcmp { got.signum() == w.signum() } else { got != 0 });
        if !ok {
            viol = Some(("early".into(), format!("{show} returned {got:#x} although it has not seen most of its operands")));
        }
    }
    if viol.is_none() {
        'o: for (&(a, l), o) in wins.iter().zip(&orig) {
            for (i, (&now, &was)) in slice(a, l as usize).iter().zip(o).enumerate() {
                let at = a + i as u64;
                if now == was {
                    continue;
                }
                let fin = if write && at >= p && at < p + n { if two { byte(at - p + q) } else { Some(fill) } } else { None };
                if fin != Some(now) {
                    viol = Some(("contents".into(), format!("{show}: byte at {at:#x} was changed from {was:#x} to {now:#x}, expected {}", match fin { Some(v) => format!("{v:#x}"), None => "no change".into() })));
                    break 'o;
                }
            }
        }
    }
    r.violation = viol;
    r.count("fault: page of an operand not present", faults);
    r.count("calls with operands of 2 GiB to 16 TiB", 1);
    r.nontrivial = faults > 0;
    r.steps = steps;
    r.log_hash = log.get();
    r.sig = sig.get();
    r.summary = format!("{show}: {faults} page faults");
    r
}

/// Read or write a byte of the simulated memory from outside the tested code.
fn slice_val(a: u64, present: &std::collections::BTreeSet<u64>, of: &std::collections::BTreeMap<u64, bool>, pg: u64, set: Option<u8>) -> u8 {
    let here = present.contains(&pg);
    let rw = here && of[&pg];
    if !rw {
        protect(pg * PG, PG as usize, P_RW);
    }
    let v = match set {
        Some(v) => {
            slice_mut(a, 1)[0] = v;
            v
        }
        None => slice(a, 1)[0],
    };
    if !rw {
        protect(pg * PG, PG as usize, if here { P_R } else { P_NONE });
    }
    v
}
