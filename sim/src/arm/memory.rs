//! The portable memory routines and the run-time ABI memory helpers (C06) on machines that fault
//! on misaligned accesses: every access is checked against the operands while another core updates
//! the neighbouring bytes and interrupts overwrite the stack below the stack pointer.
use super::atomics::class_of_trap;
use super::machine::*;
use super::mem::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN};
use crate::util::{splitmix, Hash};

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Cpy,
    Move,
    Set,
    Clr,
    Cmp,
    Len,
}

struct Func {
    name: String,
    f: u64,
    op: Op,
    align: u64,
    /// run-time ABI helper: no result, other order of arguments
    aeabi: bool,
}

/// Operands near the start of this area or across the middle of the address space.
const AREA: usize = 4096;
const HIGH: u64 = 0x8000_0000 - AREA as u64 / 2;
const CAP: u64 = 1_000_000;
/// Operands of many megabytes or more: only their two ends exist.
const WIN: usize = 1024;

fn parked(i: usize) -> u64 {
    0x7000_0000 + i as u64 * 0x1_0000
}

pub struct MemoryProp {
    machines: Vec<(String, Machine, Vec<Func>, usize)>,
}

impl MemoryProp {
    pub fn new(images: &[(String, String, Kind)]) -> MemoryProp {
        let machines = images
            .iter()
            .map(|(n, p, k)| {
                let mut m = Machine::load(p, *k, 1, AREA, 4096);
                m.mem.align_all = *k == Kind::A64;
                let high = m.mem.add("high arena", HIGH, vec![0; AREA], PR | PW, false, true);
                for i in 0..4 {
                    m.mem.add("end of an operand", parked(i), vec![0; WIN], PR | PW, false, true);
                }
                let mut v = Vec::new();
                for (name, op) in [("memcpy", Op::Cpy), ("memmove", Op::Move), ("memset", Op::Set), ("memclr", Op::Clr), ("memcmp", Op::Cmp), ("bcmp", Op::Cmp), ("strlen", Op::Len)] {
                    for (s, align, aeabi) in [(name.to_string(), 1, false), (format!("__aeabi_{name}"), 1, true), (format!("__aeabi_{name}4"), 4, true), (format!("__aeabi_{name}8"), 8, true)] {
                        if let Some(&f) = m.syms.get(&s) {
                            v.push(Func { name: s, f, op, align, aeabi });
                        }
                    }
                }
                assert!(v.len() >= 6, "{n}: only {} memory routines found", v.len());
                (n.clone(), m, v, high)
            })
            .collect();
        MemoryProp { machines }
    }
}

impl Prop for MemoryProp {
    fn run(&mut self, tape: &mut Tape, verbose: bool) -> RunResult {
        let mut res = RunResult::default();
        let mi = tape.below(GEN, self.machines.len() as u64) as usize;
        let (iname, m, fs, high) = &mut self.machines[mi];
        let t0 = std::mem::replace(tape, Tape::replay(&Default::default()));
        m.reset(t0);
        run(iname, m, fs, *high, verbose, &mut res);
        *tape = std::mem::replace(&mut m.mem.tape, Tape::replay(&Default::default()));
        res
    }
}

fn run(iname: &str, m: &mut Machine, fs: &[Func], high: usize, verbose: bool, res: &mut RunResult) {
    let word: u64 = if m.kind == Kind::A64 { 8 } else { 4 };
    let f = &fs[m.mem.tape.below(GEN, fs.len() as u64) as usize];
    let tp = &mut m.mem.tape;
    if f.op != Op::Len && tp.chance(GEN, 1, 32) {
        return huge(iname, m, f, high + 1, verbose, res);
    }
    let n = match tp.weighted(GEN, &[3, 4, 3, 1]) {
        0 => tp.below(GEN, 9),
        1 => tp.below(GEN, 40),
        2 => tp.below(GEN, 140),
        _ => tp.below(GEN, 900),
    };
    let crossing = tp.chance(GEN, 1, 3);
    let (ri, base) = if crossing { (high, HIGH) } else { (m.arena, ARENA) };
    // offsets inside the area
    let mid = AREA as u64 / 2;
    let mut d = 64 + tp.below(GEN, 16);
    let mut s = mid + 16 + tp.below(GEN, 16);
    if crossing {
        // an operand lies across the middle of the address space or ends exactly there
        let k = if n == 0 { 0 } else { tp.below(GEN, n + 1) };
        d = mid - k;
        s = if tp.chance(GEN, 1, 2) { mid - (k + 16 + n).min(mid - 64) } else { mid + n + 32 + tp.below(GEN, 16) };
    }
    if f.op == Op::Move && tp.chance(GEN, 3, 4) {
        s = d + tp.below(GEN, n + 20);
    } else if f.op == Op::Cpy && tp.chance(GEN, 1, 32) {
        s = d;
    }
    if tp.chance(GEN, 1, 2) {
        std::mem::swap(&mut d, &mut s);
    }
    d &= !(f.align - 1);
    s &= !(f.align - 1);
    if f.op == Op::Cpy && s != d && d < s + n && s < d + n {
        // no overlap here
        s = if d >= mid { 64 + (s & 8) } else { d + n + (s & 8) + 8 & !7 };
    }
    let (d, s) = (d as usize, s as usize);
    let nu = n as usize;
    let c = tp.bits(GEN, 32);
    let seed = tp.bits(GEN, 16);
    let style = tp.below(GEN, 3);
    let at = if n > 0 { tp.below(GEN, 2 * n).min(n) as usize } else { 0 };
    let diff = 1 + tp.below(GEN, 255) as u8;
    m.poison = tp.bits(GEN, 16);
    let thumb = m.kind == Kind::V6kThumb || m.kind == Kind::V5te && m.mem.tape.chance(GEN, 1, 2);
    // ---- contents
    let mut x = seed;
    let mut data = vec![0u8; AREA];
    for w in data.chunks_mut(8) {
        let v = splitmix(&mut x).to_le_bytes();
        for (b, y) in w.iter_mut().zip(v) {
            *b = match style {
                0 => y,
                1 => y & 1,
                _ => y | 0x80,
            };
        }
    }
    let mut end = n;
    match f.op {
        Op::Cmp => {
            let a: Vec<u8> = data[d..d + nu].to_vec();
            data[s..s + nu].copy_from_slice(&a);
            if at < nu && !((d..d + nu).contains(&(s + at))) {
                data[s + at] ^= diff;
            }
        }
        Op::Len => {
            for b in &mut data[s..s + nu] {
                if *b == 0 {
                    *b = diff;
                }
            }
            data[s + nu] = 0;
            end = n + 1;
        }
        _ => {}
    }
    // ---- effect and result
    let mut want = data.clone();
    let mut ret: Option<u64> = (!f.aeabi).then_some(base + d as u64);
    let mut sign = 0;
    let mut wr = d..d + nu;
    let mut rd = vec![s..s + nu, d..d + nu];
    match f.op {
        Op::Cpy | Op::Move => want.copy_within(s..s + nu, d),
        Op::Set => {
            want[d..d + nu].fill(c as u8);
            rd = vec![d..d + nu];
        }
        Op::Clr => {
            want[d..d + nu].fill(0);
            rd = vec![d..d + nu];
        }
        Op::Cmp => {
            wr = d..d;
            sign = match data[d..d + nu].cmp(&data[s..s + nu]) {
                std::cmp::Ordering::Less => -1,
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Greater => 1,
            };
            ret = None;
        }
        Op::Len => {
            wr = d..d;
            rd = vec![s..s + end as usize];
            ret = Some(n);
        }
    }
    let mut perm = vec![0u8; AREA];
    for r in &rd {
        if !r.is_empty() {
            let w = word as usize;
            perm[r.start / w * w..(r.end + w - 1) / w * w].fill(PR);
        }
    }
    for p in &mut perm[wr.clone()] {
        *p |= PW;
    }
    let operands = rd.clone();
    m.mem.regions[ri].data.copy_from_slice(&data);
    m.mem.regions[ri].bperm = Some(perm);
    let (da, sa) = (base + d as u64, base + s as u64);
    let args = match f.op {
        Op::Set if f.aeabi => vec![da, n, c],
        Op::Set => vec![da, c, n],
        Op::Clr => vec![da, n],
        Op::Len => vec![sa],
        _ => vec![da, sa, n],
    };
    let what = match f.op {
        Op::Len => format!("strlen({sa:#x}) of a string of {n} bytes"),
        Op::Set => format!("{}({da:#x}, length {n}, value {:#x})", f.name, c as u8),
        Op::Clr => format!("{}({da:#x}, length {n})", f.name),
        _ => format!("{}({da:#x}, {sa:#x}, length {n})", f.name),
    };
    if verbose {
        res.trace.push(format!("machine {iname}: {what}"));
    }
    // ---- environment
    let upd_den = [0u64, 3, 10, 60][m.mem.tape.weighted(GEN, &[1, 3, 3, 2])];
    let irq_den = [0u64, 10, 100][m.mem.tape.weighted(GEN, &[2, 1, 1])];
    let mut shadow = want.clone();
    let mut sig = Hash::new();
    sig.bytes(f.name.as_bytes());
    sig.u64(n ^ (d as u64) << 16 ^ (s as u64) << 32 ^ (crossing as u64) << 60 ^ (m.big as u64) << 61 ^ (m.kind as u64) << 62);
    let (mut n_upd, mut n_irq) = (0u64, 0u64);
    let mut junk = m.poison;
    m.call(0, f.f, &args, None, thumb);
    // accesses until the next update of a neighbour, instructions until the next interrupt; 0: none
    let mut upd = if upd_den > 0 { m.mem.tape.below(FAULT, upd_den) } else { 0 };
    let mut irq = if irq_den > 0 { m.mem.tape.below(FAULT, irq_den) } else { 0 };
    loop {
        if m.steps > CAP {
            res.violation = Some(("no-return".into(), format!("{what} did not return within {CAP} instructions")));
            break;
        }
        let pc = m.pc(0);
        match m.step(0) {
            Out::Run => {}
            Out::Ret => {
                let r = m.regs4(0)[0];
                m.mem.log.u64(r);
                let bad = match (f.op, ret) {
                    (Op::Cmp, _) if f.name == "bcmp" => (r as u32 != 0) != (sign != 0),
                    (Op::Cmp, _) => (r as u32 as i32).signum() != sign,
                    (_, Some(x)) => r != x,
                    _ => false,
                };
                if bad {
                    let w = match f.op {
                        Op::Cmp => format!("a value of sign {sign}"),
                        _ => format!("{:#x}", ret.unwrap_or(0)),
                    };
                    res.violation = Some(("result".into(), format!("{what} returned {r:#x}, expected {w}")));
                }
                break;
            }
            Out::Abi(e) => {
                res.violation = Some(("abi".into(), format!("{what}: {e}")));
                break;
            }
            Out::Trap(tr) => {
                let txt = format!("{what}: {} (at {})", trap_text(m, &tr), m.name_of(pc));
                match class_of_trap(&tr) {
                    Some(c) => res.violation = Some((c.into(), txt)),
                    None => res.error = Some(txt),
                }
                break;
            }
        }
        let touched = m.mem.accs.iter().any(|a| a.region == ri);
        if touched {
            let a = m.mem.accs[0];
            m.mem.log.u64(a.addr ^ (a.write as u64) << 40 ^ (a.val as u64).rotate_left(32));
        }
        if upd > 0 && touched {
            upd -= 1;
            if upd == 0 {
                // another core stores to a byte next to an operand
                let t = &mut m.mem.tape;
                let r = &operands[t.below(FAULT, operands.len() as u64) as usize];
                let k = 1 + t.below(FAULT, 8) as usize;
                let b = if t.chance(FAULT, 1, 2) { r.start - k } else { r.end - 1 + k };
                let v = t.bits(FAULT, 8) as u8;
                if !operands.iter().any(|o| o.contains(&b)) {
                    m.mem.regions[ri].data[b] = v;
                    shadow[b] = v;
                    n_upd += 1;
                    sig.u64(m.steps << 20 ^ b as u64);
                    m.mem.log.u64(b as u64 ^ (v as u64) << 32);
                    if verbose {
                        res.trace.push(format!("[{}] at {} another core stores {v:#x} to {:#x}", m.steps, m.name_of(m.pc(0)), base + b as u64));
                    }
                }
                upd = m.mem.tape.below(FAULT, upd_den);
            }
        }
        if irq > 0 {
            irq -= 1;
            if irq == 0 {
                n_irq += 1;
                let si = m.cores[0].stack;
                let o = (m.sp(0) - m.mem.regions[si].base) as usize;
                for b in m.mem.regions[si].data[o.saturating_sub(512)..o].iter_mut() {
                    junk = junk.wrapping_mul(6364136223846793005).wrapping_add(1);
                    *b = (junk >> 40) as u8;
                }
                m.mem.regions[si].dirty = Some((0, m.mem.regions[si].data.len()));
                if verbose {
                    res.trace.push(format!("[{}] interrupt at {} overwrites the stack below the stack pointer", m.steps, m.name_of(m.pc(0))));
                }
                irq = m.mem.tape.below(FAULT, irq_den);
            }
        }
    }
    if res.violation.is_none() && res.error.is_none() {
        if let Some(b) = (0..AREA).find(|&b| m.mem.regions[ri].data[b] != shadow[b]) {
            let got = m.mem.regions[ri].data[b];
            let inside = wr.contains(&b);
            res.violation = Some(("effect".into(), format!("{what} left {got:#x} in the {} at {:#x}, expected {:#x}", if inside { "destination byte" } else { "byte outside the destination" }, base + b as u64, shadow[b])));
        }
    }
    m.mem.regions[ri].bperm = None;
    m.mem.regions[ri].dirty = None;
    res.count("fault: neighbouring byte updated by another core during the call", n_upd);
    res.count("fault: interrupt that overwrites the stack below the stack pointer", n_irq);
    res.count("runs with an operand across the middle of the address space", crossing as u64);
    res.count("runs with overlapping operands", (f.op == Op::Move && d != s && d < s + nu && s < d + nu) as u64);
    res.count(&format!("runs on {iname}"), 1);
    res.nontrivial = n_upd + n_irq > 0;
    res.summary = format!("{iname}: {what}, {n_upd} neighbour updates, {n_irq} interrupts");
    res.sig = sig.get();
    res.steps = m.steps;
    res.log_hash = m.mem.log.get();
}

/// A call whose operands are larger than memory: both ends exist, the run ends at the first access
/// between them.  What can be judged until then: no access outside the operands, no byte other
/// than its old or final value, and no return before everything is done.
fn huge(iname: &str, m: &mut Machine, f: &Func, r0: usize, verbose: bool, res: &mut RunResult) {
    let wide = m.kind == Kind::A64;
    let word: u64 = if wide { 8 } else { 4 };
    let tp = &mut m.mem.tape;
    let k = if wide { 16 + tp.below(GEN, 25) } else { 16 + tp.below(GEN, 14) };
    let n = (1u64 << k) - tp.below(GEN, 2) * tp.below(GEN, 24) + [0, 1, 8, 64, 200][tp.below(GEN, 5) as usize] + tp.below(GEN, 16);
    let base: [u64; 2] = if wide { [0x1000_0000_0000, 0x3000_0000_0000] } else { [0x8800_0000, 0xc000_0000] };
    let a = f.align;
    let p = base[0] + 320 + [0, 1, 4, 7][tp.below(GEN, 4) as usize] / a * a;
    let overlap = f.op == Op::Move && tp.chance(GEN, 3, 4);
    let d = [8u64, 1, 24, 200][tp.below(GEN, 4) as usize].div_ceil(a) * a;
    let q = if overlap { if tp.chance(GEN, 1, 2) { p + d } else { p - d } } else { base[1] + 320 + [0, 1, 4, 6][tp.below(GEN, 4) as usize] / a * a };
    let c = tp.bits(GEN, 32);
    let mut x = tp.bits(GEN, 16);
    let differ = tp.chance(GEN, 1, 2);
    let at = tp.below(GEN, WIN as u64 - 400);
    let diff = 1 + tp.below(GEN, 255) as u8;
    m.poison = tp.bits(GEN, 16);
    let thumb = m.kind == Kind::V6kThumb || m.kind == Kind::V5te && m.mem.tape.chance(GEN, 1, 2);
    let (two, write) = match f.op {
        Op::Cpy | Op::Move => (true, true),
        Op::Set | Op::Clr => (false, true),
        _ => (true, false),
    };
    let fill = if f.op == Op::Clr { 0 } else { c as u8 };
    let wb = [base[0], base[0] + (1 << k), base[1], base[1] + (1 << k)];
    let place = |b: u64| wb.iter().position(|&w| b >= w && b - w < WIN as u64).map(|i| (i, (b - wb[i]) as usize));
    let mut orig = vec![vec![0u8; WIN]; 4];
    for b in orig.iter_mut().flatten() {
        *b = splitmix(&mut x) as u8;
    }
    let mut sign = None;
    if f.op == Op::Cmp {
        for w in 0..2 {
            for i in 0..WIN {
                let b = wb[w] + i as u64;
                if b >= p && b < p + n {
                    if let Some((j, o)) = place(b - p + q) {
                        orig[j][o] = orig[w][i];
                    }
                }
            }
        }
        if differ {
            let (j, o) = place(q + at).unwrap();
            orig[j][o] ^= diff;
            sign = Some((orig[j][o] ^ diff).cmp(&orig[j][o]));
        }
    }
    let mut ranges = vec![(p, n, write)];
    if two {
        ranges.push((q, n, false));
    }
    for i in 0..4 {
        let r = &mut m.mem.regions[r0 + i];
        r.base = wb[i];
        r.data.copy_from_slice(&orig[i]);
        let mut perm = vec![0u8; WIN];
        for (o, v) in perm.iter_mut().enumerate() {
            let b = wb[i] + o as u64;
            for &(a, n, w) in &ranges {
                if b >= a / word * word && b < (a + n).div_ceil(word) * word {
                    *v |= PR;
                }
                if w && b >= a && b < a + n {
                    *v |= PW;
                }
            }
        }
        r.bperm = Some(perm);
    }
    let args = match f.op {
        Op::Set if f.aeabi => vec![p, n, c],
        Op::Set => vec![p, c, n],
        Op::Clr => vec![p, n],
        _ => vec![p, q, n],
    };
    let what = format!("{}({p:#x}{}, length {n:#x})", f.name, if two { format!(", {q:#x}") } else { String::new() });
    if verbose {
        res.trace.push(format!("machine {iname}: {what}"));
    }
    let mut sig = Hash::new();
    sig.bytes(f.name.as_bytes());
    sig.u64(n);
    sig.u64(p & 63 | (q & 255) << 8 | (overlap as u64) << 16);
    m.call(0, f.f, &args, None, thumb);
    let mut absent = 0;
    loop {
        if m.steps > 100_000 {
            res.violation = Some(("no-return".into(), format!("{what} makes no progress")));
            break;
        }
        let pc = m.pc(0);
        match m.step(0) {
            Out::Run => {}
            Out::Ret => {
                let r = m.regs4(0)[0] as u32 as i32;
                let ok = sign.is_some_and(|s| if f.name == "bcmp" { r != 0 } else { r.cmp(&0) == s });
                if !ok {
                    res.violation = Some(("early".into(), format!("{what} returned although it has not seen most of its operands")));
                }
                break;
            }
            Out::Abi(e) => {
                res.violation = Some(("abi".into(), format!("{what}: {e}")));
                break;
            }
            Out::Trap(Trap::Access { addr, write, .. }) if place(addr).is_none() && ranges.iter().any(|&(a, n, w)| addr >= a && addr < a + n && (w || !write)) => {
                // the part that is not there
                absent = 1;
                break;
            }
            Out::Trap(tr) => {
                let txt = format!("{what}: {} (at {})", trap_text(m, &tr), m.name_of(pc));
                match class_of_trap(&tr) {
                    Some(c) => res.violation = Some((c.into(), txt)),
                    None => res.error = Some(txt),
                }
                break;
            }
        }
        if let Some(a) = m.mem.accs.first() {
            m.mem.log.u64(a.addr ^ (a.write as u64) << 40 ^ (a.val as u64).rotate_left(32));
        }
    }
    if res.violation.is_none() && res.error.is_none() {
        'o: for i in 0..4 {
            for o in 0..WIN {
                let (now, was, b) = (m.mem.regions[r0 + i].data[o], orig[i][o], wb[i] + o as u64);
                if now == was {
                    continue;
                }
                let fin = if write && b >= p && b < p + n { if two { place(b - p + q).map(|(i, o)| orig[i][o]) } else { Some(fill) } } else { None };
                if fin != Some(now) {
                    res.violation = Some(("effect".into(), format!("{what} changed the byte at {b:#x} from {was:#x} to {now:#x}")));
                    break 'o;
                }
            }
        }
    }
    for i in 0..4 {
        let r = &mut m.mem.regions[r0 + i];
        r.base = parked(i);
        r.bperm = None;
        r.dirty = None;
    }
    m.abandon(0);
    res.count("fault: part of an operand not present", absent);
    res.count("runs with operands of 64 KiB to 1 TiB", 1);
    res.count(&format!("runs on {iname}"), 1);
    res.nontrivial = absent > 0;
    res.summary = format!("{iname}: {what}");
    res.sig = sig.get();
    res.steps = m.steps;
    res.log_hash = m.mem.log.get();
}
