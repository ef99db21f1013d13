//! Reentrancy and procedure-call standard of the ARM routines (C15): calls on several cores,
//! interrupted at any instruction by handlers that call other routines and use the stack below
//! the interrupted stack pointer.
use super::atomics::class_of_trap;
use super::machine::*;
use super::mem::*;
use crate::driver::{Prop, RunResult};
use crate::native::calls::{bits, gen_float, gen_int, is_float, mask, table::TABLE};
use crate::tape::{Tape, FAULT, GEN, SCHED};
use crate::util::{splitmix, Hash, Rng};
use std::collections::BTreeSet;

/// Routines that only the ARM builds have.  2: pair of 32-bit results, 4: pair of 64-bit results,
/// V: pointer to a 32-bit variable that the routine updates.
const ARM_TABLE: &str = "\
__aeabi_d2f d>f
__aeabi_d2h d>h
__aeabi_d2iz d>i
__aeabi_d2lz d>l
__aeabi_d2uiz d>i
__aeabi_d2ulz d>l
__aeabi_dadd dd>d
__aeabi_dcmpeq dd>i
__aeabi_dcmpge dd>i
__aeabi_dcmpgt dd>i
__aeabi_dcmple dd>i
__aeabi_dcmplt dd>i
__aeabi_dcmpun dd>i
__aeabi_ddiv dd>d
__aeabi_dmul dd>d
__aeabi_dsub dd>d
__aeabi_f2d f>d
__aeabi_f2h f>h
__aeabi_f2iz f>i
__aeabi_f2lz f>l
__aeabi_f2uiz f>i
__aeabi_f2ulz f>l
__aeabi_fadd ff>f
__aeabi_fcmpeq ff>i
__aeabi_fcmpge ff>i
__aeabi_fcmpgt ff>i
__aeabi_fcmple ff>i
__aeabi_fcmplt ff>i
__aeabi_fcmpun ff>i
__aeabi_fdiv ff>f
__aeabi_fmul ff>f
__aeabi_fsub ff>f
__aeabi_h2f h>f
__aeabi_i2d i>d
__aeabi_i2f i>f
__aeabi_l2d l>d
__aeabi_l2f l>f
__aeabi_ui2d i>d
__aeabi_ui2f i>f
__aeabi_ul2d l>d
__aeabi_ul2f l>f
__divdf3vfp dd>d
__divsf3vfp ff>f
__aeabi_lasr ls>l
__aeabi_llsl ls>l
__aeabi_llsr ls>l
__aeabi_lmul ll>l
__aeabi_idiv ii>i
__aeabi_uidiv ii>i
__aeabi_idivmod ii>2
__aeabi_uidivmod ii>2
__aeabi_ldivmod ll>4
__aeabi_uldivmod ll>4
__aeabi_memcpy M>v
__aeabi_memcpy4 M>v
__aeabi_memcpy8 M>v
__aeabi_memmove M>v
__aeabi_memmove4 M>v
__aeabi_memmove8 M>v
__aeabi_memset M>v
__aeabi_memset4 M>v
__aeabi_memset8 M>v
__aeabi_memclr M>v
__aeabi_memclr4 M>v
__aeabi_memclr8 M>v
__sync_fetch_and_add_4 Vi>i
__sync_fetch_and_nand_4 Vi>i
__sync_lock_test_and_set_4 Vi>i
__sync_val_compare_and_swap_4 Vii>i
";

struct Func {
    name: String,
    f: u64,
    args: Vec<u8>,
    ret: u8,
    div: bool,
    /// drawn this often compared with the others
    weight: u32,
    /// arguments known to reach its rarer parts
    corpus: Vec<[u128; 3]>,
    /// arguments with which it uses writable static data
    hot: Vec<[u128; 3]>,
}

fn funcs(m: &Machine) -> Vec<Func> {
    let mut v = Vec::new();
    for (l, special) in TABLE.lines().map(|l| (l, false)).chain(ARM_TABLE.lines().map(|l| (l, true))) {
        let Some((n, s)) = l.split_once(' ') else { continue };
        let Some(&f) = m.syms.get(n) else { continue };
        let (a, r) = s.split_once('>').unwrap();
        let ints = a.bytes().all(|c| b"ilxBCD".contains(&c));
        let div = ints && (n.contains("div") || n.contains("mod"));
        // long running
        let slow = n.starts_with("fmod") && a != "hh";
        let naked = n.starts_with("__aeabi") && n.ends_with("divmod");
        let weight = if slow { 1 } else if naked { 40 } else if special || a == "M" { 12 } else { 6 };
        v.push(Func { name: n.into(), f, args: a.bytes().collect(), ret: r.as_bytes()[0], div, weight, corpus: Vec::new(), hot: Vec::new() });
    }
    v
}

#[derive(Clone)]
struct Call {
    f: usize,
    a: [u128; 3],
    slot: u64,
    words: Vec<u64>,
    /// ranges the routine may write
    own: Vec<(u64, u64)>,
    ret: Vec<u64>,
    mem: Vec<u8>,
    steps: u64,
}

const SLOT: u64 = 320;
const NCORES: usize = 3;
const DEPTH: usize = 3;
const SOLO: usize = NCORES;
const CAP: u64 = 20_000_000;

pub struct RoutineProp {
    machines: Vec<(String, Machine, Vec<Func>, u64)>,
}

impl RoutineProp {
    pub fn new(images: &[(String, String, Kind)]) -> RoutineProp {
        let machines = images
            .iter()
            .map(|(n, p, k)| {
                let mut m = Machine::load(p, *k, NCORES + 1, (SLOT as usize) * NCORES * DEPTH, 16384);
                let mut f = funcs(&m);
                for i in 0..f.len() {
                    (f[i].corpus, f[i].hot) = explore(&mut m, &f, i);
                }
                assert!(f.len() >= 100, "{n}: only {} routines found", f.len());
                let w = f.iter().map(|f| f.weight as u64).sum();
                (n.clone(), m, f, w)
            })
            .collect();
        RoutineProp { machines }
    }
}

/// Instructions spent per routine on the search for arguments.
const SEARCH: u64 = 300_000;

/// Arguments that between them execute every instruction that was executed at all.
fn explore(m: &mut Machine, fs: &[Func], f: usize) -> (Vec<[u128; 3]>, Vec<[u128; 3]>) {
    let mut rng = Rng::new(0x3000 + f as u64);
    let mut corpus: Vec<[u128; 3]> = Vec::new();
    let mut hot: Vec<[u128; 3]> = Vec::new();
    let mut seen = BTreeSet::new();
    let mut used = 0;
    let mut n = 0;
    while used < SEARCH && n < 2000 {
        n += 1;
        let mut t = Tape::search(rng.next());
        let mut a = gen_args(&mut t, &fs[f]);
        if !corpus.is_empty() && t.chance(GEN, 1, 2) {
            a = mutate(&mut t, &fs[f], &corpus, a);
        }
        m.reset(t);
        let mut c = Call { f, a, slot: 0, words: vec![], own: vec![], ret: vec![], mem: vec![], steps: 0 };
        prepare(m, &fs[f], &mut c);
        fill_slot(m, &fs[f], &c);
        m.restore_static();
        m.call(SOLO, fs[f].f, &c.words, None, false);
        let s0 = m.steps;
        let (mut new, mut shared) = (false, false);
        loop {
            new |= seen.insert(m.pc(SOLO));
            let out = m.step(SOLO);
            shared |= m.mem.accs.iter().any(|a| a.region != m.arena);
            if !matches!(out, Out::Run) || m.steps - s0 > SEARCH {
                break;
            }
        }
        used += m.steps - s0;
        if new {
            corpus.push(a);
        }
        if shared && hot.len() < 24 {
            hot.push(a);
        }
    }
    m.reset(Tape::replay(&Default::default()));
    (corpus, hot)
}

fn mutate(t: &mut Tape, f: &Func, corpus: &[[u128; 3]], fresh: [u128; 3]) -> [u128; 3] {
    let mut a = *t.pick(GEN, corpus);
    let i = t.below(GEN, f.args.len().min(3) as u64) as usize;
    if f.args[0] == b'M' {
        let i = t.below(GEN, 3) as usize;
        a[i] = fresh[i];
        return a;
    }
    let k = f.args[i];
    if !is_float(k) && !b"lix".contains(&k) || k == b'i' && f.args.iter().any(|&c| is_float(c)) {
        a[i] = fresh[i];
        return a;
    }
    let w = bits(k);
    a[i] = match t.below(GEN, 5) {
        0 => a[i] ^ 1 << t.below(GEN, w as u64),
        1 => a[i].wrapping_add(1 + t.below(GEN, 8) as u128),
        2 => a[i].wrapping_sub(1 + t.below(GEN, 8) as u128),
        3 => t.pick(GEN, corpus)[i],
        _ => fresh[i],
    };
    a[i] = mask(a[i], w);
    keep_defined(f, &mut a);
    a
}

fn gen_args(t: &mut Tape, f: &Func) -> [u128; 3] {
    let mut a = [0u128; 3];
    if !f.corpus.is_empty() && t.chance(GEN, 1, 3) {
        return *t.pick(GEN, &f.corpus);
    }
    if f.args[0] == b'M' {
        // length, offsets, contents
        a[0] = t.below(GEN, 70) as u128;
        a[1] = (t.below(GEN, 8) | t.below(GEN, 8) << 8 | t.below(GEN, 2) << 16) as u128;
        a[2] = t.bits(GEN, 16) as u128;
        return a;
    }
    for (i, &k) in f.args.iter().enumerate().take(3) {
        a[i] = if is_float(k) {
            gen_float(t, k)
        } else if k == b's' {
            t.below(GEN, bits(f.args[0]) as u64) as u128
        } else if b"ilx".contains(&k) {
            if f.args.iter().any(|&c| is_float(c)) {
                mask((t.below(GEN, 40) as u128).wrapping_sub(t.below(GEN, 20) as u128), bits(k))
            } else {
                gen_int(t, bits(k))
            }
        } else {
            t.bits(GEN, 32) as u128
        };
    }
    keep_defined(f, &mut a);
    a
}

fn keep_defined(f: &Func, a: &mut [u128; 3]) {
    if f.div {
        let b = bits(f.args[0]);
        if a[1] == 0 || a[1] == mask(!0, b) && a[0] == 1u128 << (b - 1) {
            a[1] = 1;
        }
    }
}

/// A value of `n` 32-bit words as the registers that hold it.
fn regs_of(m: &Machine, v: u128, n: u32) -> Vec<u64> {
    if m.kind != Kind::A64 {
        return words_of(m.big, v, n);
    }
    let mut w: Vec<u64> = (0..n.div_ceil(2)).map(|k| (v >> (64 * k)) as u64).collect();
    if m.big {
        w.reverse();
    }
    w
}

fn words_of(big: bool, v: u128, n: u32) -> Vec<u64> {
    let mut w: Vec<u64> = (0..n).map(|k| (v >> (32 * k)) as u32 as u64).collect();
    if big {
        w.reverse();
    }
    w
}

fn value_of(m: &Machine, w: &[u64]) -> u128 {
    let mut v = 0u128;
    let n = if m.kind == Kind::A64 { 64 } else { 32 };
    for (k, x) in w.iter().enumerate() {
        let k = if m.big { w.len() - 1 - k } else { k };
        v |= (*x as u128) << (n * k);
    }
    v
}

/// Registers, owned memory and memory operands of a call.
fn prepare(m: &Machine, f: &Func, c: &mut Call) {
    let base = ARENA + c.slot * SLOT;
    c.words.clear();
    c.own.clear();
    if f.args[0] == b'M' {
        let al = if f.name.ends_with('4') { 4 } else if f.name.ends_with('8') { 8 } else { 1 };
        let n = c.a[0] as u64;
        let mut d = base + 32 + (c.a[1] as u64 & 7);
        let mut s = base + 160 + (c.a[1] as u64 >> 8 & 7);
        if c.a[1] >> 16 & 1 == 1 && f.name.contains("memmove") {
            s = base + 32 + (c.a[1] as u64 >> 8 & 7);
        }
        d &= !(al - 1);
        s &= !(al - 1);
        let ch = c.a[2] as u64 & 0xffff;
        c.words = match f.name.as_str() {
            "memset" => vec![d, ch, n],
            "strlen" => vec![s],
            x if x.starts_with("__aeabi_memset") => vec![d, n, ch],
            x if x.starts_with("__aeabi_memclr") => vec![d, n],
            _ => vec![d, s, n],
        };
        if !matches!(f.name.as_str(), "memcmp" | "bcmp" | "strlen") {
            c.own.push((d, d + n));
        }
        return;
    }
    for (i, &k) in f.args.iter().enumerate() {
        let wide = if m.kind == Kind::A64 { matches!(k, b'x' | b'q') } else { matches!(k, b'l' | b'd' | b'x' | b'q') };
        if wide && c.words.len() % 2 == 1 {
            c.words.push(0x5a5a_5a5a);
        }
        match k {
            b'l' | b'd' => c.words.extend(regs_of(m, c.a[i], 2)),
            b'x' | b'q' => c.words.extend(regs_of(m, c.a[i], 4)),
            b'A' | b'B' | b'C' | b'D' | b'V' => {
                c.words.push(base);
                let n = match k {
                    b'A' => 2,
                    b'B' | b'V' => 4,
                    b'C' => 8,
                    _ => 16,
                };
                c.own.push((base, base + n));
            }
            _ => c.words.push(c.a[i] as u32 as u64),
        }
    }
}

/// Bytes of stack arguments.
fn stacked(m: &Machine, c: &Call) -> u64 {
    if m.kind == Kind::A64 {
        0
    } else {
        4 * c.words.len().saturating_sub(4) as u64
    }
}

fn fill_slot(m: &mut Machine, f: &Func, c: &Call) {
    let ai = m.arena;
    let o = (c.slot * SLOT) as usize;
    let s = &mut m.mem.regions[ai].data[o..o + SLOT as usize];
    let mut x = c.a[2] as u64 ^ 0x1234;
    for w in s.chunks_mut(8) {
        let v = splitmix(&mut x).to_le_bytes();
        for (b, y) in w.iter_mut().zip(v) {
            *b = y & 3 | 1;
        }
    }
    if matches!(f.name.as_str(), "memcmp" | "bcmp") {
        // equal up to some byte
        let n = c.a[0] as usize;
        let (d, q) = (32 + (c.a[1] as usize & 7), 160 + (c.a[1] as usize >> 8 & 7));
        for k in 0..n {
            s[q + k] = s[d + k];
        }
        if n > 0 {
            s[q + (c.a[2] as usize >> 1) % n] ^= (c.a[2] & 1) as u8 * 0x81;
        }
    }
    if f.name == "strlen" {
        s[160 + (c.a[1] as usize >> 8 & 7) + c.a[0] as usize] = 0;
    }
}

/// Result registers that the procedure-call standard defines.
fn result(m: &Machine, t: usize, f: &Func) -> Vec<u64> {
    let mut r = m.regs4(t);
    if m.kind == Kind::A64 {
        if matches!(f.ret, b'i' | b'f') {
            r[0] &= 0xffff_ffff;
        }
        match f.ret {
            b'l' | b'd' => return vec![r[0]],
            b'x' | b'q' => return r[..2].to_vec(),
            _ => {}
        }
    }
    match f.ret {
        b'v' => vec![],
        b'h' => vec![r[0] & 0xffff],
        b'l' | b'd' | b'2' if f.args[0] != b'M' => r[..2].to_vec(),
        b'x' | b'q' | b'4' => r.to_vec(),
        b'i' if f.name == "bcmp" => vec![(r[0] != 0) as u64],
        b'i' if f.name == "memcmp" => vec![(r[0] as i32).signum() as u64],
        _ => vec![r[0]],
    }
}

/// Documented result of the routines that exist only on ARM and of basic arithmetic (NaN aside).
fn expected(m: &Machine, f: &Func, c: &Call) -> Option<Vec<u64>> {
    let (a, b) = (c.a[0], c.a[1]);
    let (al, bl) = (a as u64, b as u64);
    let (ai, bi) = (a as u32, b as u32);
    let l = |v: u64| Some(regs_of(m, v as u128, 2));
    match f.name.as_str() {
        "__aeabi_uidiv" => Some(vec![(ai / bi) as u64]),
        "__aeabi_idiv" => Some(vec![(ai as i32).wrapping_div(bi as i32) as u32 as u64]),
        "__aeabi_uidivmod" => Some(vec![(ai / bi) as u64, (ai % bi) as u64]),
        "__aeabi_idivmod" => Some(vec![(ai as i32).wrapping_div(bi as i32) as u32 as u64, (ai as i32).wrapping_rem(bi as i32) as u32 as u64]),
        "__aeabi_uldivmod" => Some([regs_of(m, (al / bl) as u128, 2), regs_of(m, (al % bl) as u128, 2)].concat()),
        "__aeabi_ldivmod" => Some([regs_of(m, (al as i64).wrapping_div(bl as i64) as u64 as u128, 2), regs_of(m, (al as i64).wrapping_rem(bl as i64) as u64 as u128, 2)].concat()),
        "__aeabi_lmul" => l(al.wrapping_mul(bl)),
        "__aeabi_llsl" => l(al << bl),
        "__aeabi_llsr" => l(al >> bl),
        "__aeabi_lasr" => l((al as i64 >> bl) as u64),
        "__rust_u128_add" | "__rust_i128_add" => Some(regs_of(m, a.wrapping_add(b), 4)),
        "__multi3" => Some(regs_of(m, a.wrapping_mul(b), 4)),
        "__udivti3" => Some(regs_of(m, a / b, 4)),
        "__umodti3" => Some(regs_of(m, a % b, 4)),
        n => {
            let (d, s) = (f64::from_bits, f32::from_bits);
            let n = n.trim_start_matches("__").trim_start_matches("aeabi_");
            let r = match n {
                "adddf3" | "dadd" => d(al) + d(bl),
                "subdf3" | "dsub" => d(al) - d(bl),
                "muldf3" | "dmul" => d(al) * d(bl),
                "divdf3" | "ddiv" => d(al) / d(bl),
                _ => f64::NAN,
            };
            let q = match n {
                "addsf3" | "fadd" => s(ai) + s(bi),
                "subsf3" | "fsub" => s(ai) - s(bi),
                "mulsf3" | "fmul" => s(ai) * s(bi),
                "divsf3" | "fdiv" => s(ai) / s(bi),
                _ => f32::NAN,
            };
            if !r.is_nan() {
                l(r.to_bits())
            } else if !q.is_nan() {
                Some(vec![q.to_bits() as u64])
            } else {
                None
            }
        }
    }
}

fn text(fs: &[Func], c: &Call) -> String {
    let f = &fs[c.f];
    let mut s = f.name.clone() + "(";
    if f.args[0] == b'M' {
        s += &format!("length {}, offsets {:#x}", c.a[0], c.a[1]);
    } else {
        for (i, &k) in f.args.iter().enumerate() {
            if i > 0 {
                s += ", ";
            }
            s += &if b"ABCDV".contains(&k) { "pointer".to_string() } else { format!("{:#x}", c.a[i]) };
        }
    }
    s + ")"
}

/// Snapshot of what a call left in the memory it owns.
fn owned(m: &Machine, c: &Call) -> Vec<u8> {
    let d = &m.mem.regions[m.arena].data;
    c.own.iter().flat_map(|&(l, h)| d[(l - ARENA) as usize..(h - ARENA) as usize].iter().copied()).collect()
}

fn foreign_write(m: &Machine, c: &Call, t: usize) -> Option<u64> {
    m.mem.accs.iter().filter(|a| a.write && a.tid == t && a.region == m.arena).find_map(|a| (a.addr..a.addr + a.size as u64).find(|x| !c.own.iter().any(|&(l, h)| (l..h).contains(x))))
}

struct Frame {
    call: Call,
    saved: Option<Cpu>,
    /// stack bytes from here on may not be written
    limit: u64,
    /// interrupt after this many instructions or stack-pointer changes; 0: none
    left: u64,
    on_sp: bool,
    steps: u64,
}

fn protect(m: &mut Machine, t: usize, from: u64, to: u64, perm: u8) {
    let si = m.cores[t].stack;
    let r = &mut m.mem.regions[si];
    let n = r.data.len();
    let base = r.base;
    let b = r.bperm.get_or_insert_with(|| vec![PR | PW; n]);
    b[(from - base) as usize..(to - base) as usize].fill(perm);
}

impl Prop for RoutineProp {
    fn run(&mut self, tape: &mut Tape, verbose: bool) -> RunResult {
        let mut res = RunResult::default();
        let mi = tape.below(GEN, self.machines.len() as u64) as usize;
        let (iname, m, fs, w) = &mut self.machines[mi];
        let t0 = std::mem::replace(tape, Tape::replay(&Default::default()));
        m.reset(t0);
        run(iname, m, fs, *w, verbose, &mut res);
        *tape = std::mem::replace(&mut m.mem.tape, Tape::replay(&Default::default()));
        res
    }
}

fn fail(res: &mut RunResult, m: &Machine, tr: &Trap, who: &str) {
    let txt = format!("{who}: {}", trap_text(m, tr));
    match class_of_trap(tr) {
        Some(c) => res.violation = Some((c.into(), txt)),
        None => res.error = Some(txt),
    }
}

fn run(iname: &str, m: &mut Machine, fs: &[Func], weight: u64, verbose: bool, res: &mut RunResult) {
    let ncores = 1 + m.mem.tape.weighted(GEN, &[3, 3, 1]);
    m.poison = m.mem.tape.bits(GEN, 16);
    let thumb = m.kind == Kind::V6kThumb || m.mem.tape.chance(GEN, 1, 2);
    // ---- calls
    let mut pool: Vec<(usize, [u128; 3])> = Vec::new();
    let hot: Vec<usize> = (0..fs.len()).filter(|&i| !fs[i].hot.is_empty()).collect();
    for _ in 0..2 + m.mem.tape.below(GEN, 3) {
        let same = !pool.is_empty() && m.mem.tape.chance(GEN, 1, 3);
        let f = if same {
            pool[0].0
        } else if !hot.is_empty() && m.mem.tape.chance(GEN, 1, 2) {
            *m.mem.tape.pick(GEN, &hot)
        } else {
            let mut x = m.mem.tape.below(GEN, weight) as u32;
            let mut i = 0;
            while x >= fs[i].weight {
                x -= fs[i].weight;
                i += 1;
            }
            i
        };
        let a = if !fs[f].hot.is_empty() && m.mem.tape.chance(GEN, 1, 2) { *m.mem.tape.pick(GEN, &fs[f].hot) } else { gen_args(&mut m.mem.tape, &fs[f]) };
        pool.push((f, a));
    }
    let mut sig = Hash::new();
    let mut plan: Vec<Vec<Vec<Call>>> = Vec::new();
    for t in 0..ncores {
        let mut v = Vec::new();
        for d in 0..DEPTH {
            let n = if d == 0 { 1 + m.mem.tape.below(GEN, 3) } else { 3 - d as u64 };
            let mut cs = Vec::new();
            for _ in 0..n {
                let (f, a) = pool[m.mem.tape.below(GEN, pool.len() as u64) as usize];
                let mut c = Call { f, a, slot: (t * DEPTH + d) as u64, words: vec![], own: vec![], ret: vec![], mem: vec![], steps: 0 };
                prepare(m, &fs[f], &mut c);
                // the same call alone, on fresh static data
                fill_slot(m, &fs[f], &c);
                m.restore_static();
                m.call(SOLO, fs[f].f, &c.words, None, thumb);
                let s0 = m.steps;
                let out = loop {
                    match m.step(SOLO) {
                        Out::Run if m.steps - s0 < CAP => {
                            if let Some(x) = foreign_write(m, &c, SOLO) {
                                res.violation = Some(("foreign-write".into(), format!("{} wrote to {x:#x}, outside the memory its arguments designate", text(fs, &c))));
                                break Out::Run;
                            }
                        }
                        o => break o,
                    }
                };
                match out {
                    Out::Ret => {}
                    Out::Run => {
                        if res.violation.is_none() {
                            res.violation = Some(("no-return".into(), format!("{} did not return within {CAP} instructions", text(fs, &c))));
                        }
                    }
                    Out::Abi(s) => res.violation = Some(("abi".into(), format!("{}: {s}", text(fs, &c)))),
                    Out::Trap(tr) => fail(res, m, &tr, &text(fs, &c)),
                }
                if res.violation.is_some() || res.error.is_some() {
                    res.log_hash = m.mem.log.get();
                    return;
                }
                c.steps = m.steps - s0;
                c.ret = result(m, SOLO, &fs[f]);
                c.mem = owned(m, &c);
                if let Some(e) = expected(m, &fs[f], &c) {
                    if e != c.ret {
                        res.violation = Some(("result".into(), format!("{} returned {:#x?}, its documented result is {:#x?}", text(fs, &c), c.ret, e)));
                        return;
                    }
                }
                sig.u64(fs[f].f);
                cs.push(c);
            }
            v.push(cs);
        }
        plan.push(v);
    }
    m.restore_static();
    m.steps = 0;
    // ---- environment
    let mut junk = m.poison ^ 0x9999;
    for t in 0..ncores {
        let si = m.cores[t].stack;
        for w in m.mem.regions[si].data.chunks_mut(8) {
            w.copy_from_slice(&splitmix(&mut junk).to_le_bytes());
        }
    }
    let irq_den = [0u64, 16, 64, 300, 2000][m.mem.tape.weighted(GEN, &[1, 3, 3, 3, 2])];
    let irq_max = 1 + m.mem.tape.below(GEN, 12);
    let irq_sp = m.mem.tape.chance(GEN, 1, 2);
    let call_den = m.mem.tape.below(GEN, 4);
    let quantum = [20u64, 3, 200, 2000][m.mem.tape.below(GEN, 4) as usize];
    if verbose {
        res.trace.push(format!("machine {iname}; callers in {} state", if thumb { "Thumb" } else { "ARM" }));
    }
    let mut next = vec![0usize; ncores];
    let mut stack: Vec<Vec<Frame>> = (0..ncores).map(|_| Vec::new()).collect();
    let (mut cur, mut left) = (0usize, 0u64);
    let (mut n_irq, mut n_nest, mut n_scrib, mut n_sw, mut n_calls, mut overlap, mut n_static) = (0u64, 0u64, 0u64, 0u64, 0u64, false, 0u64);
    let draw = |m: &mut Machine, steps: u64| -> (u64, bool) {
        if irq_den == 0 {
            return (0, false);
        }
        // 0: this call is left alone from here on
        let on_sp = irq_sp && m.mem.tape.chance(FAULT, 1, 2);
        let n = if on_sp { 12 } else { irq_den.min(2 * steps + 2) };
        (m.mem.tape.below(FAULT, n), on_sp)
    };
    let log = |m: &mut Machine, x: u64| m.mem.log.u64(x);
    loop {
        let run: Vec<usize> = (0..ncores).filter(|&t| !stack[t].is_empty() || next[t] < plan[t][0].len()).collect();
        if run.is_empty() {
            break;
        }
        if left == 0 || !run.contains(&cur) {
            let was = cur;
            let k = m.mem.tape.below(SCHED, run.len() as u64) as usize;
            cur = run[k];
            // 0: until it has nothing left to do
            left = match m.mem.tape.below(SCHED, quantum) {
                _ if run.len() == 1 => u64::MAX,
                0 => u64::MAX,
                q => q,
            };
            if was != cur && !stack[was].is_empty() {
                n_sw += 1;
                sig.u64(m.pc(was) ^ (cur as u64) << 40);
                if verbose {
                    res.trace.push(format!("[{}] core {was} is at {}; core {cur} runs", m.steps, m.name_of(m.pc(was))));
                }
            }
        }
        left -= 1;
        let t = cur;
        if stack[t].is_empty() {
            let c = plan[t][0][next[t]].clone();
            next[t] += 1;
            n_calls += 1;
            overlap |= (0..ncores).any(|o| o != t && !stack[o].is_empty());
            fill_slot(m, &fs[c.f], &c);
            if verbose {
                res.trace.push(format!("[{}] core {t}: call {}", m.steps, text(fs, &c)));
            }
            m.call(t, fs[c.f].f, &c.words, None, thumb);
            let limit = m.entry_sp(t) + stacked(m, &c);
            let end = m.stack_top(t) + 256;
            protect(m, t, limit, end, PR);
            let (n, on_sp) = draw(m, c.steps);
            stack[t].push(Frame { call: c, saved: None, limit, left: n, on_sp, steps: 0 });
        }
        let (pc, sp0) = (m.pc(t), m.sp(t));
        let out = m.step(t);
        log(m, pc ^ (t as u64) << 48);
        let depth = stack[t].len();
        let fr = stack[t].last_mut().unwrap();
        fr.steps += 1;
        let statics = m.mem.accs.iter().filter(|a| a.region != m.arena).count() as u64;
        n_static += statics;
        if statics > 0 && fr.left > 0 && irq_den > 0 && m.mem.tape.chance(FAULT, 1, 4) {
            (fr.left, fr.on_sp) = (1, false);
        }
        if statics > 0 && run.len() > 1 && m.mem.tape.chance(SCHED, 1, 4) {
            left = 0;
        }
        if let Some(x) = foreign_write(m, &fr.call, t) {
            res.violation = Some(("foreign-write".into(), format!("{} wrote to {x:#x}, outside the memory its arguments designate, at {}", text(fs, &fr.call), m.name_of(pc))));
            break;
        }
        match out {
            Out::Run => {
                if fr.steps > 20 * fr.call.steps + 100_000 {
                    res.violation = Some(("no-return".into(), format!("{} takes {} instructions alone but has not returned after {}", text(fs, &fr.call), fr.call.steps, fr.steps)));
                    break;
                }
                if fr.left > 0 && (!fr.on_sp || m.sp(t) != sp0) {
                    fr.left -= 1;
                    if fr.left == 0 && n_irq < irq_max && depth < DEPTH && m.sp(t) > m.stack_base(t) + 4096 {
                        // ---- interrupt
                        let (n, on_sp) = draw(m, fr.call.steps - fr.call.steps.min(fr.steps));
                        let fr = stack[t].last_mut().unwrap();
                        (fr.left, fr.on_sp) = (n, on_sp);
                        let limit0 = fr.limit;
                        let (sp, pc) = (m.sp(t), m.pc(t));
                        n_irq += 1;
                        n_nest += (depth > 1) as u64;
                        sig.u64(pc ^ (depth as u64) << 48);
                        log(m, pc ^ 0x77 << 40);
                        m.mem.clrex(t);
                        // everything below the stack pointer belongs to the handler
                        let si = m.cores[t].stack;
                        let o = (sp - m.mem.regions[si].base) as usize;
                        let lo = o.saturating_sub(1024);
                        for b in m.mem.regions[si].data[lo..o].iter_mut() {
                            junk = junk.wrapping_mul(6364136223846793005).wrapping_add(1);
                            *b = (junk >> 40) as u8;
                        }
                        let c = if call_den > 0 && m.mem.tape.below(FAULT, call_den + 1) == 0 {
                            None
                        } else {
                            let k = m.mem.tape.below(FAULT, plan[t][depth].len() as u64) as usize;
                            Some(plan[t][depth][k].clone())
                        };
                        if verbose {
                            res.trace.push(format!("[{}] core {t}: interrupt at {}, handler {}", m.steps, m.name_of(pc), c.as_ref().map(|c| format!("calls {}", text(fs, c))).unwrap_or("only uses the stack".into())));
                        }
                        let Some(c) = c else {
                            n_scrib += 1;
                            continue;
                        };
                        let saved = m.cores[t].cpu.clone();
                        fill_slot(m, &fs[c.f], &c);
                        m.call(t, fs[c.f].f, &c.words, Some(sp), thumb);
                        let limit = m.entry_sp(t) + stacked(m, &c);
                        protect(m, t, limit.min(limit0), limit0, PR);
                        let (n, on_sp) = draw(m, c.steps);
                        stack[t].push(Frame { call: c, saved: Some(saved), limit, left: n, on_sp, steps: 0 });
                    }
                }
            }
            Out::Ret => {
                let fr = stack[t].pop().unwrap();
                let c = &fr.call;
                let got = result(m, t, &fs[c.f]);
                for w in &got {
                    log(m, *w);
                }
                if got != c.ret {
                    res.violation = Some(("result".into(), format!("{} returned {:#x}, the same call alone returns {:#x}", text(fs, c), value_of(m, &got), value_of(m, &c.ret))));
                    break;
                }
                if owned(m, c) != c.mem {
                    res.violation = Some(("result".into(), format!("{} left {:02x?} in memory, the same call alone leaves {:02x?}", text(fs, c), owned(m, c), c.mem)));
                    break;
                }
                let outer = stack[t].last().map(|f| f.limit).unwrap_or(m.stack_top(t) + 256);
                protect(m, t, fr.limit.min(outer), outer, PR | PW);
                if verbose {
                    res.trace.push(format!("[{}] core {t}: {} returns", m.steps, fs[c.f].name));
                }
                if let Some(s) = fr.saved {
                    m.cores[t].cpu = s;
                }
            }
            Out::Abi(s) => {
                res.violation = Some(("abi".into(), format!("{}: {s}", text(fs, &fr.call))));
                break;
            }
            Out::Trap(Trap::Access { addr, write: true, why: "outside the operands", .. }) => {
                res.violation = Some(("stack-write".into(), format!("{} wrote to {addr:#x}, at or above its entry stack pointer, at {}", text(fs, &fr.call), m.name_of(pc))));
                break;
            }
            Out::Trap(tr) => {
                let who = text(fs, &fr.call);
                fail(res, m, &tr, &who);
                break;
            }
        }
    }
    res.count("fault: interrupt inside a call", n_irq);
    res.count("fault: interrupt nested in a handler", n_nest);
    res.count("fault: handler only overwrites the stack below the stack pointer", n_scrib);
    res.count("event: preemption inside a call", n_sw);
    res.count("event: access to writable static data", n_static);
    res.count("event: calls checked", n_calls + n_irq - n_scrib);
    res.count(&format!("runs on {iname}"), 1);
    res.nontrivial = n_irq > 0 || overlap && n_sw > 0;
    res.summary = format!("{iname}: {ncores} cores, routines {}, {n_irq} interrupts, {n_sw} preemptions", pool.iter().map(|c| fs[c.0].name.as_str()).collect::<Vec<_>>().join(" "));
    res.sig = sig.get();
    res.steps = m.steps;
    res.log_hash = m.mem.log.get();
}
