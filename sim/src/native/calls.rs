//! Calls to the routines of an image: arguments, results, and the same call made alone.
use super::engine::*;
use super::hints::Hint;
use crate::tape::{Tape, GEN};
use crate::util::Hash;
use std::rc::Rc;

#[path = "table.rs"]
pub mod table;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MemOp {
    Cpy,
    Move,
    Set,
    Cmp,
    Len,
}

#[derive(Clone)]
pub struct Func {
    pub name: String,
    pub addr: u64,
    pub args: Vec<u8>,
    pub ret: u8,
    pub mem: Option<MemOp>,
    /// integer division: no zero divisor, no overflow
    pub div: bool,
    /// 64-bit code
    pub wide: bool,
    pub hints: Rc<Vec<Hint>>,
    /// arguments known to reach its rarer parts
    pub corpus: Rc<Vec<[u128; 3]>>,
}

/// One call with concrete arguments (floats as bits).
#[derive(Clone, PartialEq, Debug)]
pub struct Call {
    pub f: usize,
    pub a: [u128; 3],
}

#[derive(Clone, PartialEq, Debug)]
pub struct Res {
    pub val: u128,
    /// out-parameter or hash of the memory operands
    pub out: u128,
}

/// Memory for operands: one 4 KB slot per call in flight.
pub const ARENA: u64 = 0x4000_0000;
pub const SLOTS: usize = 64;
pub const SLOT: u64 = 4096;

pub fn table(img: &Image) -> Vec<Func> {
    let mut v = Vec::new();
    for l in table::TABLE.lines() {
        let Some((n, s)) = l.split_once(' ') else { continue };
        let Some(&addr) = img.syms.get(n) else { continue };
        let (a, r) = s.split_once('>').unwrap();
        // 32-bit code: only types whose convention needs no hidden pointer
        if !img.wide && s.bytes().any(|c| b"hqxD".contains(&c)) {
            continue;
        }
        let mem = match n {
            "memcpy" => Some(MemOp::Cpy),
            "memmove" => Some(MemOp::Move),
            "memset" => Some(MemOp::Set),
            "memcmp" | "bcmp" => Some(MemOp::Cmp),
            "strlen" => Some(MemOp::Len),
            _ => None,
        };
        let ints = a.bytes().all(|c| b"ilxBCD".contains(&c));
        let div = ints && (n.contains("div") || n.contains("mod"));
        v.push(Func { name: n.to_string(), addr, args: a.bytes().collect(), ret: r.as_bytes()[0], mem, div, wide: img.wide, hints: Rc::default(), corpus: Rc::default() });
    }
    v
}

pub fn is_float(k: u8) -> bool {
    b"hfdq".contains(&k)
}
pub fn bits(k: u8) -> u32 {
    match k {
        b'h' | b'A' => 16,
        b'f' | b'i' | b'B' => 32,
        b'd' | b'l' | b'C' => 64,
        b's' => 7,
        _ => 128,
    }
}
pub fn mask(v: u128, b: u32) -> u128 {
    if b >= 128 {
        v
    } else {
        v & ((1u128 << b) - 1)
    }
}

/// (exponent bits, mantissa bits)
fn fmt(k: u8) -> (u32, u32) {
    match k {
        b'h' => (5, 10),
        b'f' => (8, 23),
        b'd' => (11, 52),
        _ => (15, 112),
    }
}

fn big(t: &mut Tape, b: u32) -> u128 {
    if b > 64 {
        (t.bits(GEN, b - 64) as u128) << 64 | t.bits(GEN, 64) as u128
    } else {
        t.bits(GEN, b) as u128
    }
}

pub fn gen_float(t: &mut Tape, k: u8) -> u128 {
    let (eb, mb) = fmt(k);
    let bias = (1u128 << (eb - 1)) - 1;
    let emax = (1u128 << eb) - 1;
    let sign = (t.chance(GEN, 1, 3) as u128) << (eb + mb);
    let v = match t.weighted(GEN, &[3, 6, 6, 4, 5, 2]) {
        // special values
        0 => match t.below(GEN, 12) {
            0 => 0,
            1 => bias << mb,
            2 => emax << mb,
            3 => emax << mb | 1 << (mb - 1),
            4 => 1,
            5 => (1 << mb) - 1,
            6 => 1 << mb,
            7 => (emax << mb) - 1,
            8 => emax << mb | 1,
            9 => (bias - 1) << mb,
            10 => (bias + 1) << mb,
            _ => (bias + 1) << mb | 1 << (mb - 1),
        },
        // near one
        1 => (bias - 2 + t.below(GEN, 8) as u128) << mb | big(t, mb),
        // moderate
        2 => {
            let w = (16u64).min(bias as u64 - 1);
            (bias - w as u128 + t.below(GEN, 2 * w) as u128) << mb | big(t, mb)
        }
        // any exponent
        3 => big(t, eb + mb),
        // short mantissa: small integers, halves, exact cases
        4 => {
            let sh = t.below(GEN, 6) as u32;
            let m = big(t, sh.min(mb)) << (mb - sh.min(mb));
            let w = (8u64).min(bias as u64 - 1);
            (bias - w as u128 / 2 + t.below(GEN, w + 4) as u128) << mb | m
        }
        // huge
        _ => (emax - 1 - t.below(GEN, (emax as u64 / 4).max(1)) as u128) << mb | big(t, mb),
    };
    sign | mask(v, eb + mb)
}

/// A float of kind `k` near a finite value.
pub fn near(v: f64, k: u8) -> u128 {
    let b = v.to_bits() as u128;
    let (eb, mb) = fmt(k);
    let sign = (b >> 63) << (eb + mb);
    let m = b & ((1 << 52) - 1);
    let e = (b >> 52 & 0x7ff) as i32 - 1023 + ((1 << (eb - 1)) - 1);
    sign | match k {
        b'd' => b & !(1 << 63),
        b'f' => (v as f32).to_bits() as u128 & 0x7fff_ffff,
        _ if e >= (1 << eb) - 1 => ((1u128 << eb) - 1) << mb,
        _ if e <= 0 => 1,
        b'h' => (e as u128) << mb | m >> 42,
        _ => (e as u128) << mb | m << 60,
    }
}

/// A float near, or in a simple relation to, a constant of the routine.
fn hinted(t: &mut Tape, k: u8, hints: &[Hint]) -> u128 {
    let mut v = match *t.pick(GEN, hints) {
        Hint::F64(b) => f64::from_bits(b),
        Hint::F32(b) => f32::from_bits(b) as f64,
        Hint::Int(i) => match t.below(GEN, 5) {
            0 => f64::from_bits(i << 32),
            1 => f64::from_bits((i.wrapping_neg() << 32) & 0x7fff_ffff_ffff_ffff),
            2 => f32::from_bits(i as u32) as f64,
            3 => i as u32 as i32 as f64,
            _ => f32::from_bits((i as u32).wrapping_neg() & 0x7fff_ffff) as f64,
        },
    };
    match t.below(GEN, 6) {
        0 => {}
        1 => v += v * 0.5f64.powi(1 + t.below(GEN, 52) as i32) * if t.chance(GEN, 1, 2) { -1.0 } else { 1.0 },
        2 => v *= 2f64.powi(t.below(GEN, 7) as i32 - 3),
        3 => v *= (1 + t.below(GEN, 64)) as f64,
        4 => v = 1.0 / v,
        _ => v += v * (t.bits(GEN, 32) as f64 / 4294967296.0 - 0.5) * 0.5f64.powi(t.below(GEN, 12) as i32),
    }
    if !v.is_finite() {
        return gen_float(t, k);
    }
    let b = near(v, k);
    let b = match t.below(GEN, 4) {
        0 => b,
        1 => b.wrapping_add(t.below(GEN, 4) as u128),
        2 => b.wrapping_sub(t.below(GEN, 4) as u128),
        _ => b ^ (t.chance(GEN, 1, 2) as u128) << (bits(k) - 1),
    };
    mask(b, bits(k))
}

/// Sometimes the float arguments are in a simple relation to one another.
fn relate(t: &mut Tape, f: &Func, a: &mut [u128; 3]) {
    let k = f.args[0];
    let n = f.args.len();
    if n < 2 || n > 3 || !f.args.iter().all(|&c| c == k) || !is_float(k) || !t.chance(GEN, 1, 5) {
        return;
    }
    let (eb, mb) = fmt(k);
    let tweak = |t: &mut Tape, v: u128| match t.below(GEN, 4) {
        0 => v,
        1 => v ^ 1 << (eb + mb),
        2 => v.wrapping_add(t.below(GEN, 8) as u128).wrapping_sub(4),
        _ => v.wrapping_add((t.below(GEN, 8) as u128) << mb).wrapping_sub(4 << mb),
    };
    if n == 2 || t.chance(GEN, 1, 3) {
        let i = t.below(GEN, n as u64) as usize;
        let j = (i + 1) % n;
        a[j] = mask(tweak(t, a[i]), eb + mb + 1);
    }
    if n == 3 && b"fd".contains(&k) {
        let v = |b: u128| if k == b'd' { f64::from_bits(b as u64) } else { f32::from_bits(b as u32) as f64 };
        let p = -(v(a[0]) * v(a[1]));
        if p.is_finite() {
            let z = near(p, k);
            a[2] = mask(tweak(t, z), eb + mb + 1);
        }
    }
}

pub fn gen_int(t: &mut Tape, b: u32) -> u128 {
    let v = match t.weighted(GEN, &[3, 4, 4, 2]) {
        0 => [0u128, 1, 2, 3, !0, !0 << (b - 1), !(!0 << (b - 1)), !1][t.below(GEN, 8) as usize],
        1 => t.bits(GEN, 8) as u128,
        2 => big(t, b),
        _ => {
            let s = t.below(GEN, b as u64) as u32;
            let x = big(t, b);
            mask(x, b) >> s
        }
    };
    mask(v, b)
}

/// Draw arguments for a routine. `max_len` bounds memory operands.
pub fn gen_args(t: &mut Tape, f: &Func, max_len: u64) -> [u128; 3] {
    let mut a = [0u128; 3];
    if !f.corpus.is_empty() && t.chance(GEN, 1, 3) {
        let c = *t.pick(GEN, &f.corpus);
        if f.mem.is_none() || c[0] <= max_len as u128 {
            return c;
        }
    }
    if f.mem.is_some() {
        // length, offsets of the two operands, contents seed / fill
        let n = match t.weighted(GEN, &[2, 3, 3, 1]) {
            0 => t.below(GEN, 4),
            1 => t.below(GEN, 20),
            2 => t.below(GEN, 80.min(max_len)),
            _ => t.below(GEN, max_len),
        };
        let o1 = 64 + t.below(GEN, 17);
        let o2 = if f.mem == Some(MemOp::Move) && t.chance(GEN, 3, 4) { o1 + t.below(GEN, 40) - t.below(GEN, 20).min(20) } else { 2048 + t.below(GEN, 17) };
        let swap = t.chance(GEN, 1, 2);
        let (d, s) = if swap && f.mem == Some(MemOp::Move) { (o2, o1) } else { (o1, o2) };
        a[0] = n as u128;
        a[1] = (d as u128) << 64 | s as u128;
        a[2] = t.bits(GEN, 16) as u128;
        return a;
    }
    for (i, &k) in f.args.iter().enumerate() {
        if i >= 3 {
            break;
        }
        a[i] = if is_float(k) && !f.hints.is_empty() && t.chance(GEN, 1, 3) {
            hinted(t, k, &f.hints)
        } else if is_float(k) {
            gen_float(t, k)
        } else if k == b's' {
            t.below(GEN, bits(f.args[0]) as u64) as u128
        } else if b"ilx".contains(&k) {
            // integer operands next to a float are small orders/exponents
            if f.args.iter().any(|&c| is_float(c)) && t.chance(GEN, 4, 5) {
                mask((t.below(GEN, 40) as u128).wrapping_sub(t.below(GEN, 20) as u128), bits(k))
            } else if f.args.iter().any(|&c| is_float(c)) && f.name.contains('n') && !f.name.contains("scalbn") {
                // Bessel functions take time proportional to the order
                mask((t.below(GEN, 400) as u128).wrapping_sub(200), bits(k))
            } else {
                gen_int(t, bits(k))
            }
        } else {
            0
        };
    }
    relate(t, f, &mut a);
    keep_defined(f, &mut a);
    a
}

/// Divisions by zero and overflowing ones are undefined.
pub fn keep_defined(f: &Func, a: &mut [u128; 3]) {
    if f.div {
        let b = bits(f.args[0]);
        if a[1] == 0 {
            a[1] = 1;
        }
        if a[1] == mask(!0, b) && a[0] == 1u128 << (b - 1) {
            a[1] = 1;
        }
    }
}

/// Arguments that differ a little from `a`: another sign, one bit, another low or high half.
pub fn near_args(t: &mut Tape, f: &Func, a: &[u128; 3]) -> [u128; 3] {
    let mut b = *a;
    if f.mem.is_some() {
        b[2] ^= 1 << t.below(GEN, 10);
        return b;
    }
    let i = t.below(GEN, f.args.len().min(3) as u64) as usize;
    let k = f.args.get(i).copied().unwrap_or(b'M');
    if is_float(k) || b"ilx".contains(&k) && !f.args.iter().any(|&c| is_float(c)) {
        let n = bits(k);
        match t.below(GEN, 4) {
            0 => b[i] ^= 1 << (n - 1),
            1 => b[i] ^= 1 << t.below(GEN, n as u64),
            2 => b[i] = b[i] >> (n / 2) << (n / 2) | big(t, n / 2),
            _ => b[i] = mask(b[i], n / 2) | big(t, n / 2) << (n / 2),
        }
    } else if b"ilx".contains(&k) {
        b[i] ^= 1 << t.below(GEN, 4);
    } else {
        return gen_args(t, f, 300);
    }
    if f.div && (b[1] == 0 || b[1] == mask(!0, bits(f.args[0]))) {
        b[1] = 1;
    }
    b
}

const INT_ARGS: [usize; 6] = [RDI, RSI, RDX, RCX, 8, 9];

fn fill(slot: u64, seed: u128, len: Option<u64>, off: u64) {
    let m = slice_mut(ARENA + slot * SLOT, SLOT as usize);
    let mut x = seed as u64 ^ 0x5151;
    for c in m.chunks_mut(8) {
        let v = crate::util::splitmix(&mut x);
        for (b, y) in c.iter_mut().zip(v.to_le_bytes()) {
            // few distinct values, never zero, so that comparisons run on
            *b = if seed & 1 == 0 { 1 + (y & 1) } else { y | 1 };
        }
    }
    if let Some(n) = len {
        m[(off + n) as usize] = 0;
    }
}

/// Bytes below the stack pointer that interrupts leave alone.
pub fn red_zone(f: &Func) -> u64 {
    if f.wide {
        128
    } else {
        0
    }
}

/// 32-bit code: address of the stack arguments, below `sp`.
pub fn args32(sp: u64) -> u64 {
    sp - 56
}

/// Set up the registers (and operand memory) for a call. `sp` is where the return address goes
/// (64-bit code); 32-bit code gets its arguments and return address below it.
pub fn prepare(c: &mut Ctx, f: &Func, call: &Call, slot: u64, sp: u64) {
    let base = ARENA + slot * SLOT;
    c.rip = f.addr;
    if f.wide {
        c.r[RSP] = sp;
        put64(sp, SENTINEL);
    } else {
        c.cs = CS32;
        c.r[RSP] = args32(sp) - 4;
        put32(args32(sp) - 4, SENTINEL as u32);
    }
    if let Some(op) = f.mem {
        let n = call.a[0] as u64;
        let (o1, o2) = ((call.a[1] >> 64) as u64, call.a[1] as u64);
        fill(slot, call.a[2], if op == MemOp::Len { Some(n) } else { None }, o1);
        if op == MemOp::Cmp {
            // equal up to a point
            let m = slice_mut(base, SLOT as usize);
            let eq = if call.a[2] & 2 == 0 { n } else { n.saturating_sub(1 + (call.a[2] as u64 >> 2) % 9) };
            m.copy_within(o1 as usize..(o1 + eq) as usize, o2 as usize);
        }
        if !f.wide {
            let second = if op == MemOp::Set { call.a[2] as u64 | 0xdead_be00 } else { base + o2 };
            for (i, v) in [base + o1, second, n].into_iter().enumerate() {
                put32(args32(sp) + 4 * i as u64, v as u32);
            }
            return;
        }
        match op {
            MemOp::Set => {
                c.r[RDI] = base + o1;
                c.r[RSI] = call.a[2] as u64 | 0xdead_be00 << 8;
                c.r[RDX] = n;
            }
            MemOp::Len => c.r[RDI] = base + o1,
            _ => {
                c.r[RDI] = base + o1;
                c.r[RSI] = base + o2;
                c.r[RDX] = n;
            }
        }
        return;
    }
    if !f.wide {
        let mut at = args32(sp);
        for (i, &k) in f.args.iter().enumerate() {
            let v = match k {
                b'A'..=b'D' => {
                    slice_mut(base, 16).fill(0xee);
                    base
                }
                _ => call.a[i] as u64,
            };
            put32(at, v as u32);
            at += 4;
            if b"dl".contains(&k) {
                put32(at, (v >> 32) as u32);
                at += 4;
            }
        }
        return;
    }
    let (mut gi, mut fi) = (0, 0);
    for (i, &k) in f.args.iter().enumerate() {
        match k {
            b'h' | b'f' | b'd' | b'q' => {
                // bits above the argument are the caller's junk
                let b = bits(k);
                let junk = if b < 128 { c.xmm(fi) >> b << b } else { 0 };
                c.set_xmm(fi, call.a[i] | junk);
                fi += 1;
            }
            b'x' => {
                c.r[INT_ARGS[gi]] = call.a[i] as u64;
                c.r[INT_ARGS[gi + 1]] = (call.a[i] >> 64) as u64;
                gi += 2;
            }
            b'A'..=b'D' => {
                slice_mut(base, 16).fill(0xee);
                c.r[INT_ARGS[gi]] = base;
                gi += 1;
            }
            b'l' => {
                c.r[INT_ARGS[gi]] = call.a[i] as u64;
                gi += 1;
            }
            _ => {
                let junk = c.r[INT_ARGS[gi]] >> 32 << 32;
                c.r[INT_ARGS[gi]] = call.a[i] as u64 & 0xffff_ffff | junk;
                gi += 1;
            }
        }
    }
}

/// Collect the result of a call that returned.
pub fn result(c: &Ctx, f: &Func, slot: u64) -> Res {
    let base = ARENA + slot * SLOT;
    let val = match f.ret {
        b'f' | b'd' if !f.wide => {
            let mut b = [0u8; 16];
            b[..10].copy_from_slice(&c.st(0));
            u128::from_le_bytes(b)
        }
        b'l' if !f.wide && f.mem.is_none() => c.r[RAX] as u32 as u128 | (c.r[RDX] as u32 as u128) << 32,
        b'l' if !f.wide => c.r[RAX] as u32 as u128,
        b'h' | b'f' | b'd' | b'q' => mask(c.xmm(0), bits(f.ret)),
        b'x' => c.r[RAX] as u128 | (c.r[RDX] as u128) << 64,
        k => mask(c.r[RAX] as u128, bits(k)),
    };
    let val = if f.ret == b'l' && f.mem.is_some_and(|m| m != MemOp::Len) { val.wrapping_sub(base as u128) & u64::MAX as u128 } else { val };
    let mut out = 0;
    if f.mem.is_some() {
        let mut h = Hash::new();
        h.bytes(slice(base, SLOT as usize));
        out = h.get() as u128;
    } else if f.args.iter().any(|k| k.is_ascii_uppercase()) {
        out = u128::from_le_bytes(slice(base, 16).try_into().unwrap());
    }
    Res { val, out }
}

pub fn show(f: &Func, call: &Call) -> String {
    if f.mem.is_some() {
        return format!("{}(len {}, operands +{} +{}, contents {:#x})", f.name, call.a[0], (call.a[1] >> 64) as u64, call.a[1] as u64, call.a[2]);
    }
    let v: Vec<String> = f
        .args
        .iter()
        .enumerate()
        .filter(|(_, k)| !k.is_ascii_uppercase())
        .map(|(i, &k)| match k {
            b'd' => format!("{:?}[{:#x}]", f64::from_bits(call.a[i] as u64), call.a[i]),
            b'f' => format!("{:?}[{:#x}]", f32::from_bits(call.a[i] as u32), call.a[i]),
            _ => format!("{:#x}", call.a[i]),
        })
        .collect();
    format!("{}({})", f.name, v.join(", "))
}
pub fn show_res(r: &Res, f: &Func) -> String {
    let v = match f.ret {
        b'd' | b'f' if !f.wide => format!("st(0)={:04x}:{:016x}", r.val >> 64, r.val as u64),
        b'd' => format!("{:?}[{:#x}]", f64::from_bits(r.val as u64), r.val),
        b'f' => format!("{:?}[{:#x}]", f32::from_bits(r.val as u32), r.val),
        _ => format!("{:#x}", r.val),
    };
    if f.args.iter().any(|k| k.is_ascii_uppercase()) {
        format!("{v} out {:#x}", r.out)
    } else {
        v
    }
}
