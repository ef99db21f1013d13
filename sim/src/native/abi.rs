//! C04: what a call may change in the caller's machine state.
use super::calls::*;
use super::engine::*;
use super::lib64::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN};
use crate::util::{splitmix, Hash};

pub struct AbiProp {
    libs: Vec<Lib>,
    c: Box<Ctx>,
}

const SAVED: [usize; 6] = [RBX, RBP, 12, 13, 14, 15];
const SAVED32: [usize; 4] = [RBX, RBP, RSI, RDI];

impl AbiProp {
    pub fn new(imgs: &[(&str, String)]) -> Self {
        map_world();
        let mut libs = Vec::new();
        for (n, p) in imgs {
            let mut l = Lib::load(n, p);
            l.discover(4, 4);
            libs.push(l);
        }
        AbiProp { libs, c: Ctx::new() }
    }
}

/// Instructions at which an interrupt storm lasts.
const DENSE: u64 = 500;

impl Prop for AbiProp {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut r = RunResult::default();
        let li = t.below(GEN, self.libs.len() as u64) as usize;
        let lib = &mut self.libs[li];
        // memory routines contain most of the assembly
        let mems: Vec<usize> = (0..lib.fns.len()).filter(|&i| lib.fns[i].mem.is_some()).collect();
        let fi = if t.chance(GEN, 1, 5) { mems[t.below(GEN, mems.len() as u64) as usize] } else { t.below(GEN, lib.fns.len() as u64) as usize };
        let call = Call { f: fi, a: gen_args(t, &lib.fns[fi], 400) };
        let want = match lib.alone(&call) {
            Ok(w) => w,
            Err(_) => {
                r.count("run without a usable call", 1);
                return r;
            }
        };
        let f = lib.fns[fi].clone();
        // later calls find the one-time initialisation done
        let warm = t.chance(GEN, 1, 2);
        if !warm {
            lib.img.pristine();
        }
        let c = &mut self.c;
        c.reset();
        // entry state
        let style = t.below(GEN, 4);
        let mut seed = t.bits(GEN, 32) | (style << 40);
        let mut word = || match style {
            0 => 0u64,
            1 => !0,
            _ => splitmix(&mut seed),
        };
        for i in 0..16 {
            c.r[i] = if f.wide { word() } else { word() & 0xffff_ffff };
        }
        for i in 0..16 {
            let v = word() as u128 | (word() as u128) << 64;
            c.set_xmm(i, v);
        }
        c.flags = 0x202 | (word() & STATUS);
        let junk = word();
        for a in (stack_top(0) - 4096..stack_top(0)).step_by(8) {
            put64(a, junk ^ a);
        }
        // floating-point environment
        let plain = t.chance(GEN, 2, 3);
        let (mut mx, mut cw) = (0x1f80u32, 0x37fu16);
        if !plain {
            mx |= (t.below(GEN, 4) as u32) << 13;
            if t.chance(GEN, 1, 4) {
                mx |= 1 << 15;
            }
            if t.chance(GEN, 1, 4) {
                mx |= 1 << 6;
            }
            // compiled 32-bit code computes with the x87 unit and assumes the default (see C14)
            let other = 0x3f | [0x300u16, 0, 0x200, 0x300][t.below(GEN, 4) as usize] | (t.below(GEN, 4) as u16) << 10;
            if f.wide {
                cw = other;
            }
        }
        let sticky = t.below(GEN, 64) as u32;
        let sticky87 = t.below(GEN, 64) as u16;
        c.set_mxcsr(mx | sticky);
        c.set_fcw(cw);
        c.set_fsw(sticky87);
        // stack alignment the ABI demands: 16-byte aligned at the call
        let top = stack_top(0) - 16 * t.below(GEN, 8);
        let sp = top - 8;
        for a in (top..top + 128).step_by(8) {
            put64(a, 0x7777_0000 ^ a);
        }
        prepare(c, &f, &call, 0, sp);
        let before = c.r;
        let entry_flags = c.flags;
        // interrupts whose handler overwrites everything it is allowed to
        let mut at: Vec<u64> = Vec::new();
        let l = lib.len[fi].max(4) as u64;
        for _ in 0..t.below(FAULT, 3) {
            at.push(t.below(FAULT, l + 2));
        }
        at.sort();
        // or at a good part of the instructions
        let dense = if t.chance(FAULT, 1, 12) { 1 + t.below(FAULT, 8) } else { 0 };
        if dense > 0 {
            at.clear();
        }
        let mut steps = 0u64;
        let (mut log, mut sig) = (Hash::new(), Hash::new());
        sig.u64(fi as u64 | (li as u64) << 32 | style << 40 | (plain as u64) << 48);
        let mut fired = 0;
        if verbose {
            r.trace.push(format!("{}: {} mxcsr {:#x} x87 control {:#x} status {:#x}", lib.name, lib.show(&call), mx | sticky, cw, sticky87));
        }
        let ev = loop {
            let storm = dense > 0 && steps < DENSE;
            while if storm { t.chance(FAULT, 1, dense) } else { at.first() == Some(&steps) } {
                if !storm {
                    at.remove(0);
                }
                let sp = c.r[RSP];
                let end = sp - red_zone(&f);
                let lo = (end - 4096).max(STACK0);
                slice_mut(lo, (end - lo) as usize).fill(0xb7);
                fired += 1;
                sig.u64(c.rip);
                if verbose {
                    r.trace.push(format!("interrupt at {}: memory below the protected area overwritten", lib.img.name_of(c.rip)));
                }
                if storm {
                    break;
                }
            }
            let ev = resume(c, storm || !at.is_empty());
            log.u64(c.rip);
            steps += 1;
            if ev != Ev::Step {
                break ev;
            }
        };
        r.count("fault: interrupt that overwrites the memory below the protected area", fired);
        r.count("fault: non-zero entry junk in scratch registers", (style != 0) as u64);
        r.count("fault: exception flags already raised on entry", (sticky != 0 || sticky87 != 0) as u64);
        r.count("fault: caller uses a non-default floating-point control setting", (!plain) as u64);
        let mut bad: Option<(String, String)> = None;
        if ev != Ev::Ret {
            let (cl, m) = if ev == Ev::Timeout { ("stuck", "does not finish".to_string()) } else { ("crash", format!("{ev:?} at {}", lib.img.name_of(c.rip))) };
            bad = Some((cl.into(), m));
        } else {
            let mut fail = |k: &str, m: String| {
                if bad.is_none() {
                    bad = Some((k.to_string(), m));
                }
            };
            for &i in if f.wide { &SAVED[..] } else { &SAVED32[..] } {
                if c.r[i] != before[i] {
                    fail("callee-saved", format!("{} is {:#x} on return, was {:#x}", REG_NAMES[i], c.r[i], before[i]));
                }
            }
            let end = if f.wide { sp + 8 } else { args32(sp) };
            if c.r[RSP] != end {
                fail("stack pointer", format!("stack pointer off by {}", c.r[RSP].wrapping_sub(end) as i64));
            }
            if c.flags & DF != 0 {
                fail("direction flag", "direction flag set on return".into());
            }
            if (c.flags ^ entry_flags) & AC != 0 {
                fail("flags", "alignment-check flag changed".into());
            }
            let m = c.mxcsr();
            if m & !0x3f != mx {
                fail("mxcsr", format!("MXCSR control bits {:#x} on return, {:#x} on entry", m & !0x3f, mx));
            }
            if m & sticky != sticky {
                fail("sticky", format!("SSE exception flags {:#x} on entry, {:#x} on return", sticky, m & 0x3f));
            }
            if c.fcw() & 0x1f3f != cw & 0x1f3f {
                fail("x87 control", format!("x87 control word {:#x} on return, {:#x} on entry", c.fcw(), cw));
            }
            if c.fsw() & sticky87 & 0x3f != sticky87 {
                fail("x87 sticky", format!("x87 exception flags {:#x} on entry, {:#x} on return", sticky87, c.fsw() & 0x3f));
            }
            // a result of 32-bit code is on the register stack
            let (tag, top87) = if !f.wide && is_float(f.ret) { (0x80, 7) } else { (0, 0) };
            if c.ftw() != tag || c.fsw() >> 11 & 7 != top87 {
                fail("x87 stack", format!("x87 register stack not as it should be on return (tags {:#04x}, top {})", c.ftw(), c.fsw() >> 11 & 7));
            }
            for a in (top..top + 128).step_by(8) {
                if get64(a) != 0x7777_0000 ^ a {
                    fail("caller stack", format!("caller's stack word at +{} overwritten", a - top));
                }
            }
            let got = result(c, &f, 0);
            log.u64(got.val as u64);
            log.u64(c.mxcsr() as u64);
            if plain && got != want {
                fail("result", format!("returned {}, usually {}", show_res(&got, &f), show_res(&want, &f)));
            }
        }
        if let Some((k, m)) = bad {
            r.violation = Some((k, format!("{}: {m}", lib.show(&call))));
        }
        r.count("calls completed", 1);
        r.nontrivial = style != 0 || fired > 0;
        r.steps = steps;
        r.log_hash = log.get();
        r.sig = sig.get();
        r.summary = format!("{} {}, {} interrupts", lib.name, lib.show(&call), fired);
        r
    }
}
