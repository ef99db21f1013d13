//! C14: the x87 unit across histories of calls, caller settings and interrupts (32-bit code).
use super::calls::*;
use super::engine::*;
use super::lib64::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN};
use crate::util::{splitmix, Hash};
use std::collections::BTreeMap;

pub struct X87Prop {
    img: Image,
    fns: Vec<Func>,
    /// routines written in x87 assembly
    asm: Vec<usize>,
    len: Vec<u64>,
    ctx: Vec<Box<Ctx>>,
    solo: Box<Ctx>,
}

const ASM: [&str; 9] = ["m_ceil", "m_floor", "m_rint", "m_exp", "m_expf", "m_exp2", "m_exp2f", "m_exp10", "m_exp10f"];
const SAVED: [usize; 4] = [RBX, RBP, RSI, RDI];
/// x87 status: exception flags; stack fault is a reason given with an invalid operation
const EXC: u16 = 0x3f;

struct Want {
    call: Call,
    /// per control word: result and exception flags raised, of the call made alone
    res: BTreeMap<u16, (Res, u16)>,
}

impl X87Prop {
    pub fn new(path: &str) -> Self {
        map_world();
        let img = Image::load(path);
        let mut fns: Vec<Func> = table(&img).into_iter().filter(|f| f.name.starts_with("m_") && f.args.iter().all(|k| b"fdilABCD".contains(k)) && b"fdil".contains(&f.ret)).collect();
        super::explore::inform(&mut fns, path);
        let asm = (0..fns.len()).filter(|&i| ASM.contains(&fns[i].name.as_str())).collect();
        let n = fns.len();
        let mut p = X87Prop { img, fns, asm, len: vec![4; n], ctx: (0..4).map(|_| Ctx::new()).collect(), solo: Ctx::new() };
        for i in 0..n {
            for s in 0..6 {
                let mut t = Tape::search(0x9000 + s * 1000 + i as u64);
                let call = Call { f: i, a: gen_args(&mut t, &p.fns[i], 300) };
                p.solo.reset();
                prepare(&mut p.solo, &p.fns[i], &call, SOLO_SLOT, stack_top(SOLO) - 8);
                let mut k = 0;
                while k < 3000 && resume(&mut p.solo, true) == Ev::Step {
                    k += 1;
                }
                p.len[i] = p.len[i].max(k);
            }
        }
        p
    }

    fn alone(&mut self, call: &Call, cw: u16) -> Option<(Res, u16)> {
        self.img.pristine();
        let c = &mut self.solo;
        c.reset();
        c.set_fcw(cw);
        let f = &self.fns[call.f];
        prepare(c, f, call, SOLO_SLOT, stack_top(SOLO) - 8);
        (resume(c, false) == Ev::Ret).then(|| (result(c, f, SOLO_SLOT), c.fsw() & EXC))
    }

    fn draw_call(&mut self, t: &mut Tape) -> Call {
        let f = if t.chance(GEN, 1, 4) { t.below(GEN, self.fns.len() as u64) as usize } else { self.asm[t.below(GEN, self.asm.len() as u64) as usize] };
        Call { f, a: gen_args(t, &self.fns[f], 300) }
    }

    /// One call in the context of level `d`, possibly interrupted.
    fn exec(&mut self, t: &mut Tape, w: &mut W, d: usize, top: u64) {
        let wi = t.below(GEN, w.pool.len() as u64) as usize;
        let call = w.pool[wi].call.clone();
        let f = self.fns[call.f].clone();
        // compiled code assumes the default settings; only the assembly promises more
        let cw = if self.asm.contains(&call.f) { w.cw[d] } else { 0x37f };
        let key = cw | EXC;
        let (want, raised) = match w.pool[wi].res.get(&key) {
            Some(x) => x.clone(),
            None => {
                let snap = self.img.save();
                let Some(x) = self.alone(&call, key) else {
                    self.img.restore(&snap);
                    return;
                };
                self.img.restore(&snap);
                w.pool[wi].res.insert(key, x.clone());
                x
            }
        };
        let mut c = std::mem::replace(&mut self.ctx[d], Ctx::new());
        // Exceptions the call raises stay masked; of the others some may be unmasked, except
        // underflow, which means something else when it is unmasked (tiny results, even exact).
        let unmask = if t.chance(FAULT, 1, 4) { t.bits(FAULT, 6) as u16 & !raised & !0x10 } else { 0 };
        let sticky = w.sticky[d] & !unmask;
        let cw = cw & !unmask;
        let keep = c.r;
        c.reset();
        c.r = keep;
        for i in SAVED {
            c.r[i] = splitmix(&mut w.junk) & 0xffff_ffff;
        }
        c.set_fcw(cw);
        c.set_fsw(sticky);
        prepare(&mut c, &f, &call, d as u64, top);
        w.sig.u64(call.f as u64 | (d as u64) << 16 | (cw as u64) << 32);
        if w.verbose {
            w.trace.push(format!("{}call {} with control word {cw:#x}, status {sticky:#x}", "  ".repeat(d), show(&f, &call)));
        }
        let mut at = if d < 3 && w.budget > 0 && t.chance(FAULT, if d == 0 { 5 } else { 2 }, 8) {
            w.budget -= 1;
            Some(t.below(FAULT, self.len[call.f] + 1))
        } else {
            None
        };
        let mut steps = 0;
        let ev = loop {
            if at == Some(steps) {
                at = None;
                w.irqs += 1;
                w.sig.u64(c.rip);
                if w.verbose {
                    w.trace.push(format!("{}interrupt at {}", "  ".repeat(d), self.img.name_of(c.rip)));
                }
                let sp = c.r[RSP] & !15;
                slice_mut(c.r[RSP] - 1024, 1024).fill(0xa5);
                // the handler changes the settings of the unit for itself and uses it
                w.cw[d + 1] = draw_cw(t);
                w.sticky[d + 1] = t.bits(FAULT, 6) as u16;
                self.exec(t, w, d + 1, sp - 200);
                if w.viol.is_some() {
                    break Ev::Step;
                }
            }
            let ev = resume(&mut c, at.is_some());
            w.steps += 1;
            steps += 1;
            w.log.u64(c.rip);
            if ev != Ev::Step {
                break ev;
            }
        };
        if w.viol.is_none() {
            let mut fail = |k: &str, m: String| {
                if w.viol.is_none() {
                    w.viol = Some((k.into(), format!("{} (control word {cw:#x}, status {sticky:#x}): {m}", show(&f, &call))));
                }
            };
            if ev != Ev::Ret {
                match ev {
                    Ev::Timeout => fail("stuck", "does not finish".into()),
                    e => fail("crash", format!("{e:x?} at {}", self.img.name_of(c.rip))),
                }
            } else {
                let float = b"fd".contains(&f.ret);
                let (tag, top) = (c.ftw(), c.fsw() >> 11 & 7);
                if c.fcw() & 0x1f3f != cw & 0x1f3f {
                    fail("control word", format!("control word is {:#x} on return", c.fcw()));
                }
                if (float && (tag != 0x80 || top != 7)) || (!float && (tag != 0 || top != 0)) {
                    fail("stack depth", format!("register stack on return: tags {tag:#04x}, top {top}"));
                }
                if c.fsw() & sticky != sticky {
                    fail("sticky flags", format!("exception flags {:#x} on entry, {:#x} on return", sticky, c.fsw() & EXC));
                }
                let got = result(&c, &f, d as u64);
                w.log.u64(got.val as u64);
                w.log.u64(c.fsw() as u64);
                if w.verbose {
                    w.trace.push(format!("{}{} = {}, status {:#x}", "  ".repeat(d), f.name, show_res(&got, &f), c.fsw()));
                }
                if got != want {
                    fail("result", format!("returned {} but {} when it is the only call made, with the same rounding and precision", show_res(&got, &f), show_res(&want, &f)));
                }
                // these two choose their own rounding
                if matches!(f.name.as_str(), "m_ceil" | "m_floor") && w.viol.is_none() {
                    if !w.pool[wi].res.contains_key(&0x37f) {
                        let snap = self.img.save();
                        if let Some(x) = self.alone(&call, 0x37f) {
                            w.pool[wi].res.insert(0x37f, x);
                        }
                        self.img.restore(&snap);
                    }
                    if let Some((x, _)) = w.pool[wi].res.get(&0x37f) {
                        if *x != got {
                            w.viol = Some(("result".into(), format!("{} returned {} under control word {cw:#x} but {} under the default one", show(&f, &call), show_res(&got, &f), show_res(x, &f))));
                        }
                    }
                }
                w.done += 1;
                w.sticky[d] = c.fsw() & EXC;
            }
        }
        self.ctx[d] = c;
    }
}

fn draw_cw(t: &mut Tape) -> u16 {
    if t.chance(GEN, 1, 2) {
        0x7f | [0x300u16, 0x200, 0][t.below(GEN, 3) as usize] | (t.below(GEN, 4) as u16) << 10
    } else {
        0x37f
    }
}

struct W {
    pool: Vec<Want>,
    cw: [u16; 5],
    sticky: [u16; 5],
    log: Hash,
    sig: Hash,
    verbose: bool,
    trace: Vec<String>,
    budget: u32,
    irqs: u64,
    steps: u64,
    done: u64,
    junk: u64,
    viol: Option<(String, String)>,
}

impl Prop for X87Prop {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut r = RunResult::default();
        let n = 1 + t.below(GEN, 4);
        let mut pool = Vec::new();
        for _ in 0..n {
            pool.push(Want { call: self.draw_call(t), res: BTreeMap::new() });
        }
        let junk = t.bits(GEN, 32) + 1;
        let mut w = W { pool, cw: [0x37f; 5], sticky: [0; 5], log: Hash::new(), sig: Hash::new(), verbose, trace: Vec::new(), budget: 4, irqs: 0, steps: 0, done: 0, junk, viol: None };
        self.img.pristine();
        let long = t.chance(GEN, 1, 4);
        let calls = 1 + t.below(GEN, if long { 40 } else { 6 });
        let (mut changed, mut flagged) = (0, 0);
        for _ in 0..calls {
            if t.chance(GEN, 1, 3) {
                w.cw[0] = draw_cw(t);
                changed += (w.cw[0] != 0x37f) as u64;
            }
            if t.chance(GEN, 1, 3) {
                w.sticky[0] = t.bits(GEN, 6) as u16;
            }
            flagged += (w.sticky[0] != 0) as u64;
            self.exec(t, &mut w, 0, stack_top(0) - 8);
            if w.viol.is_some() {
                break;
            }
        }
        r.violation = w.viol;
        r.trace = w.trace;
        r.count("calls completed", w.done);
        r.count("fault: interrupt whose handler uses the x87 unit", w.irqs);
        r.count("fault: caller chooses another rounding or precision", changed);
        r.count("fault: exception flags already raised on entry", flagged);
        r.nontrivial = w.done > 1 || w.irqs > 0;
        r.steps = w.steps;
        r.log_hash = w.log.get();
        r.sig = w.sig.get();
        r.summary = format!("{} calls of {:?}, {} interrupts", w.done, w.pool.iter().map(|c| show(&self.fns[c.call.f], &c.call)).collect::<Vec<_>>(), w.irqs);
        r
    }
}
