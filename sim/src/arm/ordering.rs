//! Memory-ordering scenarios on the weakly ordered memory (C09, C13).
use super::atomics::{args_for, class_of_trap, routines, Routine, Sched};
use super::lin::*;
use super::machine::*;
use super::mem::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN};
use crate::util::Hash;

const NREG: usize = 8;

#[derive(Clone)]
enum It {
    St(usize, u64),
    Ld(usize, usize),
    /// library call on location; result register
    Lib(Op, bool, usize, usize),
    /// strong accesses of the environment, used as the trusted partner
    AcqLd(usize, u8, usize, u8),
    RelSt(usize, u8, u64, u8),
    Fence,
}

pub struct OrderProp {
    machines: Vec<(String, Machine, Vec<Routine>)>,
    a64: bool,
}

impl OrderProp {
    pub fn new(images: &[(String, String, Kind)]) -> OrderProp {
        let machines: Vec<_> = images
            .iter()
            .map(|(n, p, k)| {
                let m = Machine::load(p, *k, 4, 16 * 16, 4096);
                let mut r = routines(&m);
                assert!(r.len() >= 20, "{n}: only {} atomic routines found", r.len());
                if *k == Kind::A64 {
                    r.retain(|r| r.acq || r.rel);
                }
                (n.clone(), m, r)
            })
            .collect();
        let a64 = images[0].2 == Kind::A64;
        OrderProp { machines, a64 }
    }
}

impl Prop for OrderProp {
    fn run(&mut self, tape: &mut Tape, verbose: bool) -> RunResult {
        let mut res = RunResult::default();
        let mi = tape.below(GEN, self.machines.len() as u64) as usize;
        let (iname, m, routs) = &mut self.machines[mi];
        let t0 = std::mem::replace(tape, Tape::replay(&Default::default()));
        m.reset(t0);
        run_order(iname, m, routs, self.a64, verbose, &mut res);
        *tape = std::mem::replace(&mut m.mem.tape, Tape::replay(&Default::default()));
        res
    }
}

fn locaddr(l: usize) -> u64 {
    ARENA + 16 * (1 + l as u64)
}

/// An operation of routine `r` and an initial value such that it changes the value and its result
/// tells the initial value from any of `others`.
fn effective(tape: &mut Tape, r: &Routine, off: u8) -> (Op, u128) {
    let m = mask(r.size);
    let mut op = Op { k: r.k, size: r.size, ret_new: r.ret_new, off, a: 0, b: 0, f: r.f, name: r.name.clone() };
    let salt = tape.below(GEN, 4) as u128;
    let cands: [u128; 8] = [0, 1, 2, 5, m, m >> 1, m ^ m >> 1, 0x35];
    for i in 0..64 {
        let i = i + salt as usize * 7;
        let init = cands[i % 8] & m;
        op.a = cands[(i / 8) % 8] & m;
        op.b = cands[(i / 8 + 3) % 8] & m;
        if r.k == K::Cas {
            op.a = init;
        }
        let (n, _) = op.eval(init);
        if n.is_some_and(|n| n != init) {
            return (op, init);
        }
    }
    // every operation has such operands in the list
    unreachable!("{}", r.name)
}

fn run_order(iname: &str, m: &mut Machine, routs: &[Routine], a64: bool, verbose: bool, res: &mut RunResult) {
    let tape = &mut m.mem.tape;
    let poison = tape.bits(GEN, 16);
    // ---- choose the template
    let full = !a64;
    let tmpl = if full { tape.weighted(GEN, &[3, 3, 2, 3, 2, 2, 1, 1, 2]) } else { tape.weighted(GEN, &[3, 3, 2, 0, 0, 0, 1, 1, 2]) };
    let by = |tape: &mut Tape, f: &dyn Fn(&Routine) -> bool| -> Routine {
        let c: Vec<&Routine> = routs.iter().filter(|r| f(r)).collect();
        let mut sizes: Vec<u8> = c.iter().map(|r| r.size).collect();
        sizes.sort();
        sizes.dedup();
        let s = *tape.pick(GEN, &sizes);
        // compare-and-swap has two outcomes, so it gets a larger share
        let want_cas = tape.chance(GEN, 1, 3);
        let c: Vec<&&Routine> = c.iter().filter(|r| r.size == s && (r.k == K::Cas) == want_cas).collect();
        if c.is_empty() {
            let c: Vec<&Routine> = routs.iter().filter(|r| f(r) && r.size == s).collect();
            return (*tape.pick(GEN, &c)).clone();
        }
        (**tape.pick(GEN, &c)).clone()
    };
    let (x, y, f, a, b) = (0usize, 1usize, 2usize, 3usize, 4usize);
    let mut init: Vec<(usize, u8, u8, u128)> = Vec::new(); // loc, off, size, value
    let mut th: Vec<Vec<It>> = Vec::new();
    let mut claim: Vec<(Vec<(usize, u128)>, (usize, u128), &'static str)> = Vec::new();
    // a claim: if all antecedent registers have these values then the consequent register != value
    let mut fence_sym = m.syms.get("__sync_synchronize").copied();
    if a64 {
        fence_sym = None;
    }
    let fence_op = |fs: u64| Op { k: K::Fence, size: 4, ret_new: false, off: 0, a: 0, b: 0, f: fs, name: "__sync_synchronize".into() };
    // A full-barrier item on location `loc`
    let mut n_lib = Vec::new();
    let full_item = |tape: &mut Tape, loc: usize, init: &mut Vec<(usize, u8, u8, u128)>, names: &mut Vec<String>| -> It {
        if fence_sym.is_some() && tape.chance(GEN, 1, 8) {
            names.push("__sync_synchronize".into());
            return It::Lib(fence_op(fence_sym.unwrap()), false, loc, 7);
        }
        let r = by(tape, &|_| true);
        let off = r.size * tape.below(GEN, (8 / r.size.min(8)) as u64) as u8;
        let (op, iv) = effective(tape, &r, off);
        init.push((loc, off, r.size, iv));
        names.push(r.name.clone());
        It::Lib(op, r.signed, loc, 7)
    };
    let pre = tape.chance(GEN, 1, 2); // publish two data locations
    match tmpl {
        0 | 2 | 6 | 7 | 8 => {
            // publication through a routine
            let r = by(tape, &|r| r.rel);
            let off = if r.size == 16 { 0 } else { r.size * tape.below(GEN, (8 / r.size) as u64) as u8 };
            let (op, iv) = effective(tape, &r, off);
            let pubv = op.eval(iv).0.unwrap();
            init.push((f, off, r.size, iv));
            n_lib.push(r.name.clone());
            let lib = It::Lib(op.clone(), r.signed, f, 6);
            match tmpl {
                7 => {
                    // the data was written by another thread
                    th.push(vec![It::St(x, 1)]);
                    th.push(vec![It::Ld(x, 2), lib]);
                    claim.push((vec![(2, 1)], (1, 0), "data read before the publishing call is not visible to a thread that observed it"));
                }
                _ => {
                    let mut p = vec![It::St(x, 1)];
                    if pre {
                        p.push(It::St(y, 1));
                    }
                    p.push(lib);
                    th.push(p);
                    claim.push((vec![], (1, 0), "data written before the publishing call is not visible to a thread that observed it"));
                    if pre {
                        claim.push((vec![], (3, 0), "data written before the publishing call is not visible to a thread that observed it"));
                    }
                }
            }
            let mut seen = pubv;
            if tmpl == 6 {
                // another thread's read-modify-write continues the sequence
                let c: Vec<&Routine> = routs.iter().filter(|q| q.size == r.size).collect();
                let q = (*tape.pick(GEN, &c)).clone();
                let mut op2 = Op { k: q.k, size: q.size, ret_new: q.ret_new, off, a: 1, b: 0x5a, f: q.f, name: q.name.clone() };
                let mut ok = false;
                for c in [1u128, 3, 0x5a, !0, 0x80, 0] {
                    op2.a = if q.k == K::Cas { pubv } else { c & mask(q.size) };
                    op2.b = if q.k == K::Cas { (pubv ^ 0x5a) & mask(q.size) } else { 0 };
                    let n2 = op2.eval(pubv).0;
                    let n1 = op2.eval(iv).0.unwrap_or(iv);
                    if let Some(n2) = n2 {
                        if n2 != pubv && n2 != iv && n2 != n1 {
                            seen = n2;
                            ok = true;
                            break;
                        }
                    }
                }
                if ok {
                    // only runs in which it hit after the publication count: value `seen`
                    th.push(vec![It::Lib(op2, q.signed, f, 5)]);
                    n_lib.push(q.name.clone());
                }
            }
            let mut obs = Vec::new();
            let ante;
            if tmpl == 2 || tmpl == 8 {
                // observed through a routine as well
                let c: Vec<&Routine> = routs.iter().filter(|q| q.size == r.size && q.acq).collect();
                let want = tape.chance(GEN, 1, 2);
                let cc: Vec<&&Routine> = c.iter().filter(|q| (q.k == K::Cas) == want).collect();
                let q = if cc.is_empty() { (*tape.pick(GEN, &c)).clone() } else { (**tape.pick(GEN, &cc)).clone() };
                n_lib.push(q.name.clone());
                match observer(tape, &q, off, iv, pubv) {
                    Some((op, rv)) => {
                        obs.push(It::Lib(op, q.signed, f, 0));
                        ante = rv;
                    }
                    None => {
                        obs.push(It::AcqLd(f, r.size, 0, off));
                        ante = pubv;
                    }
                }
            } else {
                obs.push(It::AcqLd(f, r.size, 0, off));
                ante = seen;
            }
            obs.push(It::Ld(x, 1));
            if pre {
                obs.push(It::Ld(y, 3));
            }
            th.push(obs);
            for c in &mut claim {
                c.0.push((0, ante));
            }
        }
        1 => {
            // observation through a routine
            let q = by(tape, &|r| r.acq);
            let off = if q.size == 16 { 0 } else { q.size * tape.below(GEN, (8 / q.size) as u64) as u8 };
            let pubv: u128 = *tape.pick(GEN, &[1u128, 0x5a, 0x80]) & mask(q.size);
            init.push((f, off, q.size, 0));
            let mut p = vec![It::St(x, 1)];
            if pre {
                p.push(It::St(y, 1));
            }
            p.push(It::RelSt(f, q.size.min(8), pubv as u64, if q.size == 16 && m.big { 8 } else { off }));
            th.push(p);
            n_lib.push(q.name.clone());
            let (op, rv) = match observer(tape, &q, off, 0, pubv) {
                Some(v) => v,
                None => {
                    let mut q2 = effective(tape, &q, off).0;
                    q2.ret_new = q.ret_new;
                    (q2, !0)
                }
            };
            let mut obs = vec![It::Lib(op, q.signed, f, 0), It::Ld(x, 1)];
            claim.push((vec![(0, rv)], (1, 0), "a thread whose call observed the published value does not see the data written before"));
            if pre {
                obs.push(It::Ld(y, 3));
                claim.push((vec![(0, rv)], (3, 0), "a thread whose call observed the published value does not see the data written before"));
            }
            th.push(obs);
        }
        3 => {
            // store buffering
            let i0 = full_item(tape, a, &mut init, &mut n_lib);
            th.push(vec![It::St(x, 1), i0, It::Ld(y, 0)]);
            let i1 = if tape.chance(GEN, 1, 2) { full_item(tape, b, &mut init, &mut n_lib) } else { It::Fence };
            th.push(vec![It::St(y, 1), i1, It::Ld(x, 1)]);
            claim.push((vec![(0, 0)], (1, 0), "a call that must act as a full barrier let a later load pass an earlier store"));
        }
        4 => {
            // store ; barrier ; store
            let i0 = full_item(tape, a, &mut init, &mut n_lib);
            th.push(vec![It::St(x, 1), i0, It::St(y, 1)]);
            th.push(vec![It::AcqLd(y, 4, 0, 0), It::Ld(x, 1)]);
            claim.push((vec![(0, 1)], (1, 0), "a call that must act as a full barrier let a later store pass an earlier one"));
        }
        _ => {
            // load ; barrier ; load
            let i0 = full_item(tape, a, &mut init, &mut n_lib);
            th.push(vec![It::St(x, 1), It::Fence, It::St(y, 1)]);
            th.push(vec![It::Ld(y, 0), i0, It::Ld(x, 1)]);
            claim.push((vec![(0, 1)], (1, 0), "a call that must act as a full barrier let a later load pass an earlier one"));
        }
    }
    // noise thread
    if th.len() < 4 && tape.chance(GEN, 1, 3) {
        th.push(vec![It::St(5, 7), It::St(6, 9), It::Ld(5, 7)]);
    }
    let nth = th.len();
    m.mem.spurious = [0u64, 8, 24][m.mem.tape.below(GEN, 3) as usize];
    m.mem.spurious_left = 20;
    let stale = [8u64, 4, 12][m.mem.tape.below(GEN, 3) as usize];
    let lse = a64 && m.mem.tape.chance(GEN, 1, 2);
    let thumb_caller = !a64 && m.mem.tape.chance(GEN, 1, 2);
    let mut sched = Sched::new(&mut m.mem.tape);
    m.poison = poison;
    // ---- machine
    for c in &mut m.cores {
        if let Cpu::B(c) = &mut c.cpu {
            c.lse = lse;
        }
    }
    if lse {
        if let Some(&fs) = m.syms.get("__rust_enable_lse") {
            m.call(0, fs, &[], None, false);
            if m.run_solo(0, 200) != Out::Ret {
                res.violation = Some(("enable".into(), "__rust_enable_lse did not return".into()));
                return;
            }
        }
    }
    for (l, off, size, v) in &init {
        m.mem.poke(locaddr(*l) + *off as u64, *size as usize, *v);
    }
    let ai = m.arena;
    m.mem.make_weak(ai, 4, stale);
    res.summary = format!("{iname}{}: template {tmpl}, {nth} threads, {}", if lse { " LSE" } else { "" }, n_lib.join(" "));
    if verbose {
        for (l, off, size, v) in &init {
            res.trace.push(format!("initially location {l}+{off} ({size} bytes) = {v:#x}"));
        }
    }
    let mut regs = vec![[None::<u128>; NREG]; 1];
    let mut pos = vec![0usize; nth];
    let mut incall = vec![false; nth];
    let mut sig = Hash::new();
    let mut touched = false;
    let mut now = 0u64;
    let mut switches = 0u64;
    loop {
        let run: Vec<usize> = (0..nth).filter(|&t| pos[t] < th[t].len()).collect();
        if run.is_empty() || now > 20_000 {
            break;
        }
        let prev = sched.cur;
        let t = sched.next(&mut m.mem.tape, &run, touched);
        if t != prev {
            switches += 1;
            if m.mem.tape.chance(FAULT, 1, 16) {
                m.mem.clrex(prev);
            }
        }
        now += 1;
        let it = th[t][pos[t]].clone();
        touched = true;
        let mut env = |m: &mut Machine, what: String, v: u128| {
            sig.u64((t as u64) << 60 | (pos[t] as u64) << 50 | v as u64);
            m.mem.log.u64(now << 40 ^ (t as u64) << 36 ^ v as u64);
            if verbose {
                res.trace.push(format!("[{now}] thread {t}: {what}"));
            }
        };
        match it {
            It::St(l, v) => {
                m.mem.store_al(t, locaddr(l), 4, v as u128, Ordg::Plain, 1).unwrap();
                env(m, format!("store location {l} = {v}"), v as u128);
                pos[t] += 1;
            }
            It::Ld(l, r) => {
                let v = m.mem.load_al(t, locaddr(l), 4, Ordg::Plain, 1).unwrap();
                regs[0][r] = Some(v);
                env(m, format!("load location {l} -> {v}"), v);
                pos[t] += 1;
            }
            It::AcqLd(l, size, r, off) => {
                let v = m.mem.load_al(t, locaddr(l) + off as u64, size, Ordg::Acq, 1).unwrap();
                regs[0][r] = Some(v);
                env(m, format!("acquire load location {l} -> {v:#x}"), v);
                pos[t] += 1;
            }
            It::RelSt(l, size, v, off) => {
                m.mem.store_al(t, locaddr(l) + off as u64, size, v as u128, Ordg::Rel, 1).unwrap();
                env(m, format!("release store location {l} = {v:#x}"), v as u128);
                pos[t] += 1;
            }
            It::Fence => {
                m.mem.barrier(t, Barrier::Full);
                env(m, "full barrier".into(), 0);
                pos[t] += 1;
            }
            It::Lib(op, signed, l, r) => {
                if !incall[t] {
                    let args = args_for(m.kind, signed, &op, locaddr(l) + op.off as u64);
                    m.call(t, op.f, &args, None, thumb_caller);
                    incall[t] = true;
                    if verbose {
                        res.trace.push(format!("[{now}] thread {t}: begin {} on location {l}", op.text()));
                    }
                }
                let pc = m.pc(t);
                let out = m.step(t);
                touched = !m.mem.accs.is_empty();
                for k in 0..m.mem.accs.len() {
                    let ac = m.mem.accs[k];
                    sig.u64((t as u64) << 60 | (ac.write as u64) << 50 | ac.val as u64 ^ ac.addr << 20);
                    m.mem.log.u64(ac.addr ^ (ac.val as u64).rotate_left(17) ^ (t as u64) << 50);
                    if verbose {
                        res.trace.push(format!("[{now}] thread {t}: {} {:#x} at {}", if ac.write { "write" } else { "read" }, ac.val, m.name_of(pc)));
                    }
                }
                m.mem.log.u64(now << 32 ^ (t as u64) << 28 ^ pc);
                match out {
                    Out::Run => {}
                    Out::Ret => {
                        let rr = m.regs4(t);
                        let v = (rr[0] as u128 | if a64 { (rr[1] as u128) << 64 } else { 0 }) & mask(op.size);
                        regs[0][r] = Some(v);
                        incall[t] = false;
                        pos[t] += 1;
                        if verbose {
                            res.trace.push(format!("[{now}] thread {t}: {} returns {v:#x}", op.text()));
                        }
                    }
                    Out::Abi(s) => {
                        res.violation = Some(("abi".into(), format!("{}: {s}", op.text())));
                    }
                    Out::Trap(tr) => {
                        let txt = format!("{}: {}", op.text(), trap_text(m, &tr));
                        match class_of_trap(&tr) {
                            Some(c) => res.violation = Some((c.into(), txt)),
                            None => res.error = Some(txt),
                        }
                    }
                }
                if res.violation.is_some() || res.error.is_some() {
                    break;
                }
            }
        }
    }
    let mut fired = 0;
    if res.violation.is_none() && res.error.is_none() {
        let rg = &regs[0];
        for (ante, (cr, cv), text) in &claim {
            if ante.iter().all(|(r, v)| rg[*r] == Some(*v)) && rg[*cr].is_some() {
                fired += 1;
                if rg[*cr] == Some(*cv) {
                    res.violation = Some(("ordering".into(), format!("{text} ({})", n_lib.join(", "))));
                }
            }
        }
    }
    res.count("fault: load served from an older version of memory", m.mem.stale_reads());
    res.count("fault: exclusive store / kernel exchange refused", m.mem.n_spurious);
    res.count("event: ordering claim decided (antecedent true)", fired);
    res.count("event: thread switch", switches);
    res.count(&format!("runs on {iname}{}", if a64 { if lse { " (LSE path)" } else { " (LL/SC path)" } } else { "" }), 1);
    res.count(&format!("runs of shape {}", ["publish through routine", "observe through routine", "publish and observe through routines", "store-buffering", "store-store", "load-load", "release sequence", "cumulativity", "publish and observe through routines"][tmpl]), 1);
    res.nontrivial = fired > 0 || m.mem.stale_reads() > 0;
    res.sig = sig.get();
    res.steps = m.steps;
    res.log_hash = m.mem.log.get();
}

/// An operation of `q` whose result tells whether it read `pubv` or `iv`; returns that result.
fn observer(tape: &mut Tape, q: &Routine, off: u8, iv: u128, pubv: u128) -> Option<(Op, u128)> {
    let mk = mask(q.size);
    let mut op = Op { k: q.k, size: q.size, ret_new: q.ret_new, off, a: 0, b: 0, f: q.f, name: q.name.clone() };
    let mode = tape.below(GEN, 2);
    if q.k == K::Cas {
        // mode 0: the comparison fails when it reads the published value, mode 1: it succeeds
        op.a = if mode == 0 { (pubv ^ iv ^ 0x11) & mk } else { pubv };
        if mode == 0 && (op.a == pubv || op.a == iv) {
            op.a = (op.a ^ 0x22) & mk;
        }
        op.b = 0x77 & mk;
        return Some((op, pubv));
    }
    let cands = [0u128, 1, mk, mk >> 1, mk ^ mk >> 1, 0x5a & mk, 0x25];
    for k in 0..cands.len() {
        op.a = cands[(k + mode as usize * 3) % cands.len()] & mk;
        let (rp, ri) = (op.eval(pubv).1, op.eval(iv).1);
        if rp != ri {
            return Some((op, rp));
        }
    }
    None
}
