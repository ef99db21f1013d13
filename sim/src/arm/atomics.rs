//! Scenarios for the atomic routines: atomicity (C08, C11, C12), progress (C10) and ordering
//! (C09, C13).
use super::lin::*;
use super::machine::*;
use super::mem::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN, SCHED};
use crate::util::Hash;

pub const WIN: u64 = ARENA + 32;

/// The routines present in an image.
#[derive(Clone)]
pub struct Routine {
    pub k: K,
    pub size: u8,
    pub ret_new: bool,
    pub f: u64,
    pub name: String,
    /// argument registers hold sign-extended values
    pub signed: bool,
    pub acq: bool,
    pub rel: bool,
}

pub fn routines(m: &Machine) -> Vec<Routine> {
    let mut v = Vec::new();
    if m.kind == Kind::A64 {
        for (k, n) in [(K::Cas, "cas"), (K::Swap, "swp"), (K::Add, "ldadd"), (K::Clr, "ldclr"), (K::Xor, "ldeor"), (K::Or, "ldset")] {
            for size in [1u8, 2, 4, 8, 16] {
                for (o, acq, rel) in [("relax", false, false), ("acq", true, false), ("rel", false, true), ("acq_rel", true, true)] {
                    let name = format!("__aarch64_{n}{size}_{o}");
                    if let Some(&f) = m.syms.get(&name) {
                        v.push(Routine { k, size, ret_new: false, f, name, signed: false, acq, rel });
                    }
                }
            }
        }
        return v;
    }
    let ops = [("add", K::Add), ("sub", K::Sub), ("and", K::And), ("or", K::Or), ("xor", K::Xor), ("nand", K::Nand), ("max", K::Max), ("umax", K::Umax), ("min", K::Min), ("umin", K::Umin)];
    for size in [1u8, 2, 4] {
        for (n, k) in ops {
            for (name, ret_new) in [(format!("__sync_fetch_and_{n}_{size}"), false), (format!("__sync_{n}_and_fetch_{size}"), true)] {
                if let Some(&f) = m.syms.get(&name) {
                    v.push(Routine { k, size, ret_new, f, name, signed: matches!(k, K::Max | K::Min), acq: true, rel: true });
                }
            }
        }
        for (name, k) in [(format!("__sync_lock_test_and_set_{size}"), K::Swap), (format!("__sync_val_compare_and_swap_{size}"), K::Cas)] {
            if let Some(&f) = m.syms.get(&name) {
                v.push(Routine { k, size, ret_new: false, f, name, signed: false, acq: true, rel: true });
            }
        }
    }
    v
}

/// Argument registers for a call of `r` on address `p`.
pub fn args_for(kind: Kind, r_signed: bool, op: &Op, p: u64) -> Vec<u64> {
    let ext = |v: u128| -> u64 {
        let v = v & mask(op.size);
        if r_signed && op.size < 4 {
            let s = 64 - 8 * op.size as u32;
            (((v as u64) << s) as i64 >> s) as u64
        } else {
            v as u64
        }
    };
    if kind == Kind::A64 {
        // the upper parts of argument registers are unspecified on AArch64
        let junk = |v: u128| if op.size < 8 { (v & mask(op.size)) as u64 | 0xa5a5_a5a5_a5a5_a5a5 << (8 * op.size as u32) } else { v as u64 };
        return match op.k {
            K::Cas if op.size == 16 => vec![op.a as u64, (op.a >> 64) as u64, op.b as u64, (op.b >> 64) as u64, p],
            K::Cas => vec![junk(op.a), junk(op.b), p],
            K::Enable => vec![],
            _ => vec![junk(op.a), p],
        };
    }
    match op.k {
        K::Cas => vec![p, ext(op.a), ext(op.b)],
        K::Fence => vec![],
        _ => vec![p, ext(op.a)],
    }
}

/// Per-run scheduling policy.  Choice 0 everywhere means: run the current thread on.
pub struct Sched {
    mode: usize,
    den: u64,
    burst: u64,
    left: u64,
    pub cur: usize,
    pub switches: u64,
}

impl Sched {
    pub fn new(tape: &mut Tape) -> Sched {
        let mode = tape.below(GEN, 4) as usize;
        let den = [4, 2, 8, 32][tape.below(GEN, 4) as usize];
        let burst = [0, 20, 60, 200][tape.below(GEN, 4) as usize];
        Sched { mode, den, burst, left: 0, cur: 0, switches: 0 }
    }
    /// Next thread to run among `run` (non-empty, sorted).  `touched`: the current thread's last
    /// step accessed shared memory.
    pub fn next(&mut self, tape: &mut Tape, run: &[usize], touched: bool) -> usize {
        if !run.contains(&self.cur) {
            self.cur = run[tape.below(SCHED, run.len() as u64) as usize];
            self.left = 0;
            return self.cur;
        }
        if run.len() == 1 {
            return self.cur;
        }
        if self.left > 0 {
            self.left -= 1;
            return self.cur;
        }
        let sw = match self.mode {
            // preempt at accesses only
            0 | 1 => touched && tape.chance(SCHED, 1, if self.mode == 0 { 2 } else { self.den.max(3) }),
            // preempt anywhere
            2 => tape.chance(SCHED, 1, self.den),
            // preempt at accesses, then let the other run for a while
            _ => touched && tape.chance(SCHED, 1, 3),
        };
        if sw {
            let others: Vec<usize> = run.iter().copied().filter(|&t| t != self.cur).collect();
            self.cur = others[tape.below(SCHED, others.len() as u64) as usize];
            self.switches += 1;
            if self.mode == 3 && self.burst > 0 {
                self.left = tape.below(SCHED, self.burst);
            }
        }
        self.cur
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Goal {
    Atomic,
    Progress,
}

pub struct AtomicProp {
    machines: Vec<(String, Machine, Vec<Routine>)>,
    goal: Goal,
}

impl AtomicProp {
    pub fn new(images: &[(String, String, Kind)], goal: Goal) -> AtomicProp {
        let machines = images
            .iter()
            .map(|(n, p, k)| {
                let m = Machine::load(p, *k, 4, 96, 4096);
                let r = routines(&m);
                assert!(r.len() >= 20, "{n}: only {} atomic routines found", r.len());
                (n.clone(), m, r)
            })
            .collect();
        AtomicProp { machines, goal }
    }
}

struct Th {
    ops: Vec<(Op, bool)>,
    next: usize,
    /// index of the running operation's event
    cur: Option<usize>,
    dead: bool,
    op_steps: u64,
}

const SOLO_BOUND: u64 = 3000;

fn gen_val(tape: &mut Tape, pool: &[u128]) -> u128 {
    match tape.weighted(GEN, &[6, 1]) {
        0 => *tape.pick(GEN, pool),
        _ => tape.bits(GEN, 64) as u128 | (tape.bits(GEN, 64) as u128) << 64,
    }
}

pub fn class_of_trap(t: &Trap) -> Option<&'static str> {
    match t {
        Trap::Unimpl(..) => None,
        Trap::Undef(..) => Some("undefined-instruction"),
        Trap::Software(..) => Some("trap"),
        Trap::Fetch(_) => Some("wild-jump"),
        Trap::Align { .. } => Some("misaligned"),
        Trap::Access { .. } => Some("bad-access"),
    }
}

impl Prop for AtomicProp {
    fn run(&mut self, tape: &mut Tape, verbose: bool) -> RunResult {
        let mut res = RunResult::default();
        let nm = self.machines.len() as u64;
        let mi = tape.below(GEN, nm) as usize;
        let (iname, m, routs) = &mut self.machines[mi];
        let t0 = std::mem::replace(tape, Tape::replay(&Default::default()));
        m.reset(t0);
        run_atomic(iname, m, routs, self.goal, verbose, &mut res);
        *tape = std::mem::replace(&mut m.mem.tape, Tape::replay(&Default::default()));
        res
    }
}

fn run_atomic(iname: &str, m: &mut Machine, routs: &[Routine], goal: Goal, verbose: bool, res: &mut RunResult) {
    let a64 = m.kind == Kind::A64;
    let big = m.big;
    // ---- scenario
    let nth = 2 + m.mem.tape.below(GEN, if goal == Goal::Progress { 3 } else { 3 }) as usize;
    m.poison = m.mem.tape.bits(GEN, 16);
    let kinds_few = m.mem.tape.chance(GEN, 1, 2);
    let width_pick = m.mem.tape.below(GEN, 4); // 0: mixed
    let word: u8 = if a64 { *m.mem.tape.pick(GEN, &[8u8, 16, 4]) } else { 4 };
    let focus_off: u8 = if a64 { 0 } else { 4 * m.mem.tape.below(GEN, 2) as u8 };
    let two_words = m.mem.tape.chance(GEN, 1, 6);
    let mut pool: Vec<u128> = vec![0, 1];
    for _ in 0..2 {
        let p = &mut m.mem.tape;
        pool.push(match p.below(GEN, 4) {
            0 => !0u128,
            1 => 0x8080_8080_8080_8080_8080_8080_8080_8080,
            2 => 0x7f7f_7f7f_7f7f_7f7f_7f7f_7f7f_7f7f_7f7f,
            _ => p.bits(GEN, 64) as u128 * 0x1_0000_0000_0000_0001,
        });
    }
    let mut win = [0u8; 16];
    if m.mem.tape.chance(GEN, 3, 4) {
        for b in &mut win {
            let k = m.mem.tape.below(GEN, pool.len() as u64) as usize;
            *b = pool[k] as u8;
        }
    }
    let lse_core = a64 && m.mem.tape.chance(GEN, 1, 2);
    let lse_on0 = lse_core && m.mem.tape.chance(GEN, 1, 3);
    let enable_mid = lse_core && !lse_on0 && m.mem.tape.chance(GEN, 1, 2);
    let enable_sym = m.syms.get("__rust_enable_lse").copied();
    let fav: Vec<usize> = (0..2).map(|_| m.mem.tape.below(GEN, routs.len() as u64) as usize).collect();
    let mut th: Vec<Th> = Vec::new();
    let mut total = 0;
    for _ in 0..nth {
        let n = 1 + m.mem.tape.below(GEN, if nth == 2 { 4 } else { 3 }) as usize;
        let mut ops = Vec::new();
        for _ in 0..n {
            if total >= 10 {
                break;
            }
            total += 1;
            let env = m.mem.tape.weighted(GEN, &[8, 1, 1]);
            let r = if kinds_few && m.mem.tape.chance(GEN, 3, 4) {
                let k = fav[m.mem.tape.below(GEN, 2) as usize].min(routs.len() - 1);
                routs[k].clone()
            } else {
                // by width first, so that rare widths are exercised as often as common ones
                let mut sizes: Vec<u8> = routs.iter().map(|r| r.size).filter(|&s| s <= word).collect();
                sizes.sort();
                sizes.dedup();
                let s = if width_pick == 0 { *m.mem.tape.pick(GEN, &sizes) } else { sizes[(width_pick as usize - 1).min(sizes.len() - 1)] };
                let c: Vec<&Routine> = routs.iter().filter(|r| r.size == s).collect();
                (*m.mem.tape.pick(GEN, &c)).clone()
            };
            let size = r.size;
            let span = word.max(size);
            let mut off = focus_off + size * m.mem.tape.below(GEN, (span / size) as u64) as u8;
            if span < 8 && two_words && m.mem.tape.chance(GEN, 1, 3) {
                off ^= 4;
            }
            if off + size > 16 {
                off = 0;
            }
            let a = gen_val(&mut m.mem.tape, &pool);
            let b = gen_val(&mut m.mem.tape, &pool);
            let op = match env {
                0 => Op { k: r.k, size, ret_new: r.ret_new, off, a, b, f: r.f, name: r.name.clone() },
                _ => {
                    let size = size.min(if a64 { 8 } else { 4 });
                    Op { k: if env == 1 { K::Load } else { K::Store }, size, ret_new: false, off: off & !(size - 1), a, b: 0, f: 0, name: String::new() }
                }
            };
            ops.push((op, r.signed));
        }
        th.push(Th { ops, next: 0, cur: None, dead: false, op_steps: 0 });
    }
    if enable_mid {
        if let Some(f) = enable_sym {
            let t = m.mem.tape.below(GEN, nth as u64) as usize;
            let n = th[t].ops.len() as u64;
            let at = m.mem.tape.below(GEN, n + 1) as usize;
            th[t].ops.insert(at, (Op { k: K::Enable, size: 1, ret_new: false, off: 0, a: 0, b: 0, f, name: "__rust_enable_lse".into() }, false));
        }
    }
    m.mem.spurious = [0u64, 4, 16, 40][m.mem.tape.below(GEN, 4) as usize];
    m.mem.spurious_left = if m.mem.spurious > 0 { 40 } else { 0 };
    let ctx_den = [0u64, 16, 4][m.mem.tape.below(GEN, 3) as usize];
    let thumb_caller = !a64 && m.mem.tape.chance(GEN, 1, 2);
    let kill_den: u64 = if goal == Goal::Progress { [0, 20, 60, 200][m.mem.tape.below(GEN, 4) as usize] } else { 0 };
    let mut sched = Sched::new(&mut m.mem.tape);
    // ---- set up the machine
    for c in &mut m.cores {
        if let Cpu::B(c) = &mut c.cpu {
            c.lse = lse_core;
            c.torn = 0;
        }
    }
    let ai = m.arena;
    let len = m.mem.regions[ai].data.len();
    for k in 0..len {
        m.mem.regions[ai].data[k] = 0xc0 ^ k as u8;
    }
    let wo = (WIN - ARENA) as usize;
    m.mem.regions[ai].data[wo..wo + 16].copy_from_slice(&win);
    let mut perm = vec![0u8; len];
    perm[wo..wo + 16].fill(PR | PW);
    m.mem.regions[ai].bperm = Some(perm);
    let before = m.mem.regions[ai].data.clone();
    if lse_on0 {
        if let Some(f) = enable_sym {
            m.call(0, f, &[], None, false);
            let o = m.run_solo(0, 200);
            if o != Out::Ret {
                res.violation = Some(("enable".into(), format!("__rust_enable_lse did not return: {o:?}")));
                return;
            }
        }
    }
    res.summary = format!("{iname}: {nth} threads, {total} operations");
    if verbose {
        res.trace.push(format!("machine {iname}{}; window initially {:02x?}", if a64 { if lse_core { " core with LSE" } else { " core without LSE" } } else { "" }, win));
        for (t, x) in th.iter().enumerate() {
            for (o, _) in &x.ops {
                res.trace.push(format!("thread {t} calls {}", o.text()));
            }
        }
    }
    // ---- run
    let mut ev: Vec<Event> = Vec::new();
    let mut sig = Hash::new();
    let mut now = 0u64;
    let mut touched = false;
    let mut phase_solo: Option<usize> = None;
    let (mut n_kill, mut n_ctx, mut inop_switch, mut overlapped) = (0u64, 0u64, 0u64, false);
    let cap = 20_000u64;
    let freeze_at = if goal == Goal::Progress && m.mem.tape.chance(GEN, 1, 2) { m.mem.tape.below(GEN, 400) } else { cap };
    loop {
        let live = |x: &Th| !x.dead && (x.cur.is_some() || x.next < x.ops.len());
        let run: Vec<usize> = (0..nth).filter(|&t| live(&th[t])).collect();
        if run.is_empty() {
            break;
        }
        let t = match phase_solo {
            Some(t) if live(&th[t]) => t,
            _ if phase_solo.is_some() || now >= cap.min(freeze_at) => {
                // everyone else is stopped; this thread must finish on its own
                m.mem.spurious_left = 0;
                let t = run[m.mem.tape.below(SCHED, run.len() as u64) as usize];
                if verbose {
                    res.trace.push(format!("[{now}] all other threads stop; thread {t} runs alone"));
                }
                th[t].op_steps = 0;
                phase_solo = Some(t);
                t
            }
            _ => {
                let prev = sched.cur;
                let t = sched.next(&mut m.mem.tape, &run, touched);
                if t != prev && prev < nth {
                    if th[prev].cur.is_some() {
                        inop_switch += 1;
                    }
                    if ctx_den > 0 && m.mem.tape.chance(FAULT, 1, ctx_den) {
                        // a context switch on that core clears its reservation
                        m.mem.clrex(prev);
                        n_ctx += 1;
                    }
                }
                t
            }
        };
        now += 1;
        if kill_den > 0 && phase_solo.is_none() && n_kill + 1 < nth as u64 && th[t].cur.is_some() && m.mem.tape.chance(FAULT, 1, kill_den) {
            th[t].dead = true;
            n_kill += 1;
            if verbose {
                res.trace.push(format!("[{now}] thread {t} dies at {}", m.name_of(m.pc(t))));
            }
            continue;
        }
        if th[t].cur.is_none() {
            let (op, signed) = th[t].ops[th[t].next].clone();
            th[t].next += 1;
            th[t].op_steps = 0;
            if th.iter().any(|x| x.cur.is_some() && !x.dead) {
                overlapped = true;
            }
            let p = WIN + op.off as u64;
            if op.f == 0 {
                m.mem.accs.clear();
                let mut ret = 0;
                let bytes = op.size;
                if op.k == K::Load {
                    ret = m.mem.load_al(t, p, bytes, Ordg::Plain, 1).unwrap();
                } else {
                    m.mem.store_al(t, p, bytes, op.a & mask(bytes), Ordg::Plain, 1).unwrap();
                }
                if verbose {
                    res.trace.push(format!("[{now}] thread {t}: {} -> {ret:#x}", op.text()));
                }
                sig.u64((t as u64) << 40 | 7 << 32 | p);
                m.mem.log.u64(ret as u64 ^ now << 20);
                ev.push(Event { tid: t, op, inv: now, resp: Some(now), ret });
                touched = true;
                continue;
            }
            let args = args_for(m.kind, signed, &op, p);
            if verbose {
                res.trace.push(format!("[{now}] thread {t}: begin {}", op.text()));
            }
            m.call(t, op.f, &args, None, thumb_caller);
            ev.push(Event { tid: t, op, inv: now, resp: None, ret: 0 });
            th[t].cur = Some(ev.len() - 1);
        }
        let pc = m.pc(t);
        let ei = th[t].cur.unwrap();
        let out = m.step(t);
        th[t].op_steps += 1;
        touched = !m.mem.accs.is_empty();
        let accs = std::mem::take(&mut m.mem.accs);
        for a in &accs {
            if a.region != ai {
                sig.u64((t as u64) << 40 | 3 << 32 | a.addr & 0xffff);
                continue;
            }
            sig.u64((t as u64) << 40 | (a.write as u64) << 32 | a.addr & 0xffff);
            m.mem.log.u64(a.addr ^ (a.val as u64).rotate_left(17) ^ (a.write as u64) << 63 ^ (t as u64) << 50);
            if verbose {
                res.trace.push(format!("[{now}] thread {t}: {} {}{} {} {:#x} at {}", if a.write { "write" } else { "read" }, if a.addr >= WIN { "+" } else { "-" }, a.addr.abs_diff(WIN), a.size, a.val, m.name_of(pc)));
            }
            if a.write {
                let op = &ev[ei].op;
                let (lo, hi) = (WIN + op.off as u64, WIN + op.off as u64 + op.size as u64);
                for k in 0..a.size as u64 {
                    let sh = if big { 8 * (a.size as u64 - 1 - k) } else { 8 * k };
                    let (o, n) = ((a.old >> sh) as u8, (a.val >> sh) as u8);
                    let ad = a.addr + k;
                    if o != n && !(lo..hi).contains(&ad) {
                        res.violation = Some(("neighbour".into(), format!("{} changed byte +{} (from {o:#x} to {n:#x}), which it does not own", op.text(), ad as i64 - WIN as i64)));
                    }
                }
            }
        }
        m.mem.accs = accs;
        m.mem.log.u64(now << 32 ^ (t as u64) << 28 ^ pc);
        if res.violation.is_some() {
            break;
        }
        match out {
            Out::Run => {}
            Out::Ret => {
                let r = m.regs4(t);
                let e = &mut ev[ei];
                e.resp = Some(now);
                e.ret = (r[0] as u128 | if a64 { (r[1] as u128) << 64 } else { 0 }) & mask(e.op.size);
                if verbose {
                    res.trace.push(format!("[{now}] thread {t}: {} returns {:#x}", e.op.text(), e.ret));
                }
                m.mem.log.u64(e.ret as u64);
                th[t].cur = None;
            }
            Out::Abi(s) => {
                res.violation = Some(("abi".into(), format!("{}: {s}", ev[ei].op.text())));
                break;
            }
            Out::Trap(tr) => {
                let txt = format!("{}: {}", ev[ei].op.text(), trap_text(m, &tr));
                match class_of_trap(&tr) {
                    Some(c) => res.violation = Some((c.into(), txt)),
                    None => res.error = Some(txt),
                }
                break;
            }
        }
        if phase_solo.is_some() && th[t].cur.is_some() && th[t].op_steps > SOLO_BOUND {
            res.violation = Some(("no-progress".into(), format!("{} does not finish within {SOLO_BOUND} of its own instructions although nobody interferes", ev[ei].op.text())));
            break;
        }
    }
    if verbose {
        for l in &res.trace {
            let _ = l;
        }
    }
    if res.violation.is_none() && res.error.is_none() {
        let fin: [u8; 16] = m.mem.regions[ai].data[wo..wo + 16].try_into().unwrap();
        for (k, (a, b)) in before.iter().zip(&m.mem.regions[ai].data).enumerate() {
            if !(wo..wo + 16).contains(&k) && a != b {
                res.violation = Some(("neighbour".into(), format!("byte {k} outside all operands changed")));
            }
        }
        if res.violation.is_none() && !linearizable(win, fin, &ev, big) {
            let mut s = String::from("no order of the calls explains the returned values and final memory:");
            for e in &ev {
                s += &format!(" [{}..{} t{} {} = {}]", e.inv, e.resp.map(|x| x.to_string()).unwrap_or("never".into()), e.tid, e.op.text(), if e.resp.is_some() { format!("{:#x}", e.ret) } else { "-".into() });
            }
            s += &format!(" initial {win:02x?} final {fin:02x?}");
            res.violation = Some(("not-atomic".into(), s));
        }
        m.mem.log.bytes(&fin);
    }
    let torn: u64 = m.cores.iter().map(|c| if let Cpu::B(c) = &c.cpu { c.torn } else { 0 }).sum();
    res.count("fault: exclusive store / kernel exchange refused", m.mem.n_spurious);
    res.count("fault: reservation cleared by context switch", n_ctx);
    res.count("event: exclusive store failed after lost reservation", m.mem.n_monitor_lost);
    res.count("fault: thread killed inside a call", n_kill);
    res.count("fault: all other threads stopped for ever", phase_solo.is_some() as u64);
    res.count("event: 128-bit load with a write between its halves", torn);
    res.count("event: preemption inside a call", inop_switch);
    res.count("event: kernel helper entered", m.n_kuser);
    res.count("fault: LSE enabled while calls in flight", (enable_mid && th.iter().all(|x| x.next == x.ops.len())) as u64);
    res.count(&format!("runs on {iname}{}", if a64 { if lse_core { " (LSE core)" } else { " (no LSE)" } } else { "" }), 1);
    res.nontrivial = overlapped && inop_switch > 0;
    res.sig = sig.get() ^ ev.iter().fold(0u64, |h, e| h.rotate_left(7) ^ e.op.f ^ e.op.off as u64);
    res.steps = m.steps;
    res.log_hash = m.mem.log.get();
}
