//! C01: results do not depend on concurrent or earlier calls.
//! C02: calls may be interrupted, re-entered and abandoned anywhere.
use super::calls::*;
use super::engine::*;
use super::lib64::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN, SCHED};
use crate::util::Hash;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq)]
pub enum Goal {
    Concurrent,
    Interrupt,
}

pub struct HistProp {
    libs: Vec<Lib>,
    li: usize,
    goal: Goal,
    ctxs: Vec<Box<Ctx>>,
}

const MAX_SHARED: u32 = 20_000;
/// Instructions an interrupt storm lasts.
const STORM: u64 = 500;

struct Th {
    calls: Vec<usize>,
    next: usize,
    running: bool,
    /// stopped in front of an access to static data
    parked: bool,
}

impl HistProp {
    pub fn new(imgs: &[(&str, String)], goal: Goal) -> Self {
        map_world();
        let mut libs = Vec::new();
        for (n, p) in imgs {
            let mut l = Lib::load(n, p);
            l.discover(1000, if goal == Goal::Interrupt { 6 } else { 0 });
            libs.push(l);
        }
        HistProp { libs, li: 0, goal, ctxs: (0..10).map(|_| Ctx::new()).collect() }
    }

    /// A small pool of calls: few routines, few argument tuples, so that calls meet again.
    fn pool(&mut self, t: &mut Tape) -> (Vec<Call>, Vec<Res>) {
        let nf = 1 + t.below(GEN, 3) as usize;
        let mut pool = Vec::new();
        for _ in 0..nf {
            let f = if !self.libs[self.li].shared.is_empty() && t.chance(GEN, 3, 4) {
                *t.pick(GEN, &self.libs[self.li].shared.clone())
            } else {
                t.below(GEN, self.libs[self.li].fns.len() as u64) as usize
            };
            let len = if self.goal == Goal::Interrupt { 300 } else { MAX_LEN };
            let hot = &self.libs[self.li].hot[f];
            let mut a = if !hot.is_empty() && t.chance(GEN, 1, 2) { *t.pick(GEN, hot) } else { gen_args(t, &self.libs[self.li].fns[f], len) };
            for _ in 0..1 + t.below(GEN, 3) {
                pool.push(Call { f, a });
                a = if t.chance(GEN, 1, 2) { near_args(t, &self.libs[self.li].fns[f], &a) } else { gen_args(t, &self.libs[self.li].fns[f], len) };
            }
        }
        let mut ok = (Vec::new(), Vec::new());
        for c in pool {
            if let Ok(r) = self.libs[self.li].alone(&c) {
                ok.0.push(c);
                ok.1.push(r);
            }
        }
        ok
    }

    fn concurrent(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut r = RunResult::default();
        let (pool, want) = self.pool(t);
        if pool.is_empty() {
            r.count("run without a usable call", 1);
            return r;
        }
        let nt = 1 + t.weighted(GEN, &[1, 4, 3, 2]);
        let mut th: Vec<Th> = Vec::new();
        for k in 0..nt {
            let n = if nt == 1 { 2 + t.below(GEN, 30) } else { 1 + t.below(GEN, 5) };
            let calls = (0..n).map(|_| t.below(GEN, pool.len() as u64) as usize).collect();
            th.push(Th { calls, next: 0, running: false, parked: false });
            self.ctxs[k].reset();
        }
        // probability (of 16) of a switch at a scheduling point
        let p = [8, 0, 2, 5, 14][t.weighted(SCHED, &[4, 1, 3, 3, 2])];
        self.libs[self.li].img.pristine();
        self.libs[self.li].img.set_open(false);
        let mut log = Hash::new();
        let mut sig = Hash::new();
        let mut cur = 0;
        let (mut accesses, mut inside, mut overlap) = (0u32, 0u64, false);
        // accesses in a row by one thread; a thread that waits for another must not wait for ever
        let mut in_a_row = 0u32;
        let live = |th: &[Th]| -> Vec<usize> { (0..th.len()).filter(|&k| th[k].running || th[k].next < th[k].calls.len()).collect() };
        'run: loop {
            let l = live(&th);
            if l.is_empty() {
                break;
            }
            if !l.contains(&cur) {
                cur = *t.pick(SCHED, &l);
                in_a_row = 0;
            } else if l.len() > 1 && (t.chance(SCHED, p, 16) || in_a_row > 200) {
                in_a_row = 0;
                let others: Vec<usize> = l.iter().copied().filter(|&k| k != cur).collect();
                if th[cur].running {
                    inside += 1;
                }
                cur = *t.pick(SCHED, &others);
                sig.u64(cur as u64);
            }
            let k = cur;
            if !th[k].running {
                let ci = th[k].calls[th[k].next];
                let c = &pool[ci];
                let f = &self.libs[self.li].fns[c.f];
                if !f.wide {
                    self.ctxs[k].reset_fp();
                }
                prepare(&mut self.ctxs[k], f, c, k as u64, stack_top(k) - 8);
                th[k].running = true;
                if th.iter().filter(|x| x.running).count() > 1 {
                    overlap = true;
                }
                sig.u64(0x100 + c.f as u64);
                if verbose {
                    r.trace.push(format!("t{k}: call {}", self.libs[self.li].show(c)));
                }
            }
            let c = &mut self.ctxs[k];
            let ev = if th[k].parked {
                th[k].parked = false;
                accesses += 1;
                in_a_row += 1;
                let pc = c.rip;
                log.u64(pc);
                log.u64(k as u64);
                sig.u64(pc << 4 | k as u64);
                if verbose {
                    r.trace.push(format!("t{k}:   access to static data at {}", self.libs[self.li].img.name_of(pc)));
                }
                match self.libs[self.li].access(c) {
                    Ev::Step => resume(c, false),
                    e => e,
                }
            } else {
                resume(c, false)
            };
            match ev {
                Ev::Fault { addr, .. } if self.libs[self.li].img.in_data(addr) => {
                    th[k].parked = true;
                    if accesses > MAX_SHARED {
                        r.violation = Some(("stuck".into(), format!("calls do not finish under a fair schedule: {}", self.libs[self.li].show(&pool[th[k].calls[th[k].next]]))));
                        break 'run;
                    }
                }
                Ev::Ret => {
                    let ci = th[k].calls[th[k].next];
                    let call = &pool[ci];
                    let f = &self.libs[self.li].fns[call.f];
                    let got = result(c, f, k as u64);
                    log.u64(got.val as u64);
                    log.u64(got.out as u64);
                    if verbose {
                        r.trace.push(format!("t{k}: {} = {}", self.libs[self.li].show(call), show_res(&got, f)));
                    }
                    r.count("calls completed", 1);
                    if got != want[ci] {
                        r.violation = Some((
                            "result".into(),
                            format!("{} returned {} but {} when it is the only call made", self.libs[self.li].show(call), show_res(&got, f), show_res(&want[ci], f)),
                        ));
                        break 'run;
                    }
                    th[k].running = false;
                    th[k].next += 1;
                }
                e => {
                    let call = &pool[th[k].calls[th[k].next]];
                    let (cl, m) = if e == Ev::Timeout { ("stuck", "does not finish".to_string()) } else { ("crash", format!("{e:?} at {}", self.libs[self.li].img.name_of(c.rip))) };
                    r.violation = Some((cl.into(), format!("{}: {m}; alone the call returns normally", self.libs[self.li].show(call))));
                    break 'run;
                }
            }
        }
        self.libs[self.li].img.set_open(true);
        r.nontrivial = inside > 0 && overlap || nt == 1;
        r.count("event: preemption between two accesses to static data", inside);
        r.count("event: access to static data", accesses as u64);
        r.count(if nt == 1 { "runs with one thread and a call history" } else { "runs with several threads" }, 1);
        r.steps = self.libs[self.li].steps;
        self.libs[self.li].steps = 0;
        r.sig = sig.get();
        r.log_hash = log.get();
        r.summary = format!("{} threads, calls {:?}, {} accesses to static data, {} preemptions", nt, pool.iter().map(|c| self.libs[self.li].show(c)).collect::<Vec<_>>(), accesses, inside);
        r
    }

    /// Thousands of calls in one process.
    fn long_history(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut r = RunResult::default();
        let (pool, want) = self.pool(t);
        if pool.is_empty() {
            return r;
        }
        let n = [300, 1000, 5000, 70_000, 1_100_000][t.weighted(GEN, &[200, 160, 80, 40, 3])] + t.below(GEN, 10);
        let step = t.below(GEN, pool.len() as u64) as usize;
        self.libs[self.li].img.pristine();
        self.ctxs[0].reset();
        let mut log = Hash::new();
        for i in 0..n {
            let ci = (i as usize * step + i as usize / 7) % pool.len();
            let (call, f) = (&pool[ci], &self.libs[self.li].fns[pool[ci].f]);
            if !f.wide {
                self.ctxs[0].reset_fp();
            }
            prepare(&mut self.ctxs[0], f, call, 0, stack_top(0) - 8);
            let ev = resume(&mut self.ctxs[0], false);
            let got = result(&self.ctxs[0], f, 0);
            if ev != Ev::Ret || got != want[ci] {
                r.violation = Some(("history".into(), format!("call number {i} in the process, {}: {ev:?} {} but {} when it is the only call made", self.libs[self.li].show(call), show_res(&got, f), show_res(&want[ci], f))));
                break;
            }
            log.u64(got.val as u64);
        }
        if verbose {
            r.trace.push(format!("{n} calls in a row of {:?}", pool.iter().map(|c| self.libs[self.li].show(c)).collect::<Vec<_>>()));
        }
        r.count("calls completed", n);
        r.count("runs with a long call history", 1);
        r.nontrivial = true;
        r.log_hash = log.get();
        r.sig = log.get();
        r.summary = format!("{n} calls in one process");
        r
    }

    fn interrupt(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut r = RunResult::default();
        let (pool, want) = self.pool(t);
        if pool.is_empty() {
            r.count("run without a usable call", 1);
            return r;
        }
        self.libs[self.li].img.pristine();
        self.libs[self.li].img.set_open(false);
        let mut w = World { log: Hash::new(), sig: Hash::new(), pool, want, verbose, trace: Vec::new(), stats: BTreeMap::new(), fired: 0, budget: 4, leave: 1, viol: None, slot: 0, left: 0 };
        let mut n = 1 + t.below(GEN, 3);
        if t.chance(GEN, 1, 30) {
            // many calls are left for good
            w.budget = 40;
            w.leave = 5;
            n += 30;
        }
        for _ in 0..n {
            w.slot = 0;
            self.exec(t, &mut w, 0, stack_top(0) - 8);
            if w.viol.is_some() {
                break;
            }
        }
        // whatever happened, later calls behave
        if w.viol.is_none() && w.fired > 0 {
            w.budget = 0;
            for ci in 0..w.pool.len() {
                w.slot = 0;
                w.left = ci + 1;
                self.exec(t, &mut w, 0, stack_top(0) - 8);
                if w.viol.is_some() {
                    break;
                }
            }
        }
        self.libs[self.li].img.set_open(true);
        r.violation = w.viol;
        r.nontrivial = w.fired > 0;
        for (k, v) in &w.stats {
            r.count(k, *v);
        }
        r.trace = w.trace;
        r.log_hash = w.log.get();
        r.sig = w.sig.get();
        r.steps = self.libs[self.li].steps;
        self.libs[self.li].steps = 0;
        r.summary = format!("{} interrupts, calls {:?}", w.fired, w.pool.iter().map(|c| self.libs[self.li].show(c)).collect::<Vec<_>>());
        r
    }

    /// One call, possibly interrupted by handlers that make calls. False: abandoned.
    fn exec(&mut self, t: &mut Tape, w: &mut World, depth: usize, sp: u64) -> bool {
        let ci = if w.left > 0 { w.left - 1 } else { t.below(GEN, w.pool.len() as u64) as usize };
        let call = w.pool[ci].clone();
        let f = self.libs[self.li].fns[call.f].clone();
        let slot = w.slot;
        w.slot += 1;
        let mut c = std::mem::replace(&mut self.ctxs[depth], Ctx::new());
        c.reset();
        prepare(&mut c, &f, &call, slot, sp);
        w.sig.u64(call.f as u64 + 0x100 * depth as u64);
        if w.verbose {
            w.trace.push(format!("{}call {}", "  ".repeat(depth), self.libs[self.li].show(&call)));
        }
        // when to interrupt: after k instructions, or around the j-th access to static data
        let mut by_access = false;
        let mut at: Option<u64> = None;
        let mut after = false;
        // or by handlers that make no calls, at a good part of the instructions
        let mut storm = 0;
        if w.budget > 0 && depth < 3 && t.chance(FAULT, if depth == 0 { 7 } else { 3 }, 8) {
            w.budget -= 1;
            by_access = self.libs[self.li].shared.contains(&call.f) && t.chance(FAULT, 1, 2);
            at = Some(if by_access { t.below(FAULT, 8) } else { t.below(FAULT, self.libs[self.li].len[call.f].max(4) as u64 + 1) });
            after = t.chance(FAULT, 1, 2);
            if t.chance(FAULT, 1, 15) {
                at = None;
                storm = 1 + t.below(FAULT, 8);
            }
        }
        let (mut steps, mut accesses) = (0u64, 0u64);
        let mut resumed = true;
        loop {
            // is this the point of the interrupt?
            if let (Some(k), false) = (at, by_access) {
                if steps == k {
                    at = None;
                    if !self.interrupt_at(t, w, depth, &mut c, &call) {
                        resumed = false;
                        break;
                    }
                }
            }
            if storm > 0 && steps < STORM && t.chance(FAULT, 1, storm) {
                w.fired += 1;
                w.sig.u64(c.rip);
                w.stat("fault: interrupt inside a call", 1);
                if w.verbose {
                    w.trace.push(format!("{}interrupt in {} at {}, stack below overwritten", "  ".repeat(depth), f.name, self.libs[self.li].img.name_of(c.rip)));
                }
                let end = c.r[RSP] - red_zone(&f);
                slice_mut(end - 1024, 1024).fill(0xa5);
            }
            if w.viol.is_some() {
                break;
            }
            let stepping = at.is_some() && !by_access || storm > 0 && steps < STORM;
            let mut ev = resume(&mut c, stepping);
            self.libs[self.li].steps += 1;
            if let Ev::Fault { addr, .. } = ev {
                if self.libs[self.li].img.in_data(addr) {
                    let hit = by_access && at == Some(accesses);
                    if hit && !after {
                        at = None;
                        if !self.interrupt_at(t, w, depth, &mut c, &call) {
                            resumed = false;
                            break;
                        }
                        if w.viol.is_some() {
                            break;
                        }
                    }
                    ev = self.libs[self.li].access(&mut c);
                    accesses += 1;
                    if hit && after && ev == Ev::Step {
                        at = None;
                        if !self.interrupt_at(t, w, depth, &mut c, &call) {
                            resumed = false;
                            break;
                        }
                    }
                }
            }
            match ev {
                Ev::Step => {
                    steps += 1;
                    w.log.u64(c.rip);
                    if accesses > MAX_SHARED as u64 {
                        w.viol = Some(("stuck".into(), format!("{} does not finish (interrupted calls: {})", self.libs[self.li].show(&call), w.fired)));
                        break;
                    }
                }
                Ev::Ret => {
                    let got = result(&c, &f, slot);
                    w.log.u64(got.val as u64);
                    w.log.u64(got.out as u64);
                    if w.verbose {
                        w.trace.push(format!("{}{} = {}", "  ".repeat(depth), f.name, show_res(&got, &f)));
                    }
                    w.stat("calls completed", 1);
                    if got != w.want[ci] {
                        w.viol = Some((
                            "result".into(),
                            format!("{} returned {} but {} when it is not interrupted and nothing else runs", self.libs[self.li].show(&call), show_res(&got, &f), show_res(&w.want[ci], &f)),
                        ));
                    }
                    break;
                }
                e => {
                    let (cl, m) = if e == Ev::Timeout { ("stuck", "does not finish".to_string()) } else { ("crash", format!("{e:?} at {}", self.libs[self.li].img.name_of(c.rip))) };
                    w.viol = Some((cl.into(), format!("{}: {m}", self.libs[self.li].show(&call))));
                    break;
                }
            }
        }
        self.ctxs[depth] = c;
        resumed
    }

    fn interrupt_at(&mut self, t: &mut Tape, w: &mut World, depth: usize, c: &mut Ctx, call: &Call) -> bool {
        w.fired += 1;
        w.sig.u64(c.rip);
        w.stat("fault: interrupt inside a call", 1);
        if depth > 0 {
            w.stat("fault: interrupt nested in a handler", 1);
        }
        if w.verbose {
            w.trace.push(format!("{}interrupt in {} at {}", "  ".repeat(depth), self.libs[self.li].fns[call.f].name, self.libs[self.li].img.name_of(c.rip)));
        }
        // the handler's frame and whatever it overwrites start below the protected area
        let end = c.r[RSP] - red_zone(&self.libs[self.li].fns[call.f]);
        slice_mut(end - 1024, 1024).fill(0xa5);
        let sp = end & !15;
        for _ in 0..t.below(GEN, 3) {
            if !self.exec(t, w, depth + 1, sp - 8) {
                return false;
            }
            if w.viol.is_some() {
                return true;
            }
            w.stat("event: call made by a handler", 1);
        }
        if t.chance(FAULT, w.leave, 2 + w.leave) {
            w.stat("fault: interrupted call abandoned", 1);
            w.sig.u64(7);
            if w.verbose {
                w.trace.push(format!("{}abandon everything", "  ".repeat(depth)));
            }
            return false;
        }
        true
    }
}

struct World {
    log: Hash,
    sig: Hash,
    pool: Vec<Call>,
    want: Vec<Res>,
    verbose: bool,
    trace: Vec<String>,
    stats: BTreeMap<String, u64>,
    fired: u64,
    budget: u32,
    leave: u64,
    viol: Option<(String, String)>,
    slot: u64,
    left: usize,
}
impl World {
    fn stat(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
}

impl Prop for HistProp {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        self.li = t.below(GEN, self.libs.len() as u64) as usize;
        match self.goal {
            Goal::Concurrent => {
                if t.chance(GEN, 1, 400) {
                    self.long_history(t, verbose)
                } else {
                    self.concurrent(t, verbose)
                }
            }
            Goal::Interrupt => self.interrupt(t, verbose),
        }
    }
    fn setup_stats(&self) -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        for l in &self.libs {
            m.insert(format!("setup: routines [{}]", l.name), l.fns.len() as u64);
            m.insert(format!("setup: routines that use writable static data [{}]", l.name), l.shared.len() as u64);
            m.insert(format!("setup: references to writable static data in code, reached [{}]", l.name), l.reached.0);
            m.insert(format!("setup: references to writable static data in code, not reached [{}]", l.name), l.reached.1);
            m.insert(format!("setup: bytes of writable static data (whole pages) [{}]", l.name), l.img.data.iter().map(|d| d.1 as u64).sum());
        }
        m
    }
}
