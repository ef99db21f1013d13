//! C07: the AArch64 stack probe on a stack whose pages appear one at a time.
use super::machine::*;
use super::mem::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN};
use crate::util::{splitmix, Hash};

const PG: u64 = 4096;
const PAGES: u64 = 64;

pub struct ProbeProp64 {
    name: String,
    m: Machine,
    probes: Vec<(String, u64)>,
}

impl ProbeProp64 {
    pub fn new(img: (String, String, Kind)) -> Self {
        let m = Machine::load(&img.1, img.2, 1, 64, (PAGES * PG) as usize);
        let mut probes: Vec<(String, u64)> = m.syms.iter().filter(|(n, _)| n.ends_with("__chkstk") || n.ends_with("probestack")).map(|(n, a)| (n.clone(), *a)).collect();
        probes.sort();
        ProbeProp64 { name: img.0, m, probes }
    }
}

fn units(t: &mut Tape) -> u64 {
    let page = PG / 16;
    match t.weighted(GEN, &[3, 3, 5, 3, 1]) {
        0 => t.below(GEN, 8),
        1 => t.below(GEN, page + 1),
        2 => (t.below(GEN, 6) * page + t.below(GEN, 9)).saturating_sub(4),
        3 => t.below(GEN, 5 * page),
        _ => t.below(GEN, 56 * page),
    }
}

impl Prop for ProbeProp64 {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut r = RunResult::default();
        if self.probes.is_empty() {
            r.violation = Some(("missing".into(), "no stack probe in the image".into()));
            return r;
        }
        let (pname, addr) = self.probes[t.below(GEN, self.probes.len() as u64) as usize].clone();
        let m = &mut self.m;
        m.reset(Tape::replay(&Default::default()));
        // a frame larger than the stack must meet the guard page
        let big = t.chance(GEN, 1, 12);
        let x15 = if big { (1u64 << [24u32, 27, 28, 36, 42][t.below(GEN, 5) as usize]) + t.below(GEN, 3) * (PG / 16) + t.below(GEN, 8) } else { units(t) };
        let sz = x15 * 16;
        let (low, high) = (STACK0, STACK0 + PAGES * PG);
        let s = high - 3 * PG + 16 * match t.below(GEN, 3) {
            0 => t.below(GEN, PG / 16),
            1 => t.below(GEN, 6),
            _ => PG / 16 - t.below(GEN, 6),
        };
        let mut seed = t.bits(GEN, 32) << 1 | 1;
        let zero = t.chance(GEN, 1, 4);
        m.poison = splitmix(&mut seed);
        m.call(0, addr, &[], Some(s), false);
        let junk = splitmix(&mut seed) as u8;
        let ri = m.cores[0].stack;
        m.mem.regions[ri].data.fill(junk);
        m.mem.regions[ri].dirty = Some((0, (PAGES * PG) as usize));
        let Cpu::B(c) = &mut m.cores[0].cpu else { unreachable!() };
        if zero {
            for k in 0..19 {
                c.x[k] = 0;
            }
        }
        c.x[15] = x15;
        let before = c.clone();
        let above = m.mem.regions[ri].data[(s - low) as usize..].to_vec();
        // pages below the one that holds the caller's frame are not there yet
        let mut lowest = s / PG;
        let mut perm = vec![0u8; (PAGES * PG) as usize];
        perm[((lowest * PG - low) as usize)..].fill(PR | PW);
        m.mem.regions[ri].bperm = Some(perm);
        let frame_low = s.saturating_sub(sz);
        let bottom = if sz == 0 { lowest } else { (frame_low / PG).min(lowest) };
        let guard = if big {
            Some(lowest - 1 - t.below(FAULT, 20))
        } else if bottom < lowest && t.chance(FAULT, 1, 2) { Some(bottom + t.below(FAULT, lowest - bottom)) } else { None };
        let den = [0u64, 4, 16, 64][t.weighted(FAULT, &[1, 2, 3, 2])];
        let show = format!("{pname} ({}, frame of {sz} bytes, stack pointer {s:#x}{})", self.name, match guard { Some(g) => format!(", guard page {:#x}", g * PG), None => String::new() });
        if verbose {
            r.trace.push(show.clone());
        }
        let (mut steps, mut faults, mut irqs) = (0u64, 0u64, 0u64);
        let (mut log, mut sig) = (Hash::new(), Hash::new());
        sig.u64(addr ^ sz << 32);
        sig.u64(s & 4095 | guard.unwrap_or(0) << 16);
        let mut viol: Option<(String, String)> = None;
        let mut hit = false;
        loop {
            if den > 0 && t.chance(FAULT, 1, den) {
                let hi = m.sp(0);
                let lo = hi.saturating_sub(0x2000).max(lowest * PG);
                if hi <= high && hi > lo {
                    m.mem.regions[ri].data[(lo - low) as usize..(hi - low) as usize].fill(0xb7);
                    irqs += 1;
                    sig.u64(steps << 20 | 1);
                    if verbose {
                        r.trace.push(format!("  interrupt at {} (step {steps}): {} bytes below {hi:#x} overwritten", m.name_of(m.pc(0)), hi - lo));
                    }
                }
            }
            let saved = m.cores[0].cpu.clone();
            let at = m.pc(0);
            let o = m.step(0);
            steps += 1;
            log.u64(m.pc(0));
            match o {
                Out::Run => {}
                Out::Ret => break,
                Out::Trap(Trap::Access { addr, .. }) if addr >= low && addr < lowest * PG => {
                    m.cores[0].cpu = saved;
                    let pg = addr / PG;
                    log.u64(addr);
                    if pg != lowest - 1 {
                        viol = Some(("skip".into(), format!("{show} touches {addr:#x} before the page {:#x} above it", (lowest - 1) * PG)));
                        break;
                    }
                    if guard == Some(pg) {
                        hit = true;
                        break;
                    }
                    if addr + PG < frame_low {
                        viol = Some(("overshoot".into(), format!("{show} touches {addr:#x}, more than a page below the frame")));
                        break;
                    }
                    let o = (pg * PG - low) as usize;
                    m.mem.regions[ri].bperm.as_mut().unwrap()[o..o + PG as usize].fill(PR | PW);
                    lowest = pg;
                    faults += 1;
                    if verbose {
                        r.trace.push(format!("  page {:#x} touched at {addr:#x} by {}", pg * PG, m.name_of(at)));
                    }
                }
                Out::Trap(e @ Trap::Unimpl(..)) => {
                    r.error = Some(format!("{show}: {}", trap_text(m, &e)));
                    return r;
                }
                Out::Trap(e) => {
                    viol = Some(("crash".into(), format!("{show}: {}", trap_text(m, &e))));
                    break;
                }
                Out::Abi(e) => {
                    viol = Some(("register".into(), format!("{show}: {e}")));
                    break;
                }
            }
            if steps > 50_000 {
                viol = Some(("stuck".into(), format!("{show} does not return")));
                break;
            }
        }
        if viol.is_none() && !hit {
            let mut fail = |k: &str, m: String| {
                if viol.is_none() {
                    viol = Some((k.into(), format!("{show} {m}")));
                }
            };
            if lowest > bottom {
                fail("missed", format!("returned without touching the page {:#x} of the frame", (lowest - 1) * PG));
            }
            let Cpu::B(c) = &m.cores[0].cpu else { unreachable!() };
            if c.sp != before.sp {
                fail("stack pointer", format!("returned with stack pointer {:#x}, expected {:#x}", c.sp, before.sp));
            }
            for i in (0..16).chain(18..31) {
                if c.x[i] != before.x[i] {
                    fail("register", format!("changed x{i} from {:#x} to {:#x}", before.x[i], c.x[i]));
                }
            }
            for i in 0..32 {
                if c.v[i] != before.v[i] {
                    fail("register", format!("changed v{i}"));
                }
            }
            if m.mem.regions[ri].data[(s - low) as usize..] != above[..] {
                fail("caller stack", "wrote to the caller's stack".into());
            }
        }
        m.abandon(0);
        r.violation = viol;
        r.count("fault: guard page inside the frame", guard.is_some() as u64);
        r.count("runs with a frame larger than the stack", big as u64);
        r.count("event: guard page hit", hit as u64);
        r.count("fault: stack page not present", faults);
        r.count("fault: interrupt that overwrites the stack below the stack pointer", irqs);
        r.count(&format!("calls of {pname} [{}]", self.name), 1);
        r.nontrivial = faults + irqs > 0 || hit;
        r.steps = steps;
        r.log_hash = log.get();
        r.sig = sig.get();
        r.summary = format!("{show}: {faults} pages touched, {irqs} interrupts");
        r
    }
}
