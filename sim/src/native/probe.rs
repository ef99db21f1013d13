//! C07: stack probes on a stack whose pages appear one at a time.
use super::engine::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN};
use crate::util::{splitmix, Hash};

const LOW: u64 = 0xe800_0000;
const PAGES: u64 = 256;
const PG: u64 = 4096;
const HIGH: u64 = LOW + PAGES * PG;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// the caller moves the stack pointer
    Keep,
    /// the probe moves the stack pointer
    Adjust,
}

struct Probe {
    img: usize,
    name: String,
    addr: u64,
    kind: Kind,
    bits: u32,
    /// registers the contract lets it change
    clobber: Vec<usize>,
    red_zone: u64,
}

pub struct ProbeProp {
    imgs: Vec<(String, Image)>,
    probes: Vec<Probe>,
    c: Box<Ctx>,
}

impl ProbeProp {
    pub fn new(list: &[(&str, String)]) -> Self {
        super::lib64::map_world();
        map_fixed(LOW, (PAGES * PG) as usize, P_RW);
        let mut imgs = Vec::new();
        let mut probes = Vec::new();
        for (n, p) in list {
            let img = Image::load(p);
            let b32 = n.contains("86"); // i586, x86u
            let uefi = n.ends_with('u');
            let mut names: Vec<&String> = img.syms.keys().collect();
            names.sort();
            for s in names {
                let short = match s.as_str() {
                    x if x.ends_with("__rust_probestack") => "__rust_probestack",
                    "___chkstk_ms" => "___chkstk_ms",
                    "__chkstk" => "__chkstk",
                    "_alloca" => "_alloca",
                    _ => continue,
                };
                // 32-bit probes on Windows-like systems move the stack pointer themselves
                let kind = if b32 && uefi { Kind::Adjust } else { Kind::Keep };
                let clobber = if b32 { vec![] } else { vec![11] };
                let red_zone = if b32 || uefi { 0 } else { 128 };
                probes.push(Probe { img: imgs.len(), name: short.into(), addr: img.syms[s], kind, bits: if b32 { 32 } else { 64 }, clobber, red_zone });
            }
            imgs.push((n.to_string(), img));
        }
        ProbeProp { imgs, probes, c: Ctx::new() }
    }
}

fn size(t: &mut Tape, w: u64) -> u64 {
    let n = match t.weighted(GEN, &[3, 3, 5, 3, 1]) {
        0 => t.below(GEN, 8) * w,
        1 => t.below(GEN, PG / w + 1) * w,
        2 => (t.below(GEN, 6) * PG + t.below(GEN, 9) * w).saturating_sub(4 * w),
        3 => t.below(GEN, 5 * PG / w) * w,
        _ => t.below(GEN, 200 * PG / w) * w,
    };
    // not every frame is a multiple of the word
    if t.chance(GEN, 1, 8) {
        n + 1 + t.below(GEN, w - 1)
    } else {
        n
    }
}

impl Prop for ProbeProp {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut r = RunResult::default();
        if self.probes.is_empty() {
            r.violation = Some(("missing".into(), "no stack probe in any image".into()));
            return r;
        }
        let p = &self.probes[t.below(GEN, self.probes.len() as u64) as usize];
        let (iname, img) = (&self.imgs[p.img].0, &self.imgs[p.img].1);
        let w = p.bits as u64 / 8;
        // a frame larger than the stack must meet the guard page
        let big = t.chance(GEN, 1, 12);
        let sz = if big {
            let top = if p.bits == 32 { [28u32, 30, 31][t.below(GEN, 3) as usize] } else { [28u32, 31, 32, 40, 46, 63][t.below(GEN, 6) as usize] };
            (1u64 << top) + t.below(GEN, 3) * PG + t.below(GEN, 8) * w
        } else {
            size(t, w)
        };
        // stack pointer in front of the call instruction
        let s = HIGH - 2 * PG + match t.below(GEN, 3) {
            0 => t.below(GEN, PG / w) * w,
            1 => t.below(GEN, 6) * w,
            _ => PG - t.below(GEN, 6) * w,
        };
        protect(LOW, (PAGES * PG) as usize, P_RW);
        let mut seed = t.bits(GEN, 32) << 1 | 1;
        let junk = splitmix(&mut seed) as u8;
        slice_mut(LOW, (PAGES * PG) as usize)[((s - 0x4000 - LOW) as usize).min(((s - LOW) as usize).saturating_sub(sz.min(0x40000) as usize + 0x3000))..].fill(junk);
        let c = &mut self.c;
        c.reset();
        let zero = t.chance(GEN, 1, 4);
        for i in 0..16 {
            c.r[i] = if zero { 0 } else { splitmix(&mut seed) };
            let v = splitmix(&mut seed) as u128 | (splitmix(&mut seed) as u128) << 64;
            c.set_xmm(i, v);
        }
        if p.bits == 32 {
            c.cs = CS32;
            for x in c.r.iter_mut() {
                *x &= 0xffff_ffff;
            }
            for i in 8..16 {
                c.r[i] = 0;
            }
        }
        c.flags = 0x202 | (splitmix(&mut seed) & STATUS);
        c.r[RAX] = sz;
        c.r[RSP] = s - w;
        if p.bits == 64 {
            put64(s - 8, SENTINEL)
        } else {
            put32(s - 4, SENTINEL as u32)
        }
        c.rip = p.addr;
        let before = c.clone();
        let above = slice(s, (HIGH - s) as usize).to_vec();
        // pages below the one the call instruction used are not there yet
        let mut lowest = (s - w) / PG;
        protect(LOW, ((lowest - LOW / PG) * PG) as usize, P_NONE);
        let frame_low = s.saturating_sub(sz);
        let bottom = if sz == 0 { lowest } else { (frame_low / PG).min(lowest) };
        // a guard page inside the frame?
        let guard = if big {
            Some(lowest - 1 - t.below(FAULT, 20))
        } else if bottom < lowest && t.chance(FAULT, 1, 2) { Some(bottom + t.below(FAULT, lowest - bottom)) } else { None };
        let den = [0u64, 4, 16, 64][t.weighted(FAULT, &[1, 2, 3, 2])];
        let show = format!("{} ({iname}, frame of {sz} bytes, stack pointer {s:#x}{})", p.name, match guard { Some(g) => format!(", guard page {:#x}", g * PG), None => String::new() });
        if verbose {
            r.trace.push(show.clone());
        }
        let (mut steps, mut faults, mut irqs) = (0u64, 0u64, 0u64);
        let (mut log, mut sig) = (Hash::new(), Hash::new());
        sig.u64(p.addr ^ sz << 32);
        sig.u64(s & 4095 | guard.unwrap_or(0) << 16);
        let mut viol: Option<(String, String)> = None;
        let mut hit = false;
        loop {
            if den > 0 && t.chance(FAULT, 1, den) {
                // The handler destroys what is below the stack pointer, as far as pages exist.
                let hi = c.r[RSP].wrapping_sub(p.red_zone);
                let lo = hi.saturating_sub(0x2000).max(lowest * PG);
                if hi <= HIGH && hi > lo {
                    slice_mut(lo, (hi - lo) as usize).fill(0xb7);
                    irqs += 1;
                    sig.u64(steps << 20 | 1);
                    if verbose {
                        r.trace.push(format!("  interrupt at {} (step {steps}): {} bytes below {hi:#x} overwritten", img.name_of(c.rip), hi - lo));
                    }
                }
            }
            let ev = resume(c, true);
            steps += 1;
            log.u64(c.rip);
            match ev {
                Ev::Step => {}
                Ev::Ret => break,
                Ev::Fault { addr, .. } if addr >= LOW && addr < lowest * PG => {
                    let pg = addr / PG;
                    log.u64(addr);
                    if pg != lowest - 1 {
                        viol = Some(("skip".into(), format!("{show} touches {addr:#x} before the page {:#x} above it", (lowest - 1) * PG)));
                        break;
                    }
                    if guard == Some(pg) {
                        hit = true;
                        break;
                    }
                    if addr + PG < frame_low {
                        viol = Some(("overshoot".into(), format!("{show} touches {addr:#x}, more than a page below the frame")));
                        break;
                    }
                    protect(pg * PG, PG as usize, P_RW);
                    lowest = pg;
                    faults += 1;
                    if verbose {
                        r.trace.push(format!("  page {:#x} touched at {} by {}", pg * PG, format!("{addr:#x}"), img.name_of(c.rip)));
                    }
                }
                e => {
                    viol = Some(("crash".into(), format!("{show}: {e:x?} at {}", img.name_of(c.rip))));
                    break;
                }
            }
            if steps > 50_000 {
                viol = Some(("stuck".into(), format!("{show} does not return")));
                break;
            }
        }
        if viol.is_none() && !hit {
            let mut fail = |k: &str, m: String| {
                if viol.is_none() {
                    viol = Some((k.into(), format!("{show} {m}")));
                }
            };
            if lowest > bottom {
                fail("missed", format!("returned without touching the page {:#x} of the frame", (lowest - 1) * PG));
            }
            let want = if p.kind == Kind::Adjust { s.wrapping_sub(sz) } else { s };
            if c.r[RSP] != want {
                fail("stack pointer", format!("returned with stack pointer {:#x}, expected {want:#x}", c.r[RSP]));
            }
            for i in 0..if p.bits == 64 { 16 } else { 8 } {
                if i != RSP && !p.clobber.contains(&i) && c.r[i] != before.r[i] {
                    fail("register", format!("changed {} from {:#x} to {:#x}", if p.bits == 64 { REG_NAMES[i].to_string() } else { REG_NAMES[i].replace('r', "e") }, before.r[i], c.r[i]));
                }
            }
            for i in 0..if p.bits == 64 { 16 } else { 8 } {
                if c.xmm(i) != before.xmm(i) {
                    fail("register", format!("changed xmm{i}"));
                }
            }
            if c.flags & DF != 0 {
                fail("flags", "returned with the direction flag set".into());
            }
            if slice(s, above.len()) != &above[..] {
                fail("caller stack", "wrote to the caller's stack".into());
            }
            if c.mxcsr() != before.mxcsr() || c.fcw() != before.fcw() || c.ftw() != before.ftw() {
                fail("floating point", "changed the floating-point state".into());
            }
        }
        protect(LOW, (PAGES * PG) as usize, P_RW);
        r.violation = viol;
        r.count("fault: guard page inside the frame", guard.is_some() as u64);
        r.count("runs with a frame larger than the stack", big as u64);
        r.count("event: guard page hit", hit as u64);
        r.count("fault: stack page not present", faults);
        r.count("fault: interrupt that overwrites the stack below the stack pointer", irqs);
        r.count(&format!("calls of {} [{iname}]", p.name), 1);
        r.nontrivial = faults + irqs > 0 || hit;
        r.steps = steps;
        r.log_hash = log.get();
        r.sig = sig.get();
        r.summary = format!("{show}: {faults} pages touched, {irqs} interrupts");
        r
    }
}
