//! A multi-core machine running the code under test: loads the linked image, sets up calls
//! according to the procedure-call standard and checks it on return.
use super::a32::{Cpu32, Level};
use super::a64::Cpu64;
use super::mem::*;
use crate::elf::Elf;
use crate::tape::Tape;
use crate::util::Hash;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    V5te,
    V6kThumb,
    A64,
}

#[derive(Clone)]
pub enum Cpu {
    A(Cpu32),
    B(Cpu64),
}

pub const RET32: u32 = 0xfffe_0000;
pub const RET64: u64 = 0x7fff_fffe_0000;
pub const ARENA: u64 = 0x4000_0000;
pub const STACK0: u64 = 0x6000_0000;
pub const STACK_STRIDE: u64 = 0x10_0000;

/// State at the start of a call, for the check on return.
#[derive(Clone)]
struct Entry {
    cpu: Cpu,
    ret_thumb: bool,
    sp: u64,
}

pub struct Core {
    pub cpu: Cpu,
    entry: Vec<Entry>,
    pub steps: u64,
    pub stack: usize,
    /// Stack bytes at and above the entry stack pointer may only change through arguments.
    pub sp_top: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Run,
    Ret,
    Trap(Trap),
    /// Returned but broke the procedure-call standard.
    Abi(String),
}

pub struct Machine {
    pub kind: Kind,
    pub big: bool,
    pub mem: Mem,
    pub cores: Vec<Core>,
    pub syms: HashMap<String, u64>,
    names: Vec<(u64, String)>,
    pristine: Vec<(usize, Vec<u8>)>,
    pub arena: usize,
    pub kuser: bool,
    pub n_kuser: u64,
    pub steps: u64,
    stack_size: usize,
    /// Values for scratch registers on entry.
    pub poison: u64,
}

impl Machine {
    pub fn load(path: &str, kind: Kind, n: usize, arena_size: usize, stack_size: usize) -> Machine {
        let e = Elf::load(path);
        let mut mem = Mem::new(e.big, Tape::replay(&Default::default()));
        mem.strict_align = kind != Kind::A64;
        let mut pristine = Vec::new();
        let mut segs: Vec<_> = e.segs.iter().collect();
        segs.sort_by_key(|s| s.flags & 1 == 0);
        for s in segs {
            let (exec, write) = (s.flags & 1 != 0, s.flags & 2 != 0);
            let perm = PR | (write as u8) * PW;
            let i = mem.add(if exec { "code" } else if write { "static data" } else { "constants" }, s.addr, s.data.clone(), perm, exec, write);
            if write {
                pristine.push((i, s.data.clone()));
            }
        }
        let arena = mem.add("arena", ARENA, vec![0; arena_size], PR | PW, false, true);
        let mut cores = Vec::new();
        for t in 0..n {
            let base = STACK0 + t as u64 * STACK_STRIDE;
            let stack = mem.add(&format!("stack{t}"), base, vec![0; stack_size], PR | PW, false, false);
            let cpu = match kind {
                Kind::A64 => Cpu::B(Cpu64::new(t, true)),
                Kind::V5te => Cpu::A(Cpu32::new(Level::V5te, t)),
                Kind::V6kThumb => Cpu::A(Cpu32::new(Level::V6k, t)),
            };
            cores.push(Core { cpu, entry: Vec::new(), steps: 0, stack, sp_top: base + stack_size as u64 - 256 });
            mem.monitors.push(None);
        }
        let mut names: Vec<(u64, String)> = e.syms.iter().filter(|(_, s)| s.typ == 2).map(|(n, s)| (s.addr & if kind == Kind::A64 { !0 } else { !1 }, n.clone())).collect();
        names.sort();
        let syms = e.syms.iter().map(|(n, s)| (n.clone(), s.addr)).collect();
        Machine { kind, big: e.big, mem, cores, syms, names, pristine, arena, kuser: kind == Kind::V5te, n_kuser: 0, steps: 0, stack_size, poison: 0 }
    }
    /// Back to the state after loading, with a new tape.
    pub fn reset(&mut self, tape: Tape) {
        self.mem.tape = tape;
        self.mem.weak = None;
        self.mem.accs.clear();
        self.mem.log = Hash::new();
        self.mem.spurious = 0;
        self.mem.spurious_left = 0;
        self.mem.n_spurious = 0;
        self.mem.n_monitor_lost = 0;
        self.n_kuser = 0;
        self.steps = 0;
        for m in &mut self.mem.monitors {
            *m = None;
        }
        self.restore_static();
        let a = &mut self.mem.regions[self.arena];
        a.weak = false;
        a.bperm = None;
        a.data.fill(0);
        a.dirty = None;
        for c in &mut self.cores {
            c.entry.clear();
            c.steps = 0;
            let r = &mut self.mem.regions[c.stack];
            r.bperm = None;
            if let Some((l, h)) = r.dirty.take() {
                r.data[l..h].fill(0);
            }
        }
    }
    /// Static data back to its initial contents.
    pub fn restore_static(&mut self) {
        for (i, d) in &self.pristine {
            let r = &mut self.mem.regions[*i];
            if r.dirty.take().is_some() {
                r.data.copy_from_slice(d);
            }
        }
    }
    pub fn stack_top(&self, t: usize) -> u64 {
        self.cores[t].sp_top
    }
    pub fn stack_base(&self, t: usize) -> u64 {
        self.cores[t].sp_top + 256 - self.stack_size as u64
    }
    pub fn name_of(&self, pc: u64) -> String {
        let k = self.names.partition_point(|(a, _)| *a <= pc);
        if k == 0 {
            return format!("{pc:#x}");
        }
        let (a, n) = &self.names[k - 1];
        format!("{}+{:#x}", n, pc - a)
    }
    pub fn pc(&self, t: usize) -> u64 {
        match &self.cores[t].cpu {
            Cpu::A(c) => c.r[15] as u64,
            Cpu::B(c) => c.pc,
        }
    }
    pub fn sp(&self, t: usize) -> u64 {
        match &self.cores[t].cpu {
            Cpu::A(c) => c.r[13] as u64,
            Cpu::B(c) => c.sp,
        }
    }
    pub fn ret32(&self, t: usize) -> u32 {
        match &self.cores[t].cpu {
            Cpu::A(c) => c.r[0],
            Cpu::B(c) => c.x[0] as u32,
        }
    }
    pub fn regs4(&self, t: usize) -> [u64; 4] {
        match &self.cores[t].cpu {
            Cpu::A(c) => [c.r[0] as u64, c.r[1] as u64, c.r[2] as u64, c.r[3] as u64],
            Cpu::B(c) => [c.x[0], c.x[1], c.x[2], c.x[3]],
        }
    }
    fn junk(&mut self) -> u64 {
        // deterministic junk; independent of the tape so that it never costs choices
        self.poison = self.poison.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.poison;
        x ^ x >> 29
    }
    /// Begin a call on core `t`.  With `sp` None the call starts at the top of the stack,
    /// otherwise (interrupt handlers) at the given stack pointer.
    pub fn call(&mut self, t: usize, f: u64, args: &[u64], sp: Option<u64>, ret_thumb: bool) {
        let top = sp.unwrap_or(self.cores[t].sp_top) & !15;
        match self.kind {
            Kind::A64 => {
                let mut junk = [0u64; 64];
                for j in &mut junk {
                    *j = self.junk();
                }
                let Cpu::B(c) = &mut self.cores[t].cpu else { unreachable!() };
                for k in 0..31 {
                    c.x[k] = junk[k];
                }
                for k in 0..32 {
                    c.v[k] = (junk[k] as u128) << 64 | junk[k + 32] as u128;
                }
                for (k, a) in args.iter().enumerate() {
                    assert!(k < 8);
                    c.x[k] = *a;
                }
                c.x[30] = RET64;
                c.sp = top;
                c.pc = f;
                let j = junk[63];
                c.n = j & 1 == 1;
                c.z = j & 2 != 0;
                c.c = j & 4 != 0;
                c.vf = j & 8 != 0;
                c.half = None;
            }
            _ => {
                let mut junk = [0u64; 16];
                for j in &mut junk {
                    *j = self.junk();
                }
                let extra = args.len().saturating_sub(4);
                let sp = top - ((extra as u64 * 4 + 7) & !7);
                for (k, a) in args.iter().skip(4).enumerate() {
                    self.mem.poke(sp + 4 * k as u64, 4, *a as u32 as u128);
                }
                let Cpu::A(c) = &mut self.cores[t].cpu else { unreachable!() };
                for k in 0..13 {
                    c.r[k] = junk[k] as u32;
                }
                for (k, a) in args.iter().take(4).enumerate() {
                    c.r[k] = *a as u32;
                }
                c.r[13] = sp as u32;
                c.r[14] = RET32 | ret_thumb as u32;
                c.thumb = f & 1 == 1;
                c.r[15] = f as u32 & !1;
                let j = junk[15];
                c.n = j & 1 == 1;
                c.z = j & 2 != 0;
                c.c = j & 4 != 0;
                c.v = j & 8 != 0;
            }
        }
        let cpu = self.cores[t].cpu.clone();
        let sp = self.sp(t);
        self.cores[t].entry.push(Entry { cpu, ret_thumb, sp });
    }
    pub fn entry_sp(&self, t: usize) -> u64 {
        self.cores[t].entry.last().map(|e| e.sp).unwrap_or(0)
    }
    /// Drop the innermost call record (abandoned call).
    pub fn abandon(&mut self, t: usize) {
        self.cores[t].entry.pop();
    }
    fn abi_check(&mut self, t: usize) -> Result<(), String> {
        let e = self.cores[t].entry.pop().expect("entry");
        match (&self.cores[t].cpu, &e.cpu) {
            (Cpu::A(c), Cpu::A(o)) => {
                for k in 4..=11 {
                    if c.r[k] != o.r[k] {
                        return Err(format!("callee-saved r{k} changed from {:#x} to {:#x}", o.r[k], c.r[k]));
                    }
                }
                if c.r[13] != o.r[13] {
                    return Err(format!("stack pointer changed from {:#x} to {:#x}", o.r[13], c.r[13]));
                }
                if c.thumb != e.ret_thumb {
                    return Err(format!("returned in {} state to a {} caller", if c.thumb { "Thumb" } else { "ARM" }, if e.ret_thumb { "Thumb" } else { "ARM" }));
                }
            }
            (Cpu::B(c), Cpu::B(o)) => {
                for k in 19..=29 {
                    if c.x[k] != o.x[k] {
                        return Err(format!("callee-saved x{k} changed from {:#x} to {:#x}", o.x[k], c.x[k]));
                    }
                }
                if c.sp != o.sp {
                    return Err(format!("stack pointer changed from {:#x} to {:#x}", o.sp, c.sp));
                }
                for k in 8..16 {
                    if c.v[k] as u64 != o.v[k] as u64 {
                        return Err(format!("callee-saved d{k} changed"));
                    }
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    /// One instruction (or kernel helper) of core `t`.
    pub fn step(&mut self, t: usize) -> Out {
        self.steps += 1;
        self.cores[t].steps += 1;
        self.mem.accs.clear();
        let core = &mut self.cores[t];
        let r = match &mut core.cpu {
            Cpu::A(c) => {
                let pc = c.r[15];
                if pc == RET32 {
                    // cannot happen: caught after the previous step
                    return Out::Ret;
                }
                if self.kuser && pc >= 0xffff_0f00 && !c.thumb {
                    self.n_kuser += 1;
                    let r = match pc {
                        0xffff_0fc0 => {
                            let (o, n, p) = (c.r[0], c.r[1], c.r[2]);
                            match self.mem.kuser_cmpxchg(t, o, n, p as u64) {
                                Ok(ok) => {
                                    c.r[0] = if ok { 0 } else { 0xffff_fff5 };
                                    c.c = ok;
                                    // the helper clobbers r3, ip and flags
                                    c.r[3] = 0xdead_0003;
                                    c.r[12] = 0xdead_000c;
                                    c.n = !ok;
                                    c.z = ok;
                                    c.v = false;
                                    Ok(())
                                }
                                Err(e) => Err(e),
                            }
                        }
                        0xffff_0fa0 => {
                            self.mem.barrier(t, Barrier::Full);
                            Ok(())
                        }
                        0xffff_0fe0 => {
                            c.r[0] = 0x5500_0000 + t as u32 * 0x1000;
                            Ok(())
                        }
                        _ => Err(Trap::Fetch(pc as u64)),
                    };
                    match r {
                        Ok(()) => {
                            let lr = c.r[14];
                            c.bx(lr)
                        }
                        Err(e) => Err(e),
                    }
                } else {
                    c.step(&mut self.mem)
                }
            }
            Cpu::B(c) => c.step(&mut self.mem),
        };
        if let Err(e) = r {
            return Out::Trap(e);
        }
        let done = match &self.cores[t].cpu {
            Cpu::A(c) => c.r[15] == RET32,
            Cpu::B(c) => c.pc == RET64,
        };
        if done {
            return match self.abi_check(t) {
                Ok(()) => Out::Ret,
                Err(e) => Out::Abi(e),
            };
        }
        Out::Run
    }
    /// Run a call alone to completion (oracle runs).
    pub fn run_solo(&mut self, t: usize, cap: u64) -> Out {
        for _ in 0..cap {
            match self.step(t) {
                Out::Run => {}
                o => return o,
            }
        }
        Out::Run
    }
}

pub fn trap_text(m: &Machine, t: &Trap) -> String {
    match t {
        Trap::Access { addr, size, write, why } => format!("{} of {size} byte(s) at {addr:#x}: {why}", if *write { "store" } else { "load" }),
        Trap::Align { addr, size } => format!("misaligned {size}-byte access at {addr:#x}"),
        Trap::Fetch(a) => format!("jump to non-code address {a:#x}"),
        Trap::Undef(pc, i, w) => format!("instruction {i:#x} at {} is not available on this core: {w}", m.name_of(*pc)),
        Trap::Unimpl(pc, i) => format!("simulator does not know instruction {i:#x} at {}", m.name_of(*pc)),
        Trap::Software(pc, i) => format!("trap instruction {i:#x} at {} executed (panic/abort)", m.name_of(*pc)),
    }
}
