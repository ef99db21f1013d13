//! C03: run-time CPU selection on simulated processors.
use super::calls::*;
use super::decode::*;
use super::engine::*;
use super::lib64::*;
use crate::driver::{Prop, RunResult};
use crate::tape::{Tape, FAULT, GEN, SCHED};
use crate::util::Hash;

/// What the identification instructions of the simulated machine answer.
#[derive(Clone, Default, Debug)]
pub struct Cpu {
    vendor: [u8; 12],
    max: u32,
    l1c: u32,
    l1d: u32,
    l7b: u32,
    l7c: u32,
    l7d: u32,
    l71a: u32,
    xmax: u32,
    x1c: u32,
    x1d: u32,
    xcr0: u64,
}

const VENDORS: [&[u8; 12]; 6] = [b"GenuineIntel", b"AuthenticAMD", b"HygonGenuine", b"CentaurHauls", b"  Shanghai  ", b"QEMUVirtual "];

fn bit(v: u32, b: u32) -> bool {
    v >> b & 1 != 0
}

impl Cpu {
    fn draw(t: &mut Tape) -> Cpu {
        let mut c = Cpu { vendor: *VENDORS[t.weighted(GEN, &[4, 5, 3, 1, 1, 1])], ..Default::default() };
        c.max = [1u32, 7, 4, 0xd, 0x1f][t.weighted(GEN, &[2, 4, 1, 3, 2])];
        c.xmax = 0x8000_0000 + [1u32, 8, 0x1e][t.below(GEN, 3) as usize];
        // bits of interest are drawn one by one, the others at random
        c.l1c = t.bits(GEN, 32) as u32 & !(1 << 26 | 1 << 27 | 1 << 12 | 1 << 28 | 1 << 29);
        c.l1d = t.bits(GEN, 32) as u32 | 1 << 25 | 1 << 26 | 1;
        c.l7b = t.bits(GEN, 32) as u32;
        c.l7c = t.bits(GEN, 32) as u32;
        c.l7d = t.bits(GEN, 32) as u32;
        c.l71a = t.bits(GEN, 32) as u32;
        c.x1c = t.bits(GEN, 32) as u32 & !(1 << 16);
        c.x1d = t.bits(GEN, 32) as u32 | 1 << 29;
        let xsave = t.chance(GEN, 4, 5);
        let osxsave = xsave && t.chance(GEN, 3, 4);
        c.l1c |= (xsave as u32) << 26 | (osxsave as u32) << 27;
        c.l1c |= (t.chance(GEN, 1, 2) as u32) << 12;
        c.l1c |= (t.chance(GEN, 2, 3) as u32) << 28;
        c.l1c |= (t.chance(GEN, 1, 2) as u32) << 29;
        c.x1c |= (t.chance(GEN, 1, 2) as u32) << 16;
        if osxsave {
            c.xcr0 = [7u64, 3, 1, 0xe7, 5, 0x2e7, 0x1b, 0xe3][t.weighted(GEN, &[5, 5, 2, 3, 1, 2, 1, 1])];
        }
        c
    }
    fn cpuid(&self, leaf: u32, sub: u32) -> [u32; 4] {
        let w = |i: usize| u32::from_le_bytes(self.vendor[4 * i..4 * i + 4].try_into().unwrap());
        let amd = self.amd();
        match leaf {
            0 => [self.max, w(0), w(2), w(1)],
            0x8000_0000 if amd => [self.xmax, w(0), w(2), w(1)],
            0x8000_0000 => [self.xmax, 0, 0, 0],
            _ if leaf < 0x8000_0000 && leaf <= self.max => self.basic(leaf, sub),
            0x8000_0001..=0x8fff_ffff if leaf <= self.xmax => match leaf {
                0x8000_0001 => [0x00a0_0f11, 0, self.x1c, self.x1d],
                _ => [0; 4],
            },
            // beyond the last leaf: zeros on AMD, the last basic leaf on Intel
            _ if amd => [0; 4],
            _ => self.basic(self.max, sub),
        }
    }
    fn basic(&self, leaf: u32, sub: u32) -> [u32; 4] {
        match leaf {
            1 => [0x0080_0f12, 0x0010_0800, self.l1c, self.l1d],
            7 if sub == 0 => [1, self.l7b, self.l7c, self.l7d],
            7 if sub == 1 => [self.l71a, 0, 0, 0],
            0xd if sub == 0 => [self.xcr0 as u32, 0x340, 0x340, 0],
            0xd if sub == 1 => [0xf, 0, 0, 0],
            _ => [0; 4],
        }
    }
    fn amd(&self) -> bool {
        &self.vendor == VENDORS[1] || &self.vendor == VENDORS[2]
    }
    fn os_avx(&self) -> bool {
        bit(self.l1c, 27) && self.xcr0 & 6 == 6
    }
    fn has(&self, n: Need) -> bool {
        let l7 = self.max >= 7;
        match n {
            Need::Base | Need::Cpuid => true,
            Need::Sse3 => bit(self.l1c, 0),
            Need::Ssse3 => bit(self.l1c, 9),
            Need::Sse41 => bit(self.l1c, 19),
            Need::Sse42 => bit(self.l1c, 20),
            Need::Sse4a => bit(self.x1c, 6),
            Need::Popcnt => bit(self.l1c, 23),
            Need::Movbe => bit(self.l1c, 22),
            Need::Lzcnt => bit(self.x1c, 5),
            Need::Bmi1 => l7 && bit(self.l7b, 3),
            Need::Bmi2 => l7 && bit(self.l7b, 8),
            Need::Adx => l7 && bit(self.l7b, 19),
            Need::Aes => bit(self.l1c, 25),
            Need::Clmul => bit(self.l1c, 1),
            Need::Sha => l7 && bit(self.l7b, 29),
            Need::Cx16 => bit(self.l1c, 13),
            Need::Rdrand => bit(self.l1c, 30),
            Need::Rdseed => l7 && bit(self.l7b, 18),
            Need::Avx => self.os_avx() && bit(self.l1c, 28),
            Need::Avx2 => self.os_avx() && l7 && bit(self.l7b, 5),
            Need::F16c => self.os_avx() && bit(self.l1c, 29),
            Need::Fma => self.os_avx() && bit(self.l1c, 12),
            // the bit is reserved on other makes
            Need::Fma4 => self.os_avx() && bit(self.x1c, 16) && self.amd(),
            Need::Xop => self.os_avx() && bit(self.x1c, 11),
            Need::Avx512 => self.os_avx() && self.xcr0 & 0xe0 == 0xe0 && l7 && bit(self.l7b, 16),
            Need::Xsave | Need::Xgetbv => bit(self.l1c, 27),
        }
    }
    fn show(&self) -> String {
        format!(
            "{} leaves {:#x}/{:#x} OSXSAVE={} XCR0={:#x} AVX={} FMA={} FMA4={}",
            String::from_utf8_lossy(&self.vendor),
            self.max,
            self.xmax,
            bit(self.l1c, 27) as u32,
            self.xcr0,
            bit(self.l1c, 28) as u32,
            bit(self.l1c, 12) as u32,
            bit(self.x1c, 16) as u32
        )
    }
}

struct Frame {
    ctx: Box<Ctx>,
    call: Call,
    slot: u64,
    steps: u64,
}

pub struct CpuProp {
    libs: Vec<Lib>,
    spare: Vec<Box<Ctx>>,
}

/// Correctly rounded fused multiply-add, from the host's C library.
fn fma_ref(f: &Func, a: &[u128; 3]) -> Option<u128> {
    match f.name.as_str() {
        "fma" | "m_fma" => Some(f64::from_bits(a[0] as u64).mul_add(f64::from_bits(a[1] as u64), f64::from_bits(a[2] as u64)).to_bits() as u128),
        "fmaf" | "m_fmaf" => Some(f32::from_bits(a[0] as u32).mul_add(f32::from_bits(a[1] as u32), f32::from_bits(a[2] as u32)).to_bits() as u128),
        _ => None,
    }
}
/// The number an 80-bit register holds, if it is one of the type `k`.
fn from80(k: u8, v: u128) -> Option<u128> {
    let (e, m) = ((v >> 64) as i32 & 0x7fff, v as u64);
    let neg = v >> 79 & 1 != 0;
    let mag = if e == 0x7fff && m << 1 != 0 {
        f64::NAN
    } else if e == 0x7fff {
        f64::INFINITY
    } else {
        // exact or not of this type: 53 bits are compared below
        let hi = (m >> 32) as f64 * 2f64.powi(32) + (m & 0xffff_ffff) as f64;
        if m != 0 && m.trailing_zeros() < 11 {
            return None;
        }
        let x = e - 16383 - 63;
        // in two steps, the powers of two being in range
        hi * 2f64.powi(x.clamp(-1000, 1000)) * 2f64.powi(x - x.clamp(-1000, 1000))
    };
    let x = if neg { -mag } else { mag };
    if k == b'd' {
        Some(x.to_bits() as u128)
    } else {
        let y = x as f32;
        (y as f64 == x || x.is_nan()).then_some(y.to_bits() as u128)
    }
}
fn nan(k: u8, v: u128) -> bool {
    if k == b'd' {
        f64::from_bits(v as u64).is_nan()
    } else {
        f32::from_bits(v as u32).is_nan()
    }
}

/// Operands near the hard cases of fma: cancellation, halfway sums, subnormal results.
fn fma_args(t: &mut Tape, f: &Func) -> [u128; 3] {
    let mut a = gen_args(t, f, 0);
    let d = f.args[0] == b'd';
    if t.chance(GEN, 1, 2) {
        // third operand close to minus the product
        let p = if d {
            (f64::from_bits(a[0] as u64) * f64::from_bits(a[1] as u64)).to_bits() as u128
        } else {
            (f32::from_bits(a[0] as u32) * f32::from_bits(a[1] as u32)).to_bits() as u128
        };
        let (mb, b) = if d { (52, 64) } else { (23, 32) };
        let sh = t.below(GEN, 2 * mb + 4) as i128 - mb as i128;
        let e = (p >> mb) as i128 & if d { 0x7ff } else { 0xff };
        let ne = (e - if t.chance(GEN, 1, 2) { 0 } else { sh }).clamp(0, if d { 0x7fe } else { 0xfe });
        let m = match t.below(GEN, 4) {
            0 => p,
            1 => p ^ 1,
            2 => 0,
            _ => t.bits(GEN, mb as u32) as u128,
        } & ((1 << mb) - 1);
        let s = !(p >> (b - 1)) & 1;
        a[2] = s << (b - 1) | (ne as u128) << mb | m;
    }
    a
}

impl CpuProp {
    pub fn new(imgs: &[(&str, String)]) -> Self {
        map_world();
        let mut libs = Vec::new();
        for (n, p) in imgs {
            let mut l = Lib::load(n, p);
            l.discover(60, 0);
            libs.push(l);
        }
        CpuProp { libs, spare: Vec::new() }
    }
    fn ctx(&mut self) -> Box<Ctx> {
        let mut c = self.spare.pop().unwrap_or_else(Ctx::new);
        c.reset();
        c
    }
}

/// Execute one instruction of the thread on the simulated processor.
fn step(lib: &Lib, cpu: &Cpu, c: &mut Ctx, r: &mut RunResult) -> Ev {
    let pc = c.rip;
    if !lib.img.in_code(pc) {
        return resume(c, true);
    }
    let code = slice(pc, 16);
    let n = need(code, lib.img.wide);
    if n == Need::Base {
        return resume(c, true);
    }
    if !cpu.has(n) {
        r.violation = Some(("unsupported".into(), format!("{n:?} instruction executed at {} on {}", lib.img.name_of(pc), cpu.show())));
        return Ev::Ill;
    }
    match n {
        Need::Cpuid => {
            let v = cpu.cpuid(c.r[RAX] as u32, c.r[RCX] as u32);
            (c.r[RAX], c.r[RBX], c.r[RCX], c.r[RDX]) = (v[0] as u64, v[1] as u64, v[2] as u64, v[3] as u64);
            c.rip += 2;
            r.count("event: CPUID answered", 1);
            Ev::Step
        }
        Need::Xgetbv => {
            if c.r[RCX] as u32 != 0 {
                r.violation = Some(("unsupported".into(), format!("XGETBV of register {:#x} at {}", c.r[RCX] as u32, lib.img.name_of(pc))));
                return Ev::Ill;
            }
            c.r[RAX] = cpu.xcr0 & 0xffff_ffff;
            c.r[RDX] = cpu.xcr0 >> 32;
            c.rip += 3;
            r.count("event: XGETBV answered", 1);
            Ev::Step
        }
        Need::Fma4 => fma4(c, code, r),
        _ => {
            r.count(&format!("event: {n:?} instruction executed"), 1);
            resume(c, true)
        }
    }
}

/// The scalar FMA4 forms, register operands.
fn fma4(c: &mut Ctx, code: &[u8], r: &mut RunResult) -> Ev {
    let v = vex(code).unwrap();
    let m = code[v.modrm];
    if m < 0xc0 || !(v.op == 0x6a || v.op == 0x6b || v.op == 0x69 || v.op == 0x68) || v.l {
        r.error = Some(format!("FMA4 instruction {:02x?} not modelled", &code[..8]));
        return Ev::Ill;
    }
    let reg = (m >> 3 & 7) as usize + 8 * v.r as usize;
    let rm = (m & 7) as usize + 8 * v.b as usize;
    let is4 = (code[v.modrm + 1] >> 4) as usize;
    let (s1, mut s2, mut s3) = (v.vvvv as usize, rm, is4);
    if v.w {
        std::mem::swap(&mut s2, &mut s3);
    }
    let (a, b, d) = (c.xmm(s1), c.xmm(s2), c.xmm(s3));
    let dbl = v.op & 1 == 1;
    let one = |k: u32| -> u128 {
        if dbl {
            f64::from_bits((a >> k) as u64).mul_add(f64::from_bits((b >> k) as u64), f64::from_bits((d >> k) as u64)).to_bits() as u128
        } else {
            f32::from_bits((a >> k) as u32).mul_add(f32::from_bits((b >> k) as u32), f32::from_bits((d >> k) as u32)).to_bits() as u128
        }
    };
    let res = if v.op >= 0x6a {
        one(0)
    } else if dbl {
        one(0) | one(64) << 64
    } else {
        one(0) | one(32) << 32 | one(64) << 64 | one(96) << 96
    };
    c.set_xmm(reg, res);
    c.rip += v.modrm as u64 + 2;
    r.count("event: Fma4 instruction executed", 1);
    Ev::Step
}

impl Prop for CpuProp {
    fn run(&mut self, t: &mut Tape, verbose: bool) -> RunResult {
        let mut r = RunResult::default();
        let cpu = Cpu::draw(t);
        let li = t.below(GEN, self.libs.len() as u64) as usize;
        let nt = 1 + t.weighted(GEN, &[3, 4, 2]);
        let nsh = self.libs[li].shared.len() as u64;
        let draw = |t: &mut Tape, lib: &Lib| -> Call {
            let f = if nsh > 0 && t.chance(GEN, 5, 6) { lib.shared[t.below(GEN, nsh) as usize] } else { t.below(GEN, lib.fns.len() as u64) as usize };
            let fd = &lib.fns[f];
            let a = if fma_ref(fd, &[0; 3]).is_some() { fma_args(t, fd) } else { gen_args(t, fd, 60) };
            Call { f, a }
        };
        let mut todo: Vec<Vec<Call>> = Vec::new();
        for _ in 0..nt {
            let n = 1 + t.below(GEN, 3);
            todo.push((0..n).map(|_| draw(t, &self.libs[li])).collect());
            todo.last_mut().unwrap().reverse();
        }
        let mut frames: Vec<Vec<Frame>> = (0..nt).map(|_| Vec::new()).collect();
        let p = [4, 0, 1, 12][t.weighted(SCHED, &[3, 1, 3, 2])];
        let pirq = [0, 1, 4][t.below(FAULT, 3) as usize];
        let mut irqs = 3;
        self.libs[li].img.pristine();
        let (mut log, mut sig) = (Hash::new(), Hash::new());
        if verbose {
            r.trace.push(format!("processor: {} ({})", cpu.show(), self.libs[li].name));
        }
        sig.u64(cpu.os_avx() as u64 | (cpu.has(Need::Fma) as u64) << 1 | (cpu.has(Need::Fma4) as u64) << 2 | (cpu.vendor[0] as u64) << 8 | (cpu.max as u64) << 16 | cpu.xcr0 << 24);
        let mut cur = 0;
        let (mut switches, mut total) = (0u64, 0u64);
        'run: loop {
            let live: Vec<usize> = (0..nt).filter(|&k| !frames[k].is_empty() || !todo[k].is_empty()).collect();
            if live.is_empty() {
                break;
            }
            if !live.contains(&cur) {
                cur = live[t.below(SCHED, live.len() as u64) as usize];
            } else if live.len() > 1 && t.chance(SCHED, p, 64) {
                let o: Vec<usize> = live.iter().copied().filter(|&k| k != cur).collect();
                cur = o[t.below(SCHED, o.len() as u64) as usize];
                switches += 1;
                sig.u64(total << 4 | cur as u64);
            }
            if frames[cur].is_empty() {
                let call = todo[cur].pop().unwrap();
                let mut ctx = self.ctx();
                let slot = (cur * 8) as u64;
                prepare(&mut ctx, &self.libs[li].fns[call.f], &call, slot, stack_top(cur) - 8);
                if verbose {
                    r.trace.push(format!("t{cur}: call {}", self.libs[li].show(&call)));
                }
                sig.u64(call.f as u64);
                frames[cur].push(Frame { ctx, call, slot, steps: 0 });
            } else if irqs > 0 && pirq > 0 && frames[cur].len() < 3 && t.chance(FAULT, pirq, 256) {
                irqs -= 1;
                let call = draw(t, &self.libs[li]);
                let top = frames[cur].last().unwrap();
                let sp = ((top.ctx.r[RSP] - red_zone(&self.libs[li].fns[call.f])) & !15) - 8;
                let slot = top.slot + 1;
                if verbose {
                    r.trace.push(format!("t{cur}: interrupt at {}: call {}", self.libs[li].img.name_of(top.ctx.rip), self.libs[li].show(&call)));
                }
                sig.u64(top.ctx.rip << 8 | 0x77);
                let mut ctx = self.ctx();
                prepare(&mut ctx, &self.libs[li].fns[call.f], &call, slot, sp);
                frames[cur].push(Frame { ctx, call, slot, steps: 0 });
                r.count("fault: handler interrupts a call and makes calls", 1);
            }
            let lib = &self.libs[li];
            let fr = frames[cur].last_mut().unwrap();
            total += 1;
            let ev = step(lib, &cpu, &mut fr.ctx, &mut r);
            if r.violation.is_some() || r.error.is_some() {
                if let Some((_, m)) = &mut r.violation {
                    *m = format!("{}: {m}", lib.show(&fr.call));
                }
                break 'run;
            }
            log.u64(fr.ctx.rip);
            fr.steps += 1;
            if fr.steps > 5000 && fma_ref(&lib.fns[fr.call.f], &fr.call.a).is_some() {
                r.violation = Some(("stuck".into(), format!("{} does not finish within 5000 of its own instructions on {}", lib.show(&fr.call), cpu.show())));
                break 'run;
            }
            if total > 30_000 {
                // some remainder functions need very many instructions
                r.count("run ended early after 30000 instructions", 1);
                break 'run;
            }
            match ev {
                Ev::Step if fr.ctx.rip == SENTINEL => {
                    let f = &lib.fns[fr.call.f];
                    let got = result(&fr.ctx, f, fr.slot);
                    log.u64(got.val as u64);
                    if verbose {
                        r.trace.push(format!("t{cur}: {} = {}", lib.show(&fr.call), show_res(&got, f)));
                    }
                    r.count("calls completed", 1);
                    if let Some(want) = fma_ref(f, &fr.call.a) {
                        r.count("fused multiply-add results checked", 1);
                        // 32-bit code returns a register wider than the type
                        let got = if f.wide { Some(got.val) } else { from80(f.ret, got.val) };
                        let Some(val) = got else {
                            r.violation = Some(("result".into(), format!("{} returned a value that is not of its type", lib.show(&fr.call))));
                            break 'run;
                        };
                        if val != want && !(nan(f.ret, want) && nan(f.ret, val)) {
                            r.violation = Some(("result".into(), format!("{} returned {:#x}, correctly rounded is {:#x}, on {}", lib.show(&fr.call), val, want, cpu.show())));
                            break 'run;
                        }
                    }
                    let fr = frames[cur].pop().unwrap();
                    self.spare.push(fr.ctx);
                }
                Ev::Step => {}
                e => {
                    r.violation = Some(("crash".into(), format!("{}: {e:?} at {} on {}", lib.show(&fr.call), lib.img.name_of(fr.ctx.rip), cpu.show())));
                    break 'run;
                }
            }
        }
        for f in frames.into_iter().flatten() {
            self.spare.push(f.ctx);
        }
        r.count("event: switch to another thread inside a call", switches);
        r.count(if cpu.has(Need::Fma) { "runs on a processor with usable FMA" } else if cpu.has(Need::Fma4) { "runs on a processor with usable FMA4 only" } else { "runs on a processor without a usable fused multiply-add" }, 1);
        if !cpu.os_avx() && (bit(cpu.l1c, 12) || bit(cpu.x1c, 16)) {
            r.count("fault: feature present but vector state not enabled by the operating system", 1);
        }
        r.nontrivial = true;
        r.steps = total;
        r.log_hash = log.get();
        r.sig = sig.get();
        r.summary = format!("{}; {} threads, {} instructions, {} switches", cpu.show(), nt, total, switches);
        r
    }
}
