//! Runs x86 code of the tested library on this CPU under complete control of the simulator:
//! one instruction at a time, or up to the next access to protected memory, on stacks and with
//! register files that the simulator owns.  Everything happens on one OS thread.
use std::arch::{asm, global_asm};

/// Legacy, SSE and AVX state in the layout of XSAVE; wider state is not used by the tested code.
pub const FP_SIZE: usize = 832;

/// Register numbers in `Ctx::r`.
pub const RAX: usize = 0;
pub const RCX: usize = 1;
pub const RDX: usize = 2;
pub const RBX: usize = 3;
pub const RSP: usize = 4;
pub const RBP: usize = 5;
pub const RSI: usize = 6;
pub const RDI: usize = 7;
pub const REG_NAMES: [&str; 16] = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];

pub const CS64: u64 = 0x33;
pub const CS32: u64 = 0x23;
pub const TF: u64 = 1 << 8;
pub const DF: u64 = 1 << 10;
pub const AC: u64 = 1 << 18;
/// CF PF AF ZF SF OF
pub const STATUS: u64 = 0x8d5;

/// Calls return to this unmapped address.
pub const SENTINEL: u64 = 0x7ff0_0000;

/// Machine state of one simulated thread.
#[repr(C, align(64))]
#[derive(Clone)]
pub struct Ctx {
    pub fp: [u8; FP_SIZE],
    pub r: [u64; 16],
    pub rip: u64,
    pub flags: u64,
    pub cs: u64,
}

impl Ctx {
    pub fn new() -> Box<Ctx> {
        let mut c = Box::new(Ctx { fp: [0; FP_SIZE], r: [0; 16], rip: 0, flags: 0x202, cs: CS64 });
        c.reset_fp();
        c
    }
    pub fn reset(&mut self) {
        self.reset_fp();
        self.r = [0; 16];
        self.rip = 0;
        self.flags = 0x202;
        self.cs = CS64;
    }
    pub fn reset_fp(&mut self) {
        self.fp.fill(0);
        self.set_fcw(0x37f);
        self.set_mxcsr(0x1f80);
        self.fp[512] = 3;
    }
    pub fn fcw(&self) -> u16 {
        u16::from_le_bytes(self.fp[0..2].try_into().unwrap())
    }
    pub fn set_fcw(&mut self, v: u16) {
        self.fp[0..2].copy_from_slice(&v.to_le_bytes());
    }
    pub fn fsw(&self) -> u16 {
        u16::from_le_bytes(self.fp[2..4].try_into().unwrap())
    }
    pub fn set_fsw(&mut self, v: u16) {
        self.fp[2..4].copy_from_slice(&v.to_le_bytes());
    }
    /// Abridged tag word: a set bit is a register in use.
    pub fn ftw(&self) -> u8 {
        self.fp[4]
    }
    pub fn mxcsr(&self) -> u32 {
        u32::from_le_bytes(self.fp[24..28].try_into().unwrap())
    }
    pub fn set_mxcsr(&mut self, v: u32) {
        self.fp[24..28].copy_from_slice(&v.to_le_bytes());
    }
    pub fn st(&self, i: usize) -> [u8; 10] {
        self.fp[32 + 16 * i..42 + 16 * i].try_into().unwrap()
    }
    pub fn set_st(&mut self, i: usize, v: &[u8; 10]) {
        self.fp[32 + 16 * i..42 + 16 * i].copy_from_slice(v);
    }
    pub fn xmm(&self, i: usize) -> u128 {
        u128::from_le_bytes(self.fp[160 + 16 * i..176 + 16 * i].try_into().unwrap())
    }
    pub fn set_xmm(&mut self, i: usize, v: u128) {
        self.fp[160 + 16 * i..176 + 16 * i].copy_from_slice(&v.to_le_bytes());
        self.fp[512] |= 3;
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// One instruction was executed.
    Step,
    /// The call returned.
    Ret,
    /// Page fault.
    Fault { addr: u64, write: bool, exec: bool },
    /// General protection fault, alignment, stack segment...
    Gp,
    Ill,
    Fpe,
    Bp,
    Timeout,
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct StackT {
    sp: *mut u8,
    flags: i32,
    size: usize,
}
#[repr(C)]
struct Itimer {
    v: [i64; 4],
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    fn setitimer(which: i32, new: *const Itimer, old: *mut Itimer) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, len: usize) -> i32;
}

pub const P_NONE: i32 = 0;
pub const P_R: i32 = 1;
pub const P_RW: i32 = 3;
pub const P_RX: i32 = 5;

/// Fresh zeroed memory at a fixed address.
pub fn map_fixed(addr: u64, len: usize, prot: i32) {
    // MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE
    let p = unsafe { mmap(addr as *mut u8, len, prot, 0x2 | 0x20 | 0x100000, -1, 0) };
    assert!(p as u64 == addr, "cannot map {addr:#x}+{len:#x}");
}
pub fn unmap(addr: u64, len: usize) {
    unsafe { munmap(addr as *mut u8, len) };
}
pub fn protect(addr: u64, len: usize, prot: i32) {
    let r = unsafe { mprotect(addr as *mut u8, len, prot) };
    assert!(r == 0, "mprotect {addr:#x}+{len:#x}");
}
/// Guest memory as a slice. The caller makes sure that it is accessible.
pub fn slice(addr: u64, len: usize) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(addr as *const u8, len) }
}
pub fn slice_mut(addr: u64, len: usize) -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(addr as *mut u8, len) }
}

#[no_mangle]
static mut NSIM_HOST_RSP: u64 = 0;
static mut IN_GUEST: *mut Ctx = std::ptr::null_mut();
static mut EVENT: Ev = Ev::Step;
static mut TICKS: u32 = 0;

/// Timer ticks (of 0.5 s) a single resume may take.
const MAX_TICKS: u32 = 8;

global_asm!(
    ".globl nsim_enter",
    "nsim_enter:",
    "push rbx",
    "push rbp",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rip + NSIM_HOST_RSP], rsp",
    "mov eax, 7",
    "xor edx, edx",
    "xrstor64 [rdi]",
    "push 0x2b",
    "push qword ptr [rdi + {fp} + 32]",
    "push qword ptr [rdi + {fp} + 136]",
    "push qword ptr [rdi + {fp} + 144]",
    "push qword ptr [rdi + {fp} + 128]",
    "mov rax, [rdi + {fp}]",
    "mov rcx, [rdi + {fp} + 8]",
    "mov rdx, [rdi + {fp} + 16]",
    "mov rbx, [rdi + {fp} + 24]",
    "mov rbp, [rdi + {fp} + 40]",
    "mov rsi, [rdi + {fp} + 48]",
    "mov r8, [rdi + {fp} + 64]",
    "mov r9, [rdi + {fp} + 72]",
    "mov r10, [rdi + {fp} + 80]",
    "mov r11, [rdi + {fp} + 88]",
    "mov r12, [rdi + {fp} + 96]",
    "mov r13, [rdi + {fp} + 104]",
    "mov r14, [rdi + {fp} + 112]",
    "mov r15, [rdi + {fp} + 120]",
    "mov rdi, [rdi + {fp} + 56]",
    "iretq",
    ".globl nsim_leave",
    "nsim_leave:",
    "mov rsp, [rip + NSIM_HOST_RSP]",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbp",
    "pop rbx",
    "ret",
    fp = const FP_SIZE,
);
extern "C" {
    fn nsim_enter(c: *mut Ctx);
    fn nsim_leave() -> !;
}

const GREG_OF: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];

unsafe extern "C" fn handler(sig: i32, info: *mut u8, uc: *mut u8) {
    let g = uc.add(40) as *mut i64;
    if IN_GUEST.is_null() {
        if sig == 14 {
            return;
        }
        let m = format!("simulator: signal {sig} outside the tested code at {:#x} address {:#x}\n", *g.add(16), *g.add(22));
        eprint!("{m}");
        std::process::exit(70);
    }
    if sig == 14 {
        TICKS += 1;
        if TICKS < MAX_TICKS {
            return;
        }
    }
    let c = &mut *IN_GUEST;
    for i in 0..16 {
        c.r[i] = *g.add(GREG_OF[i]) as u64;
    }
    c.rip = *g.add(16) as u64;
    c.flags = *g.add(17) as u64 & !TF & !(1 << 16);
    c.cs = *g.add(18) as u64 & 0xffff;
    let fp = *(uc.add(40 + 23 * 8) as *const *const u8);
    let size = *(fp.add(464 + 16) as *const u32) as usize;
    let size = if *(fp.add(464) as *const u32) == 0x46505853 { size } else { 512 };
    std::ptr::copy_nonoverlapping(fp, c.fp.as_mut_ptr(), size.min(FP_SIZE));
    // reserved words used by the kernel
    c.fp[464..512].fill(0);
    let (err, trapno, cr2) = (*g.add(19) as u64, *g.add(20), *g.add(22) as u64);
    let _ = info;
    EVENT = match sig {
        5 if trapno == 1 => Ev::Step,
        5 => Ev::Bp,
        4 => Ev::Ill,
        8 => Ev::Fpe,
        14 => Ev::Timeout,
        _ if c.rip == SENTINEL => Ev::Ret,
        _ if trapno == 14 => Ev::Fault { addr: cr2, write: err & 2 != 0, exec: err & 16 != 0 },
        _ => Ev::Gp,
    };
    IN_GUEST = std::ptr::null_mut();
    nsim_leave()
}

pub fn init() {
    unsafe {
        static mut DONE: bool = false;
        if DONE {
            return;
        }
        DONE = true;
        let size = 1 << 17;
        let st = mmap(std::ptr::null_mut(), size, P_RW, 0x22, -1, 0);
        let ss = StackT { sp: st, flags: 0, size };
        assert!(sigaltstack(&ss, std::ptr::null_mut()) == 0);
        for s in [4, 5, 7, 8, 11, 14] {
            // SA_SIGINFO | SA_ONSTACK | SA_NODEFER | SA_RESTART
            let a = SigAction { handler: handler as usize, mask: [0; 16], flags: 0x4 | 0x0800_0000 | 0x4000_0000 | 0x1000_0000, restorer: 0 };
            assert!(sigaction(s, &a, std::ptr::null_mut()) == 0);
        }
        // 32-bit code needs valid data segments; 64-bit code does not look at them
        asm!("mov {x:e}, 0x2b", "mov ds, {x:x}", "mov es, {x:x}", x = out(reg) _);
        let it = Itimer { v: [0, 500_000, 0, 500_000] };
        setitimer(0, &it, std::ptr::null_mut());
    }
}

/// Continue the simulated thread: one instruction, or until something happens.
pub fn resume(c: &mut Ctx, step: bool) -> Ev {
    unsafe {
        if step {
            c.flags |= TF;
        } else {
            c.flags &= !TF;
        }
        c.flags |= 0x202;
        TICKS = 0;
        IN_GUEST = c;
        std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
        nsim_enter(c);
        c.flags &= !TF;
        EVENT
    }
}

/// A tested image placed in memory.
pub struct Image {
    pub syms: std::collections::HashMap<String, u64>,
    names: Vec<(u64, String)>,
    /// writable static data: address, length (whole pages), contents after loading
    pub data: Vec<(u64, usize, Vec<u8>)>,
    pub code: Vec<(u64, usize)>,
    ro: Vec<(u64, usize)>,
    exact: Vec<(u64, usize)>,
    /// 64-bit code
    pub wide: bool,
    open: bool,
}

fn up(x: u64) -> u64 {
    (x + 4095) & !4095
}

impl Image {
    pub fn load(path: &str) -> Image {
        init();
        let e = crate::elf::Elf::load(path);
        let mut data = Vec::new();
        let mut code = Vec::new();
        let mut ro = Vec::new();
        let mut exact = Vec::new();
        for s in &e.segs {
            let base = s.addr & !4095;
            let len = (up(s.addr + s.data.len() as u64) - base) as usize;
            if len == 0 {
                continue;
            }
            map_fixed(base, len, P_RW);
            slice_mut(s.addr, s.data.len()).copy_from_slice(&s.data);
            if s.flags & 1 != 0 {
                protect(base, len, P_RX);
                code.push((base, len));
            } else if s.flags & 2 != 0 && !s.relro {
                data.push((base, len, slice(base, len).to_vec()));
                exact.push((s.addr, s.data.len()));
            } else {
                protect(base, len, P_R);
                ro.push((s.addr, s.data.len()));
            }
        }
        let mut names: Vec<(u64, String)> = e.syms.iter().filter(|(_, s)| s.typ == 2).map(|(n, s)| (s.addr, n.clone())).collect();
        names.sort();
        let syms = e.syms.iter().map(|(n, s)| (n.clone(), s.addr)).collect();
        Image { syms, names, data, code, ro, exact, wide: e.is64, open: true }
    }
    pub fn name_of(&self, pc: u64) -> String {
        let i = self.names.partition_point(|(a, _)| *a <= pc);
        if i == 0 {
            return format!("{pc:#x}");
        }
        let (a, n) = &self.names[i - 1];
        format!("{}+{:#x}", demangle(n), pc - a)
    }
    pub fn in_data(&self, addr: u64) -> bool {
        self.data.iter().any(|(b, l, _)| addr >= *b && addr < b + *l as u64)
    }
    pub fn in_code(&self, addr: u64) -> bool {
        self.code.iter().any(|(b, l)| addr >= *b && addr < b + *l as u64)
    }
    /// In writable static data proper, not just in one of its pages.
    pub fn in_exact_data(&self, addr: u64) -> bool {
        self.exact.iter().any(|(b, l)| addr >= *b && addr < b + *l as u64)
    }
    /// In constant data that is not code.
    pub fn in_ro(&self, addr: u64) -> bool {
        self.ro.iter().any(|(b, l)| addr >= *b && addr < b + *l as u64)
    }
    /// Addresses of functions.
    pub fn starts(&self) -> impl Iterator<Item = u64> + '_ {
        self.names.iter().map(|(a, _)| *a)
    }
    /// Make static data accessible or not.
    pub fn set_open(&mut self, open: bool) {
        if open != self.open {
            for (a, l, _) in &self.data {
                protect(*a, *l, if open { P_RW } else { P_NONE });
            }
            self.open = open;
        }
    }
    /// Static data as in a fresh process.
    pub fn pristine(&mut self) {
        self.set_open(true);
        for (a, l, d) in &self.data {
            let m = slice_mut(*a, *l);
            if m != &d[..] {
                m.copy_from_slice(d);
            }
        }
    }
}

impl Image {
    /// Current contents of the static data.
    pub fn save(&self) -> Vec<Vec<u8>> {
        self.data.iter().map(|(a, l, _)| slice(*a, *l).to_vec()).collect()
    }
    pub fn restore(&self, s: &[Vec<u8>]) {
        for ((a, l, _), d) in self.data.iter().zip(s) {
            slice_mut(*a, *l).copy_from_slice(d);
        }
    }
}

fn demangle(n: &str) -> String {
    if !(n.starts_with("_ZN") || n.starts_with("_R")) {
        return n.to_string();
    }
    // keep the readable identifiers of either mangling
    let mut out: Vec<String> = Vec::new();
    let b = n.as_bytes();
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = i;
            let mut len = 0usize;
            while k < b.len() && b[k].is_ascii_digit() && len < 1000 {
                len = len * 10 + (b[k] - b'0') as usize;
                k += 1;
            }
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if k + len <= b.len() && len > 0 && b[k..k + len].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'$' || *c == b'.') {
                out.push(n[k..k + len].to_string());
                i = k + len;
                continue;
            }
        }
        i += 1;
    }
    if out.is_empty() {
        n.to_string()
    } else {
        if out.last().is_some_and(|l| l.len() == 17 && l.starts_with('h')) {
            out.pop();
        }
        out.join("::")
    }
}

/// Stacks of simulated threads: fixed addresses below 4 GB, unmapped pages on both sides.
pub const STACK0: u64 = 0x6000_0000;
pub const STACK_STRIDE: u64 = 0x10_0000;
pub const STACK_SIZE: usize = 0x10000;

pub fn map_stacks(n: usize) {
    for t in 0..n {
        map_fixed(STACK0 + t as u64 * STACK_STRIDE, STACK_SIZE, P_RW);
    }
}
pub fn stack_top(t: usize) -> u64 {
    STACK0 + t as u64 * STACK_STRIDE + STACK_SIZE as u64 - 512
}
pub fn stack_of(addr: u64) -> Option<usize> {
    if addr < STACK0 {
        return None;
    }
    let t = (addr - STACK0) / STACK_STRIDE;
    Some(t as usize)
}

pub fn put64(addr: u64, v: u64) {
    unsafe { (addr as *mut u64).write_unaligned(v) }
}
pub fn put32(addr: u64, v: u32) {
    unsafe { (addr as *mut u32).write_unaligned(v) }
}
pub fn get64(addr: u64) -> u64 {
    unsafe { (addr as *const u64).read_unaligned() }
}
pub fn get32(addr: u64) -> u32 {
    unsafe { (addr as *const u32).read_unaligned() }
}
