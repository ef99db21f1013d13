//! The simulated memory system.
//!
//! Regions carry byte permissions.  One region can be *weak*: it keeps, per 16-byte granule, the
//! history of all versions in coherence order, and every core has a view (the oldest version it
//! may still observe).  Plain loads may observe any version not older than the view; acquire,
//! release and barriers transfer views as the ARM architecture prescribes.  Read-modify-writes
//! always act on the newest version.  The model only produces outcomes ARM allows for programs
//! whose plain accesses are not linked by dependencies (which is how the checks use it).
use crate::tape::{Tape, FAULT};
use crate::util::Hash;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ordg {
    Plain,
    Acq,
    Rel,
    AcqRel,
}
impl Ordg {
    pub fn acq(self) -> bool {
        matches!(self, Ordg::Acq | Ordg::AcqRel)
    }
    pub fn rel(self) -> bool {
        matches!(self, Ordg::Rel | Ordg::AcqRel)
    }
    pub fn of(a: bool, r: bool) -> Ordg {
        match (a, r) {
            (false, false) => Ordg::Plain,
            (true, false) => Ordg::Acq,
            (false, true) => Ordg::Rel,
            (true, true) => Ordg::AcqRel,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Barrier {
    Full,
    Load,
    Store,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Trap {
    /// Data access not permitted.
    Access { addr: u64, size: u8, write: bool, why: &'static str },
    /// Misaligned data access on a machine that faults on it.
    Align { addr: u64, size: u8 },
    /// Instruction fetch outside code.
    Fetch(u64),
    /// Undefined instruction on this core.
    Undef(u64, u32, &'static str),
    /// Decoder limitation of the simulator: no verdict.
    Unimpl(u64, u32),
    /// Software-generated trap (udf, svc, brk).
    Software(u64, u32),
}

pub type R<T> = Result<T, Trap>;

pub const PR: u8 = 1;
pub const PW: u8 = 2;

pub struct Region {
    pub name: String,
    pub base: u64,
    pub data: Vec<u8>,
    pub exec: bool,
    /// Permissions of the whole region.
    pub perm: u8,
    /// Byte permissions, if they differ inside the region.
    pub bperm: Option<Vec<u8>>,
    pub shared: bool,
    pub weak: bool,
    /// Offsets of bytes written since the last reset (for cheap snapshots), low/high water marks.
    pub dirty: Option<(usize, usize)>,
}

#[derive(Clone, Copy, Debug)]
pub struct Access {
    pub tid: usize,
    pub addr: u64,
    pub size: u8,
    pub write: bool,
    /// value loaded or stored
    pub val: u128,
    /// previous contents for stores
    pub old: u128,
    pub region: usize,
}

#[derive(Clone)]
struct Msg {
    data: [u8; 16],
    view: Vec<u32>,
}

#[derive(Clone, Default)]
struct CoreView {
    cur: Vec<u32>,
    /// views of messages read by plain loads, merged into `cur` by a load/full barrier
    pend: Vec<u32>,
    /// view attached to plain stores (set by release/full barriers)
    rel: Vec<u32>,
    /// own stores
    own: Vec<u32>,
}

fn join(a: &mut [u32], b: &[u32]) {
    for (x, y) in a.iter_mut().zip(b) {
        if *y > *x {
            *x = *y;
        }
    }
}

pub struct Weak {
    base: u64,
    hist: Vec<Vec<Msg>>,
    cores: Vec<CoreView>,
    sc: Vec<u32>,
    /// probability (of 16) that a load looks at an older version when it may
    pub stale: u64,
    /// loads that observed an older version
    pub stale_reads: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct Monitor {
    pub addr: u64,
    pub size: u8,
    /// weak mode: version read
    ver: u32,
}

pub struct Mem {
    pub big: bool,
    pub strict_align: bool,
    /// A64 core with alignment checking: every access is aligned to its size.
    pub align_all: bool,
    pub regions: Vec<Region>,
    last: usize,
    last_x: usize,
    pub monitors: Vec<Option<Monitor>>,
    pub weak: Option<Weak>,
    /// Data accesses of the current step.
    pub accs: Vec<Access>,
    pub tape: Tape,
    /// Probability (of 64) that an exclusive store / kernel exchange fails spuriously.
    pub spurious: u64,
    /// Remaining spurious failures allowed.
    pub spurious_left: u64,
    pub n_spurious: u64,
    pub n_monitor_lost: u64,
    pub log: Hash,
}

impl Mem {
    pub fn new(big: bool, tape: Tape) -> Mem {
        Mem {
            big,
            strict_align: true,
            align_all: false,
            regions: Vec::new(),
            last: 0,
            last_x: 0,
            monitors: Vec::new(),
            weak: None,
            accs: Vec::new(),
            tape,
            spurious: 0,
            spurious_left: 0,
            n_spurious: 0,
            n_monitor_lost: 0,
            log: Hash::new(),
        }
    }
    pub fn add(&mut self, name: &str, base: u64, data: Vec<u8>, perm: u8, exec: bool, shared: bool) -> usize {
        self.regions.push(Region { name: name.into(), base, data, exec, perm, bperm: None, shared, weak: false, dirty: None });
        self.regions.len() - 1
    }
    #[inline]
    fn find(&mut self, addr: u64, size: u64) -> Option<usize> {
        let inside = |r: &Region| addr >= r.base && r.data.len() as u64 >= size && addr - r.base <= r.data.len() as u64 - size;
        if inside(&self.regions[self.last]) {
            return Some(self.last);
        }
        for (i, r) in self.regions.iter().enumerate() {
            if inside(r) {
                self.last = i;
                return Some(i);
            }
        }
        None
    }
    /// Make region `ri` weakly ordered for `n` cores.
    pub fn make_weak(&mut self, ri: usize, n: usize, stale: u64) {
        let r = &mut self.regions[ri];
        assert!(r.base % 16 == 0 && r.data.len() % 16 == 0);
        r.weak = true;
        let g = r.data.len() / 16;
        let hist = (0..g).map(|i| vec![Msg { data: r.data[i * 16..i * 16 + 16].try_into().unwrap(), view: vec![0; g] }]).collect();
        let cv = CoreView { cur: vec![0; g], pend: vec![0; g], rel: vec![0; g], own: vec![0; g] };
        self.weak = Some(Weak { base: r.base, hist, cores: vec![cv; n], sc: vec![0; g], stale, stale_reads: 0 });
    }
    /// All cores synchronise (start and end of a scenario).
    pub fn sync_all(&mut self) {
        if let Some(w) = &mut self.weak {
            let latest: Vec<u32> = w.hist.iter().map(|h| h.len() as u32 - 1).collect();
            for c in &mut w.cores {
                c.cur = latest.clone();
                c.pend = latest.clone();
            }
            w.sc = latest;
        }
    }
    #[inline]
    fn find_x(&mut self, addr: u64, size: u64) -> Option<usize> {
        let save = self.last;
        self.last = self.last_x;
        let r = self.find(addr, size);
        self.last_x = self.last;
        self.last = save;
        r
    }
    pub fn fetch16(&mut self, addr: u64) -> R<u16> {
        match self.find_x(addr, 2) {
            Some(i) if self.regions[i].exec => {
                let r = &self.regions[i];
                let o = (addr - r.base) as usize;
                let b = [r.data[o], r.data[o + 1]];
                Ok(if self.big { u16::from_be_bytes(b) } else { u16::from_le_bytes(b) })
            }
            _ => Err(Trap::Fetch(addr)),
        }
    }
    #[inline]
    pub fn fetch32(&mut self, addr: u64) -> R<u32> {
        match self.find_x(addr, 4) {
            Some(i) if self.regions[i].exec => {
                let r = &self.regions[i];
                let o = (addr - r.base) as usize;
                let b: [u8; 4] = r.data[o..o + 4].try_into().unwrap();
                Ok(if self.big { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) })
            }
            _ => Err(Trap::Fetch(addr)),
        }
    }
    fn check(&mut self, addr: u64, size: u8, write: bool, align: u8) -> R<usize> {
        let align = if self.align_all { align.max(size) } else { align };
        if align > 1 && addr % align as u64 != 0 {
            return Err(Trap::Align { addr, size });
        }
        let Some(i) = self.find(addr, size as u64) else {
            return Err(Trap::Access { addr, size, write, why: "unmapped" });
        };
        let r = &self.regions[i];
        let need = if write { PW } else { PR };
        if r.perm & need == 0 {
            return Err(Trap::Access { addr, size, write, why: "not permitted" });
        }
        if let Some(b) = &r.bperm {
            let o = (addr - r.base) as usize;
            for k in 0..size as usize {
                if b[o + k] & need == 0 {
                    return Err(Trap::Access { addr: addr + k as u64, size, write, why: "outside the operands" });
                }
            }
        }
        Ok(i)
    }
    fn to_val(&self, b: &[u8]) -> u128 {
        let mut v = 0u128;
        if self.big {
            for &x in b {
                v = v << 8 | x as u128;
            }
        } else {
            for &x in b.iter().rev() {
                v = v << 8 | x as u128;
            }
        }
        v
    }
    fn to_bytes(&self, v: u128, size: usize) -> [u8; 16] {
        let mut o = [0u8; 16];
        if self.big {
            let b = v.to_be_bytes();
            o[..size].copy_from_slice(&b[16 - size..]);
        } else {
            let b = v.to_le_bytes();
            o[..size].copy_from_slice(&b[..size]);
        }
        o
    }
    /// Read without any checks or effects (newest version).
    pub fn peek(&mut self, addr: u64, size: usize) -> u128 {
        let i = self.find(addr, size as u64).expect("peek");
        let r = &self.regions[i];
        let o = (addr - r.base) as usize;
        let b: Vec<u8> = r.data[o..o + size].to_vec();
        self.to_val(&b)
    }
    pub fn poke(&mut self, addr: u64, size: usize, v: u128) {
        let b = self.to_bytes(v, size);
        let i = self.find(addr, size as u64).expect("poke");
        let r = &mut self.regions[i];
        let o = (addr - r.base) as usize;
        r.data[o..o + size].copy_from_slice(&b[..size]);
    }
    fn raw_load(&mut self, tid: usize, i: usize, addr: u64, size: u8, ord: Ordg, latest: bool, excl: bool) -> u128 {
        let r = &self.regions[i];
        let o = (addr - r.base) as usize;
        if !r.weak {
            let b = &r.data[o..o + size as usize];
            let mut tmp = [0u8; 16];
            tmp[..size as usize].copy_from_slice(b);
            return self.to_val(&tmp[..size as usize]);
        }
        let w = self.weak.as_mut().unwrap();
        let g = o / 16;
        let (h, c) = (&w.hist[g], &mut w.cores[tid]);
        let newest = h.len() as u32 - 1;
        let oldest = c.cur[g];
        let mut ts = newest;
        if !latest && oldest < newest && w.stale > 0 {
            if self.tape.chance(FAULT, w.stale, 16) {
                let k = 1 + self.tape.below(FAULT, (newest - oldest) as u64) as u32;
                ts = newest - k;
                w.stale_reads += 1;
            }
        }
        c.cur[g] = ts;
        let m = &h[ts as usize];
        join(&mut c.pend, &m.view);
        if ord.acq() {
            let v = m.view.clone();
            join(&mut c.cur, &v);
        }
        if excl {
            if let Some(m) = &mut self.monitors[tid] {
                m.ver = ts;
            }
        }
        let b: Vec<u8> = w.hist[g][ts as usize].data[o % 16..o % 16 + size as usize].to_vec();
        self.to_val(&b)
    }
    fn raw_store(&mut self, tid: usize, i: usize, addr: u64, size: u8, val: u128, ord: Ordg, rmw: bool) {
        let b = self.to_bytes(val, size as usize);
        let r = &mut self.regions[i];
        let o = (addr - r.base) as usize;
        let sz = size as usize;
        r.data[o..o + sz].copy_from_slice(&b[..sz]);
        match &mut r.dirty {
            None => r.dirty = Some((o, o + sz)),
            Some((l, h)) => {
                *l = (*l).min(o);
                *h = (*h).max(o + sz);
            }
        }
        if r.weak {
            let w = self.weak.as_mut().unwrap();
            let g = o / 16;
            let c = &mut w.cores[tid];
            let last = w.hist[g].last().unwrap();
            let mut data = last.data;
            data[o % 16..o % 16 + sz].copy_from_slice(&b[..sz]);
            let ts = w.hist[g].len() as u32;
            let mut view = if ord.rel() { c.cur.clone() } else { c.rel.clone() };
            if rmw {
                join(&mut view, &last.view);
            }
            c.cur[g] = ts;
            c.own[g] = ts;
            view[g] = ts;
            w.hist[g].push(Msg { data, view });
        }
        // Exclusive reservations of other cores on this granule are lost.
        for (t, m) in self.monitors.iter_mut().enumerate() {
            if t != tid {
                if let Some(mm) = m {
                    if mm.addr / 16 == addr / 16 {
                        *m = None;
                    }
                }
            }
        }
    }
    #[inline]
    pub fn load(&mut self, tid: usize, addr: u64, size: u8, ord: Ordg) -> R<u64> {
        let al = if self.strict_align { size } else { 1 };
        self.load_al(tid, addr, size, ord, al).map(|v| v as u64)
    }
    pub fn load_al(&mut self, tid: usize, addr: u64, size: u8, ord: Ordg, align: u8) -> R<u128> {
        let i = self.check(addr, size, false, align)?;
        let val = self.raw_load(tid, i, addr, size, ord, false, false);
        if self.regions[i].shared {
            self.accs.push(Access { tid, addr, size, write: false, val, old: val, region: i });
        }
        Ok(val)
    }
    #[inline]
    pub fn store(&mut self, tid: usize, addr: u64, size: u8, val: u64, ord: Ordg) -> R<()> {
        let al = if self.strict_align { size } else { 1 };
        self.store_al(tid, addr, size, val as u128, ord, al)
    }
    pub fn store_al(&mut self, tid: usize, addr: u64, size: u8, val: u128, ord: Ordg, align: u8) -> R<()> {
        let i = self.check(addr, size, true, align)?;
        if self.regions[i].shared {
            let old = self.peek(addr, size as usize);
            self.accs.push(Access { tid, addr, size, write: true, val, old, region: i });
        }
        self.raw_store(tid, i, addr, size, val, ord, false);
        Ok(())
    }
    pub fn ldex(&mut self, tid: usize, addr: u64, size: u8, ord: Ordg) -> R<u128> {
        let i = self.check(addr, size, false, size)?;
        self.monitors[tid] = Some(Monitor { addr, size, ver: 0 });
        let val = self.raw_load(tid, i, addr, size, ord, false, true);
        if self.regions[i].shared {
            self.accs.push(Access { tid, addr, size, write: false, val, old: val, region: i });
        }
        Ok(val)
    }
    pub fn clrex(&mut self, tid: usize) {
        self.monitors[tid] = None;
    }
    fn spurious_now(&mut self) -> bool {
        if self.spurious_left > 0 && self.tape.chance(FAULT, self.spurious, 64) {
            self.spurious_left -= 1;
            self.n_spurious += 1;
            return true;
        }
        false
    }
    /// Exclusive store; true on success.
    pub fn stex(&mut self, tid: usize, addr: u64, size: u8, val: u128, ord: Ordg) -> R<bool> {
        let i = self.check(addr, size, true, size)?;
        let mon = self.monitors[tid].take();
        let mut ok = match mon {
            Some(m) => m.addr == addr && m.size == size,
            None => {
                self.n_monitor_lost += 1;
                false
            }
        };
        if ok && self.regions[i].weak {
            let w = self.weak.as_ref().unwrap();
            let g = ((addr - w.base) / 16) as usize;
            if mon.unwrap().ver != w.hist[g].len() as u32 - 1 {
                ok = false;
            }
        }
        if ok && self.spurious_now() {
            ok = false;
        }
        if !ok {
            return Ok(false);
        }
        if self.regions[i].shared {
            let old = self.peek(addr, size as usize);
            self.accs.push(Access { tid, addr, size, write: true, val, old, region: i });
        }
        self.raw_store(tid, i, addr, size, val, ord, true);
        Ok(true)
    }
    /// Single-instruction atomic.  `f` returns the new value, or None to leave memory alone.
    pub fn rmw(&mut self, tid: usize, addr: u64, size: u8, ord: Ordg, f: &mut dyn FnMut(u128) -> Option<u128>) -> R<u128> {
        self.check(addr, size, false, size)?;
        let i = self.check(addr, size, true, size)?;
        let val = self.raw_load(tid, i, addr, size, if ord.acq() { Ordg::Acq } else { Ordg::Plain }, true, false);
        let sh = self.regions[i].shared;
        if sh {
            self.accs.push(Access { tid, addr, size, write: false, val, old: val, region: i });
        }
        if let Some(n) = f(val) {
            if sh {
                self.accs.push(Access { tid, addr, size, write: true, val: n, old: val, region: i });
            }
            self.raw_store(tid, i, addr, size, n, if ord.rel() { Ordg::Rel } else { Ordg::Plain }, true);
        }
        Ok(val)
    }
    pub fn barrier(&mut self, tid: usize, k: Barrier) {
        let Some(w) = &mut self.weak else { return };
        let c = &mut w.cores[tid];
        match k {
            Barrier::Load => {
                let p = c.pend.clone();
                join(&mut c.cur, &p);
            }
            Barrier::Store => {
                let o = c.own.clone();
                join(&mut c.rel, &o);
            }
            Barrier::Full => {
                let p = c.pend.clone();
                join(&mut c.cur, &p);
                join(&mut c.cur, &w.sc);
                w.sc = c.cur.clone();
                c.rel = c.cur.clone();
                let n = c.cur.clone();
                join(&mut c.pend, &n);
            }
        }
    }
    /// Linux `__kuser_cmpxchg`: atomic, fully ordered, may refuse.  True if exchanged.
    pub fn kuser_cmpxchg(&mut self, tid: usize, old: u32, new: u32, addr: u64) -> R<bool> {
        self.check(addr, 4, false, 4)?;
        self.barrier(tid, Barrier::Full);
        let refuse = self.spurious_now();
        let mut did = false;
        if !refuse {
            self.rmw(tid, addr, 4, Ordg::Plain, &mut |v| {
                if v as u32 == old {
                    did = true;
                    Some(new as u128)
                } else {
                    None
                }
            })?;
        }
        self.barrier(tid, Barrier::Full);
        Ok(did)
    }
    pub fn stale_reads(&self) -> u64 {
        self.weak.as_ref().map(|w| w.stale_reads).unwrap_or(0)
    }
}
