//! A32 interpreter (ARMv5TE and ARMv6K levels, no VFP).
use super::mem::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    V5te,
    V6k,
}

#[derive(Clone, Debug)]
pub struct Cpu32 {
    pub r: [u32; 16],
    pub n: bool,
    pub z: bool,
    pub c: bool,
    pub v: bool,
    pub q: bool,
    pub ge: u8,
    pub thumb: bool,
    pub level: Level,
    pub tid: usize,
}

pub enum Ev {
    None,
}

impl Cpu32 {
    pub fn new(level: Level, tid: usize) -> Cpu32 {
        Cpu32 { r: [0; 16], n: false, z: false, c: false, v: false, q: false, ge: 0, thumb: false, level, tid }
    }
    pub fn cond(&self, c: u32) -> bool {
        let r = match c >> 1 {
            0 => self.z,
            1 => self.c,
            2 => self.n,
            3 => self.v,
            4 => self.c && !self.z,
            5 => self.n == self.v,
            6 => self.n == self.v && !self.z,
            _ => return true,
        };
        r != (c & 1 == 1)
    }
    #[inline]
    pub fn setnz(&mut self, v: u32) {
        self.n = v >> 31 == 1;
        self.z = v == 0;
    }
    #[inline]
    pub fn addc(&mut self, a: u32, b: u32, cin: bool, s: bool) -> u32 {
        let (x, c1) = a.overflowing_add(b);
        let (x, c2) = x.overflowing_add(cin as u32);
        if s {
            self.setnz(x);
            self.c = c1 || c2;
            self.v = ((a ^ x) & (b ^ x)) >> 31 == 1;
        }
        x
    }
    /// Branch with interworking.
    pub fn bx(&mut self, t: u32) -> R<()> {
        if t & 1 == 1 {
            self.thumb = true;
            self.r[15] = t & !1;
        } else {
            if t & 2 != 0 {
                return Err(Trap::Fetch(t as u64));
            }
            self.thumb = false;
            self.r[15] = t;
        }
        Ok(())
    }
    pub fn shift(&self, v: u32, ty: u32, amt: u32, imm: bool) -> (u32, bool) {
        // returns (result, carry)
        let c = self.c;
        if imm {
            return match ty {
                0 => {
                    if amt == 0 {
                        (v, c)
                    } else {
                        (v << amt, v >> (32 - amt) & 1 == 1)
                    }
                }
                1 => {
                    if amt == 0 {
                        (0, v >> 31 == 1)
                    } else {
                        (v >> amt, v >> (amt - 1) & 1 == 1)
                    }
                }
                2 => {
                    if amt == 0 {
                        (((v as i32) >> 31) as u32, v >> 31 == 1)
                    } else {
                        (((v as i32) >> amt) as u32, v >> (amt - 1) & 1 == 1)
                    }
                }
                _ => {
                    if amt == 0 {
                        ((c as u32) << 31 | v >> 1, v & 1 == 1)
                    } else {
                        (v.rotate_right(amt), v >> (amt - 1) & 1 == 1)
                    }
                }
            };
        }
        let amt = amt & 0xff;
        if amt == 0 {
            return (v, c);
        }
        match ty {
            0 => match amt {
                1..=31 => (v << amt, v >> (32 - amt) & 1 == 1),
                32 => (0, v & 1 == 1),
                _ => (0, false),
            },
            1 => match amt {
                1..=31 => (v >> amt, v >> (amt - 1) & 1 == 1),
                32 => (0, v >> 31 == 1),
                _ => (0, false),
            },
            2 => match amt {
                1..=31 => (((v as i32) >> amt) as u32, v >> (amt - 1) & 1 == 1),
                _ => (((v as i32) >> 31) as u32, v >> 31 == 1),
            },
            _ => {
                let a = amt & 31;
                if a == 0 {
                    (v, v >> 31 == 1)
                } else {
                    (v.rotate_right(a), v >> (a - 1) & 1 == 1)
                }
            }
        }
    }
    /// Execute one instruction (either state).
    pub fn step(&mut self, m: &mut Mem) -> R<()> {
        if self.thumb {
            return self.step_thumb(m);
        }
        let pc = self.r[15];
        if pc & 3 != 0 {
            return Err(Trap::Fetch(pc as u64));
        }
        let i = m.fetch32(pc as u64)?;
        let save = self.clone();
        self.r[15] = pc.wrapping_add(4);
        let r = self.exec_arm(m, pc, i);
        if r.is_err() {
            *self = save;
        }
        r
    }
    #[inline]
    fn rd(&self, n: u32, pc: u32) -> u32 {
        if n == 15 {
            pc.wrapping_add(8)
        } else {
            self.r[n as usize]
        }
    }
    fn exec_arm(&mut self, m: &mut Mem, pc: u32, i: u32) -> R<()> {
        let cond = i >> 28;
        let unimpl = Err(Trap::Unimpl(pc as u64, i));
        let v6 = self.level == Level::V6k;
        let need6 = |w: &'static str| -> R<()> { if v6 { Ok(()) } else { Err(Trap::Undef(pc as u64, i, w)) } };
        if cond == 15 {
            if i & 0x0e00_0000 == 0x0a00_0000 {
                // BLX imm
                let off = (((i << 8) as i32) >> 6) as u32;
                let h = i >> 23 & 2;
                self.r[14] = pc.wrapping_add(4);
                self.thumb = true;
                self.r[15] = pc.wrapping_add(8).wrapping_add(off).wrapping_add(h);
                return Ok(());
            }
            if i & 0x0d70_f000 == 0x0550_f000 {
                return Ok(()); // PLD
            }
            if i & 0x0fff_ff00 == 0x057f_f000 {
                return Err(Trap::Undef(pc as u64, i, "ARMv7 barrier/clrex encoding"));
            }
            return unimpl;
        }
        if !self.cond(cond) {
            return Ok(());
        }
        let rn = i >> 16 & 15;
        let rd = i >> 12 & 15;
        let rs = i >> 8 & 15;
        let rm = i & 15;
        let t = self.tid;
        match i >> 25 & 7 {
            0 => {
                if i & 0x0fc0_00f0 == 0x90 {
                    // MUL/MLA: rd at 19:16
                    let mut x = self.r[rm as usize].wrapping_mul(self.r[rs as usize]);
                    if i >> 21 & 1 == 1 {
                        x = x.wrapping_add(self.r[rd as usize]);
                    }
                    self.r[rn as usize] = x;
                    if i >> 20 & 1 == 1 {
                        self.setnz(x);
                    }
                    return Ok(());
                }
                if i & 0x0f80_00f0 == 0x0080_0090 {
                    let (a, b) = (self.r[rm as usize], self.r[rs as usize]);
                    let mut x = if i >> 22 & 1 == 1 { (a as i32 as i64 * b as i32 as i64) as u64 } else { a as u64 * b as u64 };
                    if i >> 21 & 1 == 1 {
                        x = x.wrapping_add((self.r[rn as usize] as u64) << 32 | self.r[rd as usize] as u64);
                    }
                    self.r[rd as usize] = x as u32;
                    self.r[rn as usize] = (x >> 32) as u32;
                    if i >> 20 & 1 == 1 {
                        self.n = x >> 63 == 1;
                        self.z = x == 0;
                    }
                    return Ok(());
                }
                if i & 0x0ff0_00f0 == 0x0040_0090 {
                    need6("UMAAL")?;
                    let x = self.r[rm as usize] as u64 * self.r[rs as usize] as u64 + self.r[rn as usize] as u64 + self.r[rd as usize] as u64;
                    self.r[rd as usize] = x as u32;
                    self.r[rn as usize] = (x >> 32) as u32;
                    return Ok(());
                }
                if i & 0x0fb0_0ff0 == 0x0100_0090 {
                    // SWP/SWPB: atomic, no ordering
                    let a = self.r[rn as usize] as u64;
                    let sz = if i >> 22 & 1 == 1 { 1 } else { 4 };
                    let nv = self.r[rm as usize] as u128 & if sz == 1 { 0xff } else { 0xffff_ffff };
                    let o = m.rmw(t, a, sz, Ordg::Plain, &mut |_| Some(nv))?;
                    self.r[rd as usize] = o as u32;
                    return Ok(());
                }
                if i & 0x0f80_00f0 == 0x0180_0090 {
                    need6("exclusive access")?;
                    let sz: u8 = match i >> 21 & 3 {
                        0 => 4,
                        1 => 8,
                        2 => 1,
                        _ => 2,
                    };
                    let a = self.r[rn as usize] as u64;
                    if i >> 20 & 1 == 1 {
                        if i & 0xf0f != 0xf0f {
                            return unimpl;
                        }
                        let v = m.ldex(t, a, sz, Ordg::Plain)?;
                        if sz == 8 {
                            let (lo, hi) = if m.big { ((v >> 32) as u32, v as u32) } else { (v as u32, (v >> 32) as u32) };
                            self.r[rd as usize] = lo;
                            self.r[rd as usize + 1] = hi;
                        } else {
                            self.r[rd as usize] = v as u32;
                        }
                    } else {
                        if i & 0xf00 != 0xf00 {
                            return unimpl;
                        }
                        if rd == rm || rd == rn {
                            return Err(Trap::Undef(pc as u64, i, "STREX with overlapping registers"));
                        }
                        let v = if sz == 8 {
                            let (a0, a1) = (self.r[rm as usize] as u128, self.r[rm as usize + 1] as u128);
                            if m.big { a0 << 32 | a1 } else { a1 << 32 | a0 }
                        } else {
                            self.r[rm as usize] as u128 & ((1u128 << (8 * sz)) - 1)
                        };
                        let ok = m.stex(t, a, sz, v, Ordg::Plain)?;
                        self.r[rd as usize] = !ok as u32;
                    }
                    return Ok(());
                }
                if i & 0x90 == 0x90 {
                    return self.extra_ldst(m, pc, i);
                }
                if i & 0x0190_0000 == 0x0100_0000 {
                    return self.misc(pc, i);
                }
                let (op2, c) = if i >> 4 & 1 == 0 {
                    self.shift(self.rd(rm, pc), i >> 5 & 3, i >> 7 & 31, true)
                } else {
                    if rm == 15 || rn == 15 || rd == 15 || rs == 15 {
                        return unimpl;
                    }
                    self.shift(self.r[rm as usize], i >> 5 & 3, self.r[rs as usize], false)
                };
                self.dp(i, rn, rd, op2, c, pc)
            }
            1 => {
                if i & 0x0190_0000 == 0x0100_0000 {
                    if i & 0x0fff_ff00 == 0x0320_f000 {
                        return if v6 || i & 0xff == 0 { Ok(()) } else { Err(Trap::Undef(pc as u64, i, "hint")) };
                    }
                    if i & 0x0fb0_0000 == 0x0300_0000 {
                        return Err(Trap::Undef(pc as u64, i, "MOVW/MOVT"));
                    }
                    return unimpl;
                }
                let rot = rs * 2;
                let imm = (i & 0xff).rotate_right(rot);
                let c = if rot == 0 { self.c } else { imm >> 31 == 1 };
                self.dp(i, rn, rd, imm, c, pc)
            }
            2 | 3 => {
                let reg = i >> 25 & 1 == 1;
                if reg && i >> 4 & 1 == 1 {
                    return self.media(pc, i);
                }
                let off = if reg { self.shift(self.rd(rm, pc), i >> 5 & 3, i >> 7 & 31, true).0 } else { i & 0xfff };
                let base = self.rd(rn, pc);
                let adj = if i >> 23 & 1 == 1 { base.wrapping_add(off) } else { base.wrapping_sub(off) };
                let pre = i >> 24 & 1 == 1;
                let addr = if pre { adj } else { base };
                let byte = i >> 22 & 1 == 1;
                let wb = !pre || i >> 21 & 1 == 1;
                let sz = if byte { 1 } else { 4 };
                if i >> 20 & 1 == 1 {
                    let v = m.load(t, addr as u64, sz, Ordg::Plain)? as u32;
                    if wb {
                        self.r[rn as usize] = adj;
                    }
                    if rd == 15 {
                        return self.bx(v);
                    }
                    self.r[rd as usize] = v;
                } else {
                    let v = if rd == 15 { pc.wrapping_add(8) } else { self.r[rd as usize] };
                    let v = if byte { v & 0xff } else { v };
                    m.store(t, addr as u64, sz, v as u64, Ordg::Plain)?;
                    if wb {
                        self.r[rn as usize] = adj;
                    }
                }
                Ok(())
            }
            4 => {
                if i >> 22 & 1 == 1 {
                    return unimpl;
                }
                let list = i & 0xffff;
                let n = list.count_ones();
                let base = self.r[rn as usize];
                let up = i >> 23 & 1 == 1;
                let before = i >> 24 & 1 == 1;
                let start = match (up, before) {
                    (true, false) => base,
                    (true, true) => base.wrapping_add(4),
                    (false, false) => base.wrapping_sub(4 * n).wrapping_add(4),
                    (false, true) => base.wrapping_sub(4 * n),
                };
                let fin = if up { base.wrapping_add(4 * n) } else { base.wrapping_sub(4 * n) };
                let load = i >> 20 & 1 == 1;
                let mut a = start;
                let mut vals = [0u32; 16];
                for k in 0..16 {
                    if list >> k & 1 == 1 {
                        if load {
                            vals[k] = m.load(t, a as u64, 4, Ordg::Plain)? as u32;
                        } else {
                            let v = if k == 15 {
                                pc.wrapping_add(8)
                            } else if k as u32 == rn && i >> 21 & 1 == 1 && list & ((1 << k) - 1) != 0 {
                                return unimpl;
                            } else {
                                self.r[k]
                            };
                            m.store(t, a as u64, 4, v as u64, Ordg::Plain)?;
                        }
                        a = a.wrapping_add(4);
                    }
                }
                if i >> 21 & 1 == 1 {
                    self.r[rn as usize] = fin;
                }
                if load {
                    for k in 0..15 {
                        if list >> k & 1 == 1 {
                            self.r[k] = vals[k];
                        }
                    }
                    if list >> 15 & 1 == 1 {
                        return self.bx(vals[15]);
                    }
                }
                Ok(())
            }
            5 => {
                let off = (((i << 8) as i32) >> 6) as u32;
                if i >> 24 & 1 == 1 {
                    self.r[14] = pc.wrapping_add(4);
                }
                self.r[15] = pc.wrapping_add(8).wrapping_add(off);
                Ok(())
            }
            6 => Err(Trap::Undef(pc as u64, i, "coprocessor access")),
            _ => {
                if i >> 24 & 1 == 1 {
                    return Err(Trap::Software(pc as u64, i));
                }
                if v6 && i & 0x0fff_0fff == 0x0e07_0fba {
                    // mcr p15,0,rX,c7,c10,5: DMB
                    m.barrier(t, Barrier::Full);
                    return Ok(());
                }
                if v6 && i & 0x0fff_0fff == 0x0e07_0f9a {
                    m.barrier(t, Barrier::Full);
                    return Ok(());
                }
                if v6 && i & 0x0fff_0fff == 0x0e07_0f95 {
                    return Ok(()); // ISB
                }
                Err(Trap::Undef(pc as u64, i, "coprocessor access"))
            }
        }
    }
    fn extra_ldst(&mut self, m: &mut Mem, pc: u32, i: u32) -> R<()> {
        let rn = i >> 16 & 15;
        let rd = i >> 12 & 15;
        let t = self.tid;
        let off = if i >> 22 & 1 == 1 { i >> 4 & 0xf0 | i & 15 } else { self.r[(i & 15) as usize] };
        let base = self.rd(rn, pc);
        let adj = if i >> 23 & 1 == 1 { base.wrapping_add(off) } else { base.wrapping_sub(off) };
        let pre = i >> 24 & 1 == 1;
        let addr = (if pre { adj } else { base }) as u64;
        let wb = !pre || i >> 21 & 1 == 1;
        if rd == 15 {
            return Err(Trap::Unimpl(pc as u64, i));
        }
        let load = i >> 20 & 1 == 1;
        let op = i >> 5 & 3;
        let mut ld: Option<u32> = None;
        let mut ld2: Option<u32> = None;
        match (load, op) {
            (false, 1) => m.store(t, addr, 2, (self.r[rd as usize] & 0xffff) as u64, Ordg::Plain)?,
            (false, 2) => {
                if rd & 1 != 0 {
                    return Err(Trap::Unimpl(pc as u64, i));
                }
                let al = if self.level == Level::V5te { 8 } else { 4 };
                if addr % al != 0 {
                    return Err(Trap::Align { addr, size: 8 });
                }
                ld = Some(m.load(t, addr, 4, Ordg::Plain)? as u32);
                ld2 = Some(m.load(t, addr + 4, 4, Ordg::Plain)? as u32);
            }
            (false, _) => {
                if rd & 1 != 0 || op == 0 {
                    return Err(Trap::Unimpl(pc as u64, i));
                }
                let al = if self.level == Level::V5te { 8 } else { 4 };
                if addr % al != 0 {
                    return Err(Trap::Align { addr, size: 8 });
                }
                m.store(t, addr, 4, self.r[rd as usize] as u64, Ordg::Plain)?;
                m.store(t, addr + 4, 4, self.r[rd as usize + 1] as u64, Ordg::Plain)?;
            }
            (true, 1) => ld = Some(m.load(t, addr, 2, Ordg::Plain)? as u32),
            (true, 2) => ld = Some(m.load(t, addr, 1, Ordg::Plain)? as u8 as i8 as i32 as u32),
            (true, _) => ld = Some(m.load(t, addr, 2, Ordg::Plain)? as u16 as i16 as i32 as u32),
        }
        if wb {
            self.r[rn as usize] = adj;
        }
        if let Some(v) = ld {
            self.r[rd as usize] = v;
        }
        if let Some(v) = ld2 {
            self.r[rd as usize + 1] = v;
        }
        Ok(())
    }
    fn misc(&mut self, pc: u32, i: u32) -> R<()> {
        let rn = (i >> 16 & 15) as usize;
        let rd = (i >> 12 & 15) as usize;
        let rs = (i >> 8 & 15) as usize;
        let rm = (i & 15) as usize;
        if i & 0x0fff_fff0 == 0x012f_ff10 {
            return self.bx(self.rd(rm as u32, pc));
        }
        if i & 0x0fff_fff0 == 0x012f_ff30 {
            let t = self.r[rm];
            self.r[14] = pc.wrapping_add(4);
            return self.bx(t);
        }
        if i & 0x0fff_0ff0 == 0x016f_0f10 {
            self.r[rd] = self.r[rm].leading_zeros();
            return Ok(());
        }
        if i & 0x0fff_0fff == 0x010f_0000 {
            // MRS CPSR
            self.r[rd] = (self.n as u32) << 31 | (self.z as u32) << 30 | (self.c as u32) << 29 | (self.v as u32) << 28 | (self.q as u32) << 27 | 0x10;
            return Ok(());
        }
        if i & 0x0fff_fff0 == 0x0128_f000 {
            let x = self.r[rm];
            self.n = x >> 31 & 1 == 1;
            self.z = x >> 30 & 1 == 1;
            self.c = x >> 29 & 1 == 1;
            self.v = x >> 28 & 1 == 1;
            self.q = x >> 27 & 1 == 1;
            return Ok(());
        }
        if i & 0x0ff0_00f0 == 0x0120_0070 {
            return Err(Trap::Software(pc as u64, i));
        }
        let sat = |x: i64| -> (u32, bool) {
            if x > i32::MAX as i64 {
                (i32::MAX as u32, true)
            } else if x < i32::MIN as i64 {
                (i32::MIN as u32, true)
            } else {
                (x as i32 as u32, false)
            }
        };
        if i & 0x0f90_0ff0 == 0x0100_0050 {
            let (a, mut b) = (self.r[rm] as i32 as i64, self.r[rn] as i32 as i64);
            if i >> 22 & 1 == 1 {
                let (x, q) = sat(b * 2);
                b = x as i32 as i64;
                self.q |= q;
            }
            let (x, q) = sat(if i >> 21 & 1 == 1 { a - b } else { a + b });
            self.q |= q;
            self.r[rd] = x;
            return Ok(());
        }
        if i & 0x0f90_0090 == 0x0100_0080 {
            // halfword multiplies
            let h = |v: u32, top: bool| -> i64 { if top { (v as i32 >> 16) as i64 } else { v as u16 as i16 as i64 } };
            let y = h(self.r[rs], i >> 6 & 1 == 1);
            let x = i >> 5 & 1 == 1;
            match i >> 21 & 3 {
                0 => {
                    let p = (h(self.r[rm], x) * y) as i32;
                    let (s, o) = p.overflowing_add(self.r[rd] as i32);
                    self.q |= o;
                    self.r[rn] = s as u32;
                }
                1 => {
                    let p = ((self.r[rm] as i32 as i64 * y) >> 16) as i32;
                    if x {
                        self.r[rn] = p as u32;
                    } else {
                        let (s, o) = p.overflowing_add(self.r[rd] as i32);
                        self.q |= o;
                        self.r[rn] = s as u32;
                    }
                }
                2 => {
                    let p = (h(self.r[rm], x) * y) as u64;
                    let acc = (self.r[rn] as u64) << 32 | self.r[rd] as u64;
                    let s = acc.wrapping_add(p);
                    self.r[rd] = s as u32;
                    self.r[rn] = (s >> 32) as u32;
                }
                _ => self.r[rn] = (h(self.r[rm], x) * y) as i32 as u32,
            }
            return Ok(());
        }
        Err(Trap::Unimpl(pc as u64, i))
    }
    fn media(&mut self, pc: u32, i: u32) -> R<()> {
        if i & 0x0ff0_00f0 == 0x07f0_00f0 {
            return Err(Trap::Software(pc as u64, i));
        }
        if self.level != Level::V6k {
            return Err(Trap::Undef(pc as u64, i, "ARMv6 media instruction"));
        }
        let rn = (i >> 16 & 15) as usize;
        let rd = (i >> 12 & 15) as usize;
        let rm = (i & 15) as usize;
        if i & 0x0f80_03f0 == 0x0680_0070 {
            let v = self.r[rm].rotate_right((i >> 10 & 3) * 8);
            let x = match i >> 20 & 7 {
                2 => v as u8 as i8 as i32 as u32,
                3 => v as u16 as i16 as i32 as u32,
                6 => v & 0xff,
                7 => v & 0xffff,
                _ => return Err(Trap::Unimpl(pc as u64, i)),
            };
            self.r[rd] = if rn == 15 { x } else { self.r[rn].wrapping_add(x) };
            return Ok(());
        }
        if i & 0x0fff_0ff0 == 0x06bf_0f30 {
            self.r[rd] = self.r[rm].swap_bytes();
            return Ok(());
        }
        if i & 0x0fff_0ff0 == 0x06bf_0fb0 {
            let v = self.r[rm].swap_bytes();
            self.r[rd] = v.rotate_right(16);
            return Ok(());
        }
        if i & 0x0fff_0ff0 == 0x06ff_0fb0 {
            self.r[rd] = (self.r[rm] as u16).swap_bytes() as i16 as i32 as u32;
            return Ok(());
        }
        if i & 0x0ff0_0030 == 0x0680_0010 {
            let (s, _) = self.shift(self.r[rm], if i >> 6 & 1 == 1 { 2 } else { 0 }, i >> 7 & 31, true);
            self.r[rd] = if i >> 6 & 1 == 1 { self.r[rn] & 0xffff_0000 | s & 0xffff } else { self.r[rn] & 0xffff | s & 0xffff_0000 };
            return Ok(());
        }
        Err(Trap::Unimpl(pc as u64, i))
    }
    fn dp(&mut self, i: u32, rn: u32, rd: u32, b: u32, c: bool, pc: u32) -> R<()> {
        let s = i >> 20 & 1 == 1;
        // with a register-shifted operand PC reads differ, excluded by the caller
        let a = self.rd(rn, pc);
        let cin = self.c;
        let op = i >> 21 & 15;
        let fs = s && rd != 15 || matches!(op, 8..=11);
        if s && rd == 15 && !matches!(op, 8..=11) {
            return Err(Trap::Unimpl(pc as u64, i));
        }
        let x = match op {
            0 | 8 => a & b,
            1 | 9 => a ^ b,
            2 | 10 => self.addc(a, !b, true, fs),
            3 => self.addc(b, !a, true, fs),
            4 | 11 => self.addc(a, b, false, fs),
            5 => self.addc(a, b, cin, fs),
            6 => self.addc(a, !b, cin, fs),
            7 => self.addc(b, !a, cin, fs),
            12 => a | b,
            13 => b,
            14 => a & !b,
            _ => !b,
        };
        if fs && matches!(op, 0 | 1 | 8 | 9 | 12..=15) {
            self.setnz(x);
            self.c = c;
        }
        if !matches!(op, 8..=11) {
            if rd == 15 {
                self.r[15] = x & !3;
            } else {
                self.r[rd as usize] = x;
            }
        }
        Ok(())
    }
}
