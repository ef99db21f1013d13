//! A64 interpreter: integer instructions, all loads/stores, exclusives, LSE atomics, barriers.
use super::mem::*;

#[derive(Clone, Debug)]
pub struct Cpu64 {
    pub x: [u64; 32], // x[31] unused
    pub sp: u64,
    pub pc: u64,
    pub v: [u128; 32],
    pub n: bool,
    pub z: bool,
    pub c: bool,
    pub vf: bool,
    pub lse: bool,
    pub tid: usize,
    /// A 128-bit exclusive load whose two halves are performed separately: (first half value,
    /// which half came first).
    pub half: Option<(u64, bool)>,
    pub torn: u64,
    half_saved: Option<(u64, bool)>,
}

fn sext(v: u64, bits: u32) -> u64 {
    ((v << (64 - bits)) as i64 >> (64 - bits)) as u64
}

fn ones(n: u32) -> u64 {
    if n >= 64 {
        !0
    } else {
        (1 << n) - 1
    }
}

/// DecodeBitMasks
fn bitmask(n: u32, imms: u32, immr: u32, is64: bool) -> Option<(u64, u64)> {
    let len = 31u32.checked_sub(((n << 6) | (!imms & 0x3f)).leading_zeros())?;
    if len < 1 && !(n == 1) {
        return None;
    }
    let size = 1u32 << len;
    if !is64 && size == 64 {
        return None;
    }
    let levels = size - 1;
    let s = imms & levels;
    let r = immr & levels;
    let d = s.wrapping_sub(r) & levels;
    let welem = ones(s + 1);
    let telem = ones(d + 1);
    let ror = |v: u64, r: u32, sz: u32| -> u64 {
        if r == 0 {
            v
        } else {
            (v >> r | v << (sz - r)) & ones(sz)
        }
    };
    let rep = |v: u64, sz: u32| -> u64 {
        let mut o = 0;
        let mut k = 0;
        while k < 64 {
            o |= v << k;
            k += sz;
        }
        o
    };
    Some((rep(ror(welem, r, size), size), rep(telem, size)))
}

impl Cpu64 {
    pub fn new(tid: usize, lse: bool) -> Cpu64 {
        Cpu64 { x: [0; 32], sp: 0, pc: 0, v: [0; 32], n: false, z: false, c: false, vf: false, lse, tid, half: None, torn: 0, half_saved: None }
    }
    #[inline]
    fn r(&self, n: u32) -> u64 {
        if n == 31 {
            0
        } else {
            self.x[n as usize]
        }
    }
    #[inline]
    fn rsp(&self, n: u32) -> u64 {
        if n == 31 {
            self.sp
        } else {
            self.x[n as usize]
        }
    }
    #[inline]
    fn w(&mut self, n: u32, v: u64, is64: bool) {
        if n != 31 {
            self.x[n as usize] = if is64 { v } else { v & 0xffff_ffff };
        }
    }
    fn wsp(&mut self, n: u32, v: u64, is64: bool) {
        let v = if is64 { v } else { v & 0xffff_ffff };
        if n == 31 {
            self.sp = v;
        } else {
            self.x[n as usize] = v;
        }
    }
    fn cond(&self, c: u32) -> bool {
        let r = match c >> 1 {
            0 => self.z,
            1 => self.c,
            2 => self.n,
            3 => self.vf,
            4 => self.c && !self.z,
            5 => self.n == self.vf,
            6 => self.n == self.vf && !self.z,
            _ => return true,
        };
        r != (c & 1 == 1)
    }
    fn addc(&mut self, a: u64, b: u64, cin: bool, is64: bool, s: bool) -> u64 {
        if is64 {
            let (x, c1) = a.overflowing_add(b);
            let (x, c2) = x.overflowing_add(cin as u64);
            if s {
                self.n = x >> 63 == 1;
                self.z = x == 0;
                self.c = c1 || c2;
                self.vf = ((a ^ x) & (b ^ x)) >> 63 == 1;
            }
            x
        } else {
            let (a, b) = (a as u32, b as u32);
            let (x, c1) = a.overflowing_add(b);
            let (x, c2) = x.overflowing_add(cin as u32);
            if s {
                self.n = x >> 31 == 1;
                self.z = x == 0;
                self.c = c1 || c2;
                self.vf = ((a ^ x) & (b ^ x)) >> 31 == 1;
            }
            x as u64
        }
    }
    fn logic_flags(&mut self, x: u64, is64: bool) {
        self.n = if is64 { x >> 63 == 1 } else { x >> 31 & 1 == 1 };
        self.z = if is64 { x == 0 } else { x as u32 == 0 };
        self.c = false;
        self.vf = false;
    }
    fn shift(v: u64, ty: u32, amt: u32, is64: bool) -> u64 {
        if is64 {
            match ty {
                0 => v << amt,
                1 => v >> amt,
                2 => ((v as i64) >> amt) as u64,
                _ => v.rotate_right(amt),
            }
        } else {
            let v = v as u32;
            (match ty {
                0 => v << amt,
                1 => v >> amt,
                2 => ((v as i32) >> amt) as u32,
                _ => v.rotate_right(amt),
            }) as u64
        }
    }
    pub fn step(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.pc;
        if pc & 3 != 0 {
            return Err(Trap::Fetch(pc));
        }
        let i = m.fetch32(pc).map(|i| if m.big { i.swap_bytes() } else { i })?;
        self.half_saved = self.half.take();
        self.pc = pc.wrapping_add(4);
        let r = self.exec(m, pc, i);
        if r.is_err() {
            self.pc = pc;
        }
        r
    }
    fn exec(&mut self, m: &mut Mem, pc: u64, i: u32) -> R<()> {
        let sf = i >> 31 == 1;
        let rd = i & 31;
        let rn = i >> 5 & 31;
        let rm = i >> 16 & 31;
        let unimpl = Err(Trap::Unimpl(pc, i));
        match i >> 25 & 15 {
            8 | 9 => match i >> 23 & 7 {
                0 | 1 => {
                    let imm = sext(((i >> 5 & 0x7ffff) << 2 | i >> 29 & 3) as u64, 21);
                    let v = if sf { (pc & !0xfff).wrapping_add(imm << 12) } else { pc.wrapping_add(imm) };
                    self.w(rd, v, true);
                    Ok(())
                }
                2 => {
                    let mut imm = (i >> 10 & 0xfff) as u64;
                    if i >> 22 & 1 == 1 {
                        imm <<= 12;
                    }
                    let a = self.rsp(rn);
                    let s = i >> 29 & 1 == 1;
                    let x = if i >> 30 & 1 == 1 { self.addc(a, !imm, true, sf, s) } else { self.addc(a, imm, false, sf, s) };
                    if s {
                        self.w(rd, x, sf);
                    } else {
                        self.wsp(rd, x, sf);
                    }
                    Ok(())
                }
                4 => {
                    let Some((wm, _)) = bitmask(i >> 22 & 1, i >> 10 & 0x3f, i >> 16 & 0x3f, sf) else { return Err(Trap::Undef(pc, i, "bitmask")) };
                    let a = self.r(rn);
                    match i >> 29 & 3 {
                        0 => self.wsp(rd, a & wm, sf),
                        1 => self.wsp(rd, a | wm, sf),
                        2 => self.wsp(rd, a ^ wm, sf),
                        _ => {
                            let x = a & wm;
                            self.logic_flags(x, sf);
                            self.w(rd, x, sf);
                        }
                    }
                    Ok(())
                }
                5 => {
                    let sh = (i >> 21 & 3) * 16;
                    let imm = (i >> 5 & 0xffff) as u64;
                    match i >> 29 & 3 {
                        0 => self.w(rd, !(imm << sh), sf),
                        2 => self.w(rd, imm << sh, sf),
                        3 => {
                            let o = self.r(rd);
                            self.w(rd, o & !(0xffff << sh) | imm << sh, sf);
                        }
                        _ => return unimpl,
                    }
                    Ok(())
                }
                6 => {
                    let (immr, imms) = (i >> 16 & 0x3f, i >> 10 & 0x3f);
                    let Some((wm, tm)) = bitmask(i >> 22 & 1, imms, immr, sf) else { return Err(Trap::Undef(pc, i, "bitfield")) };
                    let src = self.r(rn);
                    let rot = Self::shift(src, 3, immr, sf);
                    let dst = self.r(rd);
                    let x = match i >> 29 & 3 {
                        0 => {
                            let bot = rot & wm;
                            let top = if src >> imms & 1 == 1 { !0u64 } else { 0 };
                            top & !tm | bot & tm
                        }
                        1 => {
                            let bot = dst & !wm | rot & wm;
                            dst & !tm | bot & tm
                        }
                        2 => rot & wm & tm,
                        _ => return unimpl,
                    };
                    self.w(rd, x, sf);
                    Ok(())
                }
                7 => {
                    let lsb = i >> 10 & 0x3f;
                    let (a, b) = (self.r(rn), self.r(rm));
                    let x = if sf { (((a as u128) << 64 | b as u128) >> lsb) as u64 } else { ((((a as u32 as u64) << 32) | b as u32 as u64) >> lsb) as u32 as u64 };
                    self.w(rd, x, sf);
                    Ok(())
                }
                _ => unimpl,
            },
            10 | 11 => self.branch(m, pc, i),
            4 | 6 | 12 | 14 => self.ldst(m, pc, i),
            5 | 13 => self.dpreg(pc, i),
            _ => unimpl,
        }
    }
    fn branch(&mut self, m: &mut Mem, pc: u64, i: u32) -> R<()> {
        if i >> 26 & 0x1f == 5 {
            let off = sext((i & 0x3ff_ffff) as u64, 26) << 2;
            if i >> 31 == 1 {
                self.x[30] = pc + 4;
            }
            self.pc = pc.wrapping_add(off);
            return Ok(());
        }
        if i >> 24 == 0x54 && i >> 4 & 1 == 0 {
            if self.cond(i & 15) {
                self.pc = pc.wrapping_add(sext((i >> 5 & 0x7ffff) as u64, 19) << 2);
            }
            return Ok(());
        }
        if i >> 25 & 0x3f == 0x1a {
            let v = self.r(i & 31);
            let z = if i >> 31 == 1 { v == 0 } else { v as u32 == 0 };
            if z != (i >> 24 & 1 == 1) {
                self.pc = pc.wrapping_add(sext((i >> 5 & 0x7ffff) as u64, 19) << 2);
            }
            return Ok(());
        }
        if i >> 25 & 0x3f == 0x1b {
            let bit = i >> 31 << 5 | i >> 19 & 31;
            let v = self.r(i & 31) >> bit & 1;
            if (v == 1) == (i >> 24 & 1 == 1) {
                self.pc = pc.wrapping_add(sext((i >> 5 & 0x3fff) as u64, 14) << 2);
            }
            return Ok(());
        }
        if i & 0xff9f_fc1f == 0xd61f_0000 {
            let t = self.r(i >> 5 & 31);
            match i >> 21 & 3 {
                0 | 2 => {}
                1 => self.x[30] = pc + 4,
                _ => return Err(Trap::Unimpl(pc, i)),
            }
            self.pc = t;
            return Ok(());
        }
        if i & 0xffff_f01f == 0xd503_201f {
            return Ok(()); // hints
        }
        if i & 0xffff_f01f == 0xd503_301f {
            match i >> 5 & 7 {
                2 => m.clrex(self.tid),
                4 | 5 => {
                    // DSB/DMB
                    let k = match i >> 8 & 3 {
                        1 => Barrier::Load,
                        2 => Barrier::Store,
                        _ => Barrier::Full,
                    };
                    m.barrier(self.tid, k);
                }
                6 => {}
                _ => return Err(Trap::Unimpl(pc, i)),
            }
            return Ok(());
        }
        if i & 0xffe0_001f == 0xd420_0000 || i & 0xffe0_001f == 0xd400_0001 {
            return Err(Trap::Software(pc, i));
        }
        if i >> 16 == 0 {
            return Err(Trap::Software(pc, i));
        }
        Err(Trap::Unimpl(pc, i))
    }
    fn dpreg(&mut self, pc: u64, i: u32) -> R<()> {
        let sf = i >> 31 == 1;
        let rd = i & 31;
        let rn = i >> 5 & 31;
        let rm = i >> 16 & 31;
        let unimpl = Err(Trap::Unimpl(pc, i));
        let bits = if sf { 64 } else { 32 };
        if i >> 28 & 1 == 0 {
            if i >> 24 & 1 == 0 {
                // logical shifted
                let amt = i >> 10 & 0x3f;
                if amt >= bits {
                    return Err(Trap::Undef(pc, i, "shift"));
                }
                let mut b = Self::shift(self.r(rm), i >> 22 & 3, amt, sf);
                if i >> 21 & 1 == 1 {
                    b = !b;
                }
                let a = self.r(rn);
                let x = match i >> 29 & 3 {
                    0 | 3 => a & b,
                    1 => a | b,
                    _ => a ^ b,
                };
                if i >> 29 & 3 == 3 {
                    self.logic_flags(x, sf);
                }
                self.w(rd, x, sf);
                return Ok(());
            }
            let sub = i >> 30 & 1 == 1;
            let s = i >> 29 & 1 == 1;
            if i >> 21 & 1 == 0 {
                let amt = i >> 10 & 0x3f;
                if amt >= bits {
                    return Err(Trap::Undef(pc, i, "shift"));
                }
                let b = Self::shift(self.r(rm), i >> 22 & 3, amt, sf);
                let a = self.r(rn);
                let x = if sub { self.addc(a, !b, true, sf, s) } else { self.addc(a, b, false, sf, s) };
                self.w(rd, x, sf);
            } else {
                let b = self.extend(rm, i >> 13 & 7, i >> 10 & 7);
                let a = self.rsp(rn);
                let x = if sub { self.addc(a, !b, true, sf, s) } else { self.addc(a, b, false, sf, s) };
                if s {
                    self.w(rd, x, sf);
                } else {
                    self.wsp(rd, x, sf);
                }
            }
            return Ok(());
        }
        match i >> 21 & 15 {
            0 => {
                if i >> 10 & 0x3f != 0 {
                    return unimpl;
                }
                let (a, b) = (self.r(rn), self.r(rm));
                let s = i >> 29 & 1 == 1;
                let c = self.c;
                let x = if i >> 30 & 1 == 1 { self.addc(a, !b, c, sf, s) } else { self.addc(a, b, c, sf, s) };
                self.w(rd, x, sf);
                Ok(())
            }
            2 => {
                // conditional compare
                let b = if i >> 11 & 1 == 1 { rm as u64 } else { self.r(rm) };
                let a = self.r(rn);
                if self.cond(i >> 12 & 15) {
                    if i >> 30 & 1 == 1 {
                        self.addc(a, !b, true, sf, true);
                    } else {
                        self.addc(a, b, false, sf, true);
                    }
                } else {
                    self.n = i >> 3 & 1 == 1;
                    self.z = i >> 2 & 1 == 1;
                    self.c = i >> 1 & 1 == 1;
                    self.vf = i & 1 == 1;
                }
                Ok(())
            }
            4 => {
                let x = if self.cond(i >> 12 & 15) {
                    self.r(rn)
                } else {
                    let mut b = self.r(rm);
                    if i >> 30 & 1 == 1 {
                        b = !b;
                    }
                    if i >> 10 & 1 == 1 {
                        b = b.wrapping_add(1);
                    }
                    b
                };
                self.w(rd, x, sf);
                Ok(())
            }
            6 => {
                let a = self.r(rn);
                if i >> 30 & 1 == 1 {
                    let x = match i >> 10 & 0x3f {
                        0 => {
                            if sf {
                                a.reverse_bits()
                            } else {
                                (a as u32).reverse_bits() as u64
                            }
                        }
                        1 => {
                            let s = (a & 0x00ff_00ff_00ff_00ff) << 8;
                            s | a >> 8 & 0x00ff_00ff_00ff_00ff
                        }
                        2 => {
                            if sf {
                                (a as u32).swap_bytes() as u64 | ((a >> 32) as u32).swap_bytes() as u64 as u64 * (1 << 32)
                            } else {
                                (a as u32).swap_bytes() as u64
                            }
                        }
                        3 => a.swap_bytes(),
                        4 => (if sf { a.leading_zeros() } else { (a as u32).leading_zeros() }) as u64,
                        5 => {
                            if sf {
                                (a ^ ((a as i64) << 1) as u64 | 1).leading_zeros() as u64
                            } else {
                                let a = a as u32;
                                (a ^ a << 1 | 1).leading_zeros() as u64
                            }
                        }
                        _ => return unimpl,
                    };
                    self.w(rd, x, sf);
                    return Ok(());
                }
                let b = self.r(rm);
                let x = match i >> 10 & 0x3f {
                    2 => {
                        if sf {
                            a.checked_div(b).unwrap_or(0)
                        } else {
                            (a as u32).checked_div(b as u32).unwrap_or(0) as u64
                        }
                    }
                    3 => {
                        if sf {
                            if b == 0 { 0 } else { (a as i64).wrapping_div(b as i64) as u64 }
                        } else if b as u32 == 0 {
                            0
                        } else {
                            (a as i32).wrapping_div(b as i32) as u32 as u64
                        }
                    }
                    k @ 8..=11 => Self::shift(a, k - 8, b as u32 & (bits - 1), sf),
                    _ => return unimpl,
                };
                self.w(rd, x, sf);
                Ok(())
            }
            8..=15 => {
                let ra = i >> 10 & 31;
                let (a, b) = (self.r(rn), self.r(rm));
                let sub = i >> 15 & 1 == 1;
                match i >> 21 & 7 {
                    0 => {
                        let p = a.wrapping_mul(b);
                        let c = self.r(ra);
                        self.w(rd, if sub { c.wrapping_sub(p) } else { c.wrapping_add(p) }, sf);
                    }
                    1 | 5 => {
                        let p = if i >> 23 & 1 == 0 { (a as i32 as i64 * b as i32 as i64) as u64 } else { a as u32 as u64 * (b as u32 as u64) };
                        let c = self.r(ra & 31);
                        let c = if ra == 31 { 0 } else { c };
                        self.w(rd, if sub { c.wrapping_sub(p) } else { c.wrapping_add(p) }, true);
                    }
                    2 => self.w(rd, ((a as i64 as i128 * b as i64 as i128) >> 64) as u64, true),
                    6 => self.w(rd, ((a as u128 * b as u128) >> 64) as u64, true),
                    _ => return unimpl,
                }
                Ok(())
            }
            _ => unimpl,
        }
    }
    fn extend(&self, rm: u32, opt: u32, sh: u32) -> u64 {
        let v = self.r(rm);
        let e = match opt {
            0 => v & 0xff,
            1 => v & 0xffff,
            2 => v & 0xffff_ffff,
            3 => v,
            4 => v as u8 as i8 as i64 as u64,
            5 => v as u16 as i16 as i64 as u64,
            6 => v as u32 as i32 as i64 as u64,
            _ => v,
        };
        e << sh
    }
    fn need_lse(&self, pc: u64, i: u32) -> R<()> {
        if self.lse {
            Ok(())
        } else {
            Err(Trap::Undef(pc, i, "LSE instruction on a core without LSE"))
        }
    }
    fn ldst(&mut self, m: &mut Mem, pc: u64, i: u32) -> R<()> {
        let rt = i & 31;
        let rn = i >> 5 & 31;
        let rs = i >> 16 & 31;
        let rt2 = i >> 10 & 31;
        let t = self.tid;
        let size = i >> 30;
        let unimpl = Err(Trap::Unimpl(pc, i));
        if i >> 24 & 0x3f == 8 {
            let sz = 1u8 << size;
            let (o2, l, o1, o0) = (i >> 23 & 1 == 1, i >> 22 & 1 == 1, i >> 21 & 1 == 1, i >> 15 & 1 == 1);
            let a = self.rsp(rn);
            if a & 15 != 0 && rn == 31 {
                return Err(Trap::Align { addr: a, size: 16 });
            }
            return match (o2, o1) {
                (false, false) => {
                    if l {
                        let v = m.ldex(t, a, sz, Ordg::of(o0, false))?;
                        self.w(rt, v as u64, true);
                    } else {
                        if rs == rt && rs != 31 || rs == rn && rn != 31 {
                            return Err(Trap::Undef(pc, i, "STXR with overlapping registers"));
                        }
                        let v = self.r(rt) as u128 & ones(8 * sz as u32) as u128;
                        let ok = m.stex(t, a, sz, v, Ordg::of(false, o0))?;
                        self.w(rs, !ok as u64, true);
                    }
                    Ok(())
                }
                (false, true) if size >= 2 => {
                    let half = if size == 3 { 8u8 } else { 4 };
                    let hb = 8 * half as u32;
                    if l {
                        if half == 8 {
                            // The two halves of a 128-bit exclusive load are separate accesses.
                            match self.half_saved.take() {
                                None => {
                                    let v = m.ldex(t, a, 16, Ordg::of(o0, false))?;
                                    let hi_first = m.tape.chance(crate::tape::FAULT, 1, 2);
                                    let (mut lo, mut hi) = (v as u64, (v >> 64) as u64);
                                    if m.big {
                                        std::mem::swap(&mut lo, &mut hi);
                                    }
                                    self.half = Some((if hi_first { hi } else { lo }, hi_first));
                                    self.pc = pc;
                                    return Ok(());
                                }
                                Some((v, hi_first)) => {
                                    let oa = if hi_first { a } else { a + 8 };
                                    let o = m.load_al(t, oa, 8, Ordg::of(o0, false), 8)? as u64;
                                    if m.monitors[t].is_none() {
                                        self.torn += 1;
                                    }
                                    let (lo, hi) = if hi_first { (o, v) } else { (v, o) };
                                    self.w(rt, lo, true);
                                    self.w(rt2, hi, true);
                                    return Ok(());
                                }
                            }
                        }
                        let v = m.ldex(t, a, 2 * half, Ordg::of(o0, false))?;
                        let (lo, hi) = (v as u64 & ones(hb), (v >> hb) as u64);
                        self.w(rt, lo, true);
                        self.w(rt2, hi, true);
                    } else {
                        if rs != 31 && (rs == rt || rs == rt2 || rs == rn) {
                            return Err(Trap::Undef(pc, i, "STXP with overlapping registers"));
                        }
                        let mk = ones(hb) as u128;
                        let v = (self.r(rt) as u128 & mk) | (self.r(rt2) as u128 & mk) << hb;
                        let ok = m.stex(t, a, 2 * half, v, Ordg::of(false, o0))?;
                        self.w(rs, !ok as u64, true);
                    }
                    Ok(())
                }
                (false, true) => {
                    // CASP
                    self.need_lse(pc, i)?;
                    if rt2 != 31 || rs & 1 != 0 || rt & 1 != 0 {
                        return Err(Trap::Undef(pc, i, "CASP registers"));
                    }
                    let hb = if size == 1 { 64 } else { 32 };
                    let mk = ones(hb) as u128;
                    let e = (self.r(rs) as u128 & mk) | (self.r(rs + 1) as u128 & mk) << hb;
                    let d = (self.r(rt) as u128 & mk) | (self.r(rt + 1) as u128 & mk) << hb;
                    let o = m.rmw(t, a, (hb / 4) as u8, Ordg::of(l, o0), &mut |v| if v == e { Some(d) } else { None })?;
                    self.w(rs, (o & mk) as u64, true);
                    self.w(rs + 1, (o >> hb) as u64, true);
                    Ok(())
                }
                (true, false) => {
                    if l {
                        let v = m.load_al(t, a, sz, Ordg::Acq, sz)?;
                        self.w(rt, v as u64, true);
                    } else {
                        let v = self.r(rt) as u128 & ones(8 * sz as u32) as u128;
                        m.store_al(t, a, sz, v, Ordg::Rel, sz)?;
                    }
                    Ok(())
                }
                (true, true) => {
                    self.need_lse(pc, i)?;
                    if rt2 != 31 {
                        return unimpl;
                    }
                    let mk = ones(8 * sz as u32) as u128;
                    let e = self.r(rs) as u128 & mk;
                    let d = self.r(rt) as u128 & mk;
                    let o = m.rmw(t, a, sz, Ordg::of(l, o0), &mut |v| if v == e { Some(d) } else { None })?;
                    self.w(rs, o as u64, true);
                    Ok(())
                }
            };
        }
        let vec = i >> 26 & 1 == 1;
        match i >> 27 & 7 {
            5 => {
                // pairs
                let mode = i >> 23 & 3;
                let l = i >> 22 & 1 == 1;
                let (sz, signed) = if vec {
                    (4u8 << size, false)
                } else {
                    match size {
                        0 => (4, false),
                        1 => (4, true),
                        2 => (8, false),
                        _ => return unimpl,
                    }
                };
                let off = sext((i >> 15 & 0x7f) as u64, 7).wrapping_mul(sz as u64);
                let base = self.rsp(rn);
                let a = if mode == 1 { base } else { base.wrapping_add(off) };
                for (k, r) in [rt, rt2].into_iter().enumerate() {
                    let ad = a.wrapping_add(k as u64 * sz as u64);
                    if l {
                        let v = m.load_al(t, ad, sz, Ordg::Plain, 1)?;
                        if vec {
                            self.v[r as usize] = v;
                        } else {
                            self.w(r, if signed { sext(v as u64, 32) } else { v as u64 }, true);
                        }
                    } else {
                        let v = if vec { self.v[r as usize] } else { self.r(r) as u128 };
                        let v = if sz == 16 { v } else { v & ones(8 * sz as u32) as u128 };
                        m.store_al(t, ad, sz, v, Ordg::Plain, 1)?;
                    }
                }
                if mode == 1 || mode == 3 {
                    self.wsp(rn, base.wrapping_add(off), true);
                }
                Ok(())
            }
            3 if i >> 24 & 1 == 0 => {
                let a = pc.wrapping_add(sext((i >> 5 & 0x7ffff) as u64, 19) << 2);
                if vec {
                    self.v[rt as usize] = m.load_al(t, a, 4 << size, Ordg::Plain, 1)?;
                } else {
                    let v = m.load_al(t, a, if size == 1 { 8 } else { 4 }, Ordg::Plain, 1)? as u64;
                    self.w(rt, if size == 2 { sext(v, 32) } else { v }, true);
                }
                Ok(())
            }
            7 => {
                let opc = i >> 22 & 3;
                let sz = if vec { if opc >= 2 { 16 } else { 1u8 << size } } else { 1u8 << size };
                let base = self.rsp(rn);
                let (a, wb) = if i >> 24 & 1 == 1 {
                    (base.wrapping_add((i >> 10 & 0xfff) as u64 * sz as u64), None)
                } else if i >> 21 & 1 == 1 {
                    match i >> 10 & 3 {
                        2 => {
                            let sh = if i >> 12 & 1 == 1 { sz.trailing_zeros() } else { 0 };
                            (base.wrapping_add(self.extend(rs, i >> 13 & 7, sh)), None)
                        }
                        0 if !vec => return self.atomic(m, pc, i),
                        _ => return unimpl,
                    }
                } else {
                    let off = sext((i >> 12 & 0x1ff) as u64, 9);
                    match i >> 10 & 3 {
                        0 => (base.wrapping_add(off), None),
                        1 => (base, Some(base.wrapping_add(off))),
                        3 => (base.wrapping_add(off), Some(base.wrapping_add(off))),
                        _ => return unimpl,
                    }
                };
                if vec {
                    if opc & 1 == 1 {
                        self.v[rt as usize] = m.load_al(t, a, sz, Ordg::Plain, 1)?;
                    } else {
                        let v = self.v[rt as usize];
                        let v = if sz == 16 { v } else { v & ones(8 * sz as u32) as u128 };
                        m.store_al(t, a, sz, v, Ordg::Plain, 1)?;
                    }
                } else {
                    match opc {
                        0 => {
                            let v = self.r(rt) & ones(8 * sz as u32);
                            m.store_al(t, a, sz, v as u128, Ordg::Plain, 1)?;
                        }
                        1 => {
                            let v = m.load_al(t, a, sz, Ordg::Plain, 1)? as u64;
                            self.w(rt, v, true);
                        }
                        _ => {
                            if size == 3 {
                                return if opc == 2 { Ok(()) } else { unimpl }; // PRFM
                            }
                            let v = m.load_al(t, a, sz, Ordg::Plain, 1)? as u64;
                            let v = sext(v, 8 * sz as u32);
                            self.w(rt, v, opc == 2);
                        }
                    }
                }
                if let Some(n) = wb {
                    self.wsp(rn, n, true);
                }
                Ok(())
            }
            _ => unimpl,
        }
    }
    fn atomic(&mut self, m: &mut Mem, pc: u64, i: u32) -> R<()> {
        let rt = i & 31;
        let rn = i >> 5 & 31;
        let rs = i >> 16 & 31;
        let sz = 1u8 << (i >> 30);
        let (a, r) = (i >> 23 & 1 == 1, i >> 22 & 1 == 1);
        let op = i >> 12 & 7;
        let addr = self.rsp(rn);
        self.need_lse(pc, i)?;
        let mk = ones(8 * sz as u32);
        if i >> 15 & 1 == 1 {
            match op {
                0 => {
                    let n = self.r(rs) & mk;
                    let o = m.rmw(self.tid, addr, sz, Ordg::of(a, r), &mut |_| Some(n as u128))?;
                    self.w(rt, o as u64, true);
                    return Ok(());
                }
                4 if a && !r && rs == 31 => {
                    let v = m.load_al(self.tid, addr, sz, Ordg::Acq, sz)?;
                    self.w(rt, v as u64, true);
                    return Ok(());
                }
                _ => return Err(Trap::Unimpl(pc, i)),
            }
        }
        let b = self.r(rs) & mk;
        let bits = 8 * sz as u32;
        let s = |v: u64| sext(v, bits) as i64;
        let acq = a && rt != 31;
        let o = m.rmw(self.tid, addr, sz, Ordg::of(acq, r), &mut |v| {
            let v = v as u64;
            let n = match op {
                0 => v.wrapping_add(b),
                1 => v & !b,
                2 => v ^ b,
                3 => v | b,
                4 => if s(v) > s(b) { v } else { b },
                5 => if s(v) < s(b) { v } else { b },
                6 => v.max(b),
                _ => v.min(b),
            };
            Some((n & mk) as u128)
        })?;
        self.w(rt, o as u64, true);
        Ok(())
    }
}
