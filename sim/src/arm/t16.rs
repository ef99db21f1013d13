//! 16-bit Thumb interpreter (with the BL/BLX pair).
use super::a32::{Cpu32, Level};
use super::mem::*;

impl Cpu32 {
    pub fn step_thumb(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.r[15];
        if pc & 1 != 0 {
            return Err(Trap::Fetch(pc as u64));
        }
        let i = m.fetch16(pc as u64)? as u32;
        let save = self.clone();
        self.r[15] = pc.wrapping_add(2);
        let r = self.exec_thumb(m, pc, i);
        if r.is_err() {
            *self = save;
        }
        r
    }
    fn exec_thumb(&mut self, m: &mut Mem, pc: u32, i: u32) -> R<()> {
        let t = self.tid;
        let unimpl = Err(Trap::Unimpl(pc as u64, i));
        let lo = |x: u32| (x & 7) as usize;
        let (rd, rn, rm) = (lo(i), lo(i >> 3), lo(i >> 6));
        let pcv = pc.wrapping_add(4);
        let v6 = self.level == Level::V6k;
        match i >> 11 {
            0..=2 => {
                let (x, c) = self.shift(self.r[rn], i >> 11, i >> 6 & 31, true);
                self.r[rd] = x;
                self.setnz(x);
                self.c = c;
            }
            3 => {
                let b = if i >> 10 & 1 == 1 { i >> 6 & 7 } else { self.r[rm] };
                let a = self.r[rn];
                self.r[rd] = if i >> 9 & 1 == 1 { self.addc(a, !b, true, true) } else { self.addc(a, b, false, true) };
            }
            4..=7 => {
                let r = lo(i >> 8);
                let imm = i & 0xff;
                let a = self.r[r];
                match i >> 11 & 3 {
                    0 => {
                        self.r[r] = imm;
                        self.setnz(imm);
                    }
                    1 => {
                        self.addc(a, !imm, true, true);
                    }
                    2 => self.r[r] = self.addc(a, imm, false, true),
                    _ => self.r[r] = self.addc(a, !imm, true, true),
                }
            }
            8 => {
                if i >> 10 & 1 == 0 {
                    // data processing
                    let (a, b) = (self.r[rd], self.r[rn]);
                    let mut w = true;
                    let x;
                    match i >> 6 & 15 {
                        0 => x = a & b,
                        1 => x = a ^ b,
                        k @ (2 | 3 | 4 | 7) => {
                            let ty = match k {
                                2 => 0,
                                3 => 1,
                                4 => 2,
                                _ => 3,
                            };
                            let (s, c) = self.shift(a, ty, b, false);
                            self.c = c;
                            x = s;
                        }
                        5 => {
                            self.r[rd] = self.addc(a, b, self.c, true);
                            return Ok(());
                        }
                        6 => {
                            self.r[rd] = self.addc(a, !b, self.c, true);
                            return Ok(());
                        }
                        8 => {
                            x = a & b;
                            w = false;
                        }
                        9 => {
                            self.r[rd] = self.addc(0, !b, true, true);
                            return Ok(());
                        }
                        10 => {
                            self.addc(a, !b, true, true);
                            return Ok(());
                        }
                        11 => {
                            self.addc(a, b, false, true);
                            return Ok(());
                        }
                        12 => x = a | b,
                        13 => x = a.wrapping_mul(b),
                        14 => x = a & !b,
                        _ => x = !b,
                    }
                    self.setnz(x);
                    if w {
                        self.r[rd] = x;
                    }
                } else {
                    let d = (i & 7 | i >> 4 & 8) as usize;
                    let s = (i >> 3 & 15) as usize;
                    let rv = |c: &Cpu32, k: usize| if k == 15 { pcv } else { c.r[k] };
                    let b = rv(self, s);
                    match i >> 8 & 3 {
                        0 => {
                            let x = rv(self, d).wrapping_add(b);
                            if d == 15 {
                                self.r[15] = x & !1;
                            } else {
                                self.r[d] = x;
                            }
                        }
                        1 => {
                            let a = rv(self, d);
                            self.addc(a, !b, true, true);
                        }
                        2 => {
                            if d == 15 {
                                self.r[15] = b & !1;
                            } else {
                                self.r[d] = b;
                            }
                        }
                        _ => {
                            if i >> 7 & 1 == 1 {
                                self.r[14] = pc.wrapping_add(2) | 1;
                            }
                            return self.bx(b);
                        }
                    }
                }
            }
            9 => {
                let a = (pcv & !3).wrapping_add((i & 0xff) * 4);
                self.r[lo(i >> 8)] = m.load(t, a as u64, 4, Ordg::Plain)? as u32;
            }
            10 | 11 => {
                let a = self.r[rn].wrapping_add(self.r[rm]) as u64;
                match i >> 9 & 7 {
                    0 => m.store(t, a, 4, self.r[rd] as u64, Ordg::Plain)?,
                    1 => m.store(t, a, 2, self.r[rd] as u64 & 0xffff, Ordg::Plain)?,
                    2 => m.store(t, a, 1, self.r[rd] as u64 & 0xff, Ordg::Plain)?,
                    3 => self.r[rd] = m.load(t, a, 1, Ordg::Plain)? as u8 as i8 as i32 as u32,
                    4 => self.r[rd] = m.load(t, a, 4, Ordg::Plain)? as u32,
                    5 => self.r[rd] = m.load(t, a, 2, Ordg::Plain)? as u32,
                    6 => self.r[rd] = m.load(t, a, 1, Ordg::Plain)? as u32,
                    _ => self.r[rd] = m.load(t, a, 2, Ordg::Plain)? as u16 as i16 as i32 as u32,
                }
            }
            12..=17 => {
                let (sz, off): (u8, u32) = match i >> 12 {
                    6 => (4, (i >> 6 & 31) * 4),
                    7 => (1, i >> 6 & 31),
                    _ => (2, (i >> 6 & 31) * 2),
                };
                let a = self.r[rn].wrapping_add(off) as u64;
                if i >> 11 & 1 == 1 {
                    self.r[rd] = m.load(t, a, sz, Ordg::Plain)? as u32;
                } else {
                    let v = self.r[rd] as u64 & (!0u64 >> (64 - 8 * sz as u32));
                    m.store(t, a, sz, v, Ordg::Plain)?;
                }
            }
            18 | 19 => {
                let a = self.r[13].wrapping_add((i & 0xff) * 4) as u64;
                let r = lo(i >> 8);
                if i >> 11 & 1 == 1 {
                    self.r[r] = m.load(t, a, 4, Ordg::Plain)? as u32;
                } else {
                    m.store(t, a, 4, self.r[r] as u64, Ordg::Plain)?;
                }
            }
            20 => self.r[lo(i >> 8)] = (pcv & !3).wrapping_add((i & 0xff) * 4),
            21 => self.r[lo(i >> 8)] = self.r[13].wrapping_add((i & 0xff) * 4),
            22 | 23 => {
                // miscellaneous
                match i >> 8 & 15 {
                    0 => {
                        let o = (i & 0x7f) * 4;
                        self.r[13] = if i >> 7 & 1 == 1 { self.r[13].wrapping_sub(o) } else { self.r[13].wrapping_add(o) };
                    }
                    2 if v6 => {
                        let v = self.r[rn];
                        self.r[rd] = match i >> 6 & 3 {
                            0 => v as u16 as i16 as i32 as u32,
                            1 => v as u8 as i8 as i32 as u32,
                            2 => v & 0xffff,
                            _ => v & 0xff,
                        };
                    }
                    10 if v6 => {
                        let v = self.r[rn];
                        self.r[rd] = match i >> 6 & 3 {
                            0 => v.swap_bytes(),
                            1 => v.swap_bytes().rotate_right(16),
                            3 => (v as u16).swap_bytes() as i16 as i32 as u32,
                            _ => return unimpl,
                        };
                    }
                    4 | 5 => {
                        let n = (i & 0x1ff).count_ones();
                        let mut a = self.r[13].wrapping_sub(4 * n);
                        let base = a;
                        for k in 0..8 {
                            if i >> k & 1 == 1 {
                                m.store(t, a as u64, 4, self.r[k] as u64, Ordg::Plain)?;
                                a = a.wrapping_add(4);
                            }
                        }
                        if i >> 8 & 1 == 1 {
                            m.store(t, a as u64, 4, self.r[14] as u64, Ordg::Plain)?;
                        }
                        self.r[13] = base;
                    }
                    12 | 13 => {
                        let mut a = self.r[13];
                        for k in 0..8 {
                            if i >> k & 1 == 1 {
                                self.r[k] = m.load(t, a as u64, 4, Ordg::Plain)? as u32;
                                a = a.wrapping_add(4);
                            }
                        }
                        if i >> 8 & 1 == 1 {
                            let v = m.load(t, a as u64, 4, Ordg::Plain)? as u32;
                            self.r[13] = a.wrapping_add(4);
                            return self.bx(v);
                        }
                        self.r[13] = a;
                    }
                    14 => return Err(Trap::Software(pc as u64, i)),
                    15 if i & 15 == 0 => {
                        if !v6 {
                            return Err(Trap::Undef(pc as u64, i, "Thumb hint"));
                        }
                    }
                    2 | 10 => return Err(Trap::Undef(pc as u64, i, "ARMv6 Thumb instruction")),
                    1 | 3 | 9 | 11 => return Err(Trap::Undef(pc as u64, i, "CBZ")),
                    _ => return unimpl,
                }
            }
            24 | 25 => {
                let r = lo(i >> 8);
                let load = i >> 11 & 1 == 1;
                let mut a = self.r[r];
                let list = i & 0xff;
                let fin = a.wrapping_add(4 * list.count_ones());
                for k in 0..8usize {
                    if list >> k & 1 == 1 {
                        if load {
                            self.r[k] = m.load(t, a as u64, 4, Ordg::Plain)? as u32;
                        } else {
                            m.store(t, a as u64, 4, self.r[k] as u64, Ordg::Plain)?;
                        }
                        a = a.wrapping_add(4);
                    }
                }
                if !(load && list >> r & 1 == 1) {
                    self.r[r] = fin;
                }
            }
            26 | 27 => {
                let c = i >> 8 & 15;
                if c >= 14 {
                    return Err(Trap::Software(pc as u64, i));
                }
                if self.cond(c) {
                    self.r[15] = pcv.wrapping_add(((i as u8 as i8 as i32) << 1) as u32);
                }
            }
            28 => self.r[15] = pcv.wrapping_add((((i << 21) as i32) >> 20) as u32),
            30 => {
                // BL/BLX pair, executed as one step
                let j = m.fetch16(pc.wrapping_add(2) as u64)? as u32;
                let hi = pcv.wrapping_add((((i << 21) as i32) >> 9) as u32);
                match j >> 11 {
                    31 => {
                        self.r[14] = pc.wrapping_add(4) | 1;
                        self.r[15] = hi.wrapping_add((j & 0x7ff) << 1);
                    }
                    29 if j & 1 == 0 => {
                        self.r[14] = pc.wrapping_add(4) | 1;
                        self.r[15] = hi.wrapping_add((j & 0x7ff) << 1) & !3;
                        self.thumb = false;
                    }
                    _ => return Err(Trap::Undef(pc as u64, i << 16 | j, "32-bit Thumb instruction")),
                }
            }
            _ => return Err(Trap::Undef(pc as u64, i, "32-bit Thumb instruction")),
        }
        Ok(())
    }
}
