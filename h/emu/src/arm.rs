//! ARMv4T, ARMv5TE (A32 and Thumb) and ARMv6-M.
use crate::{Cpu, Mem};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    V4T,
    V5TE,
    V6M,
}
#[derive(Clone)]
pub struct Arm {
    pub r: [u32; 16],
    pub n: bool,
    pub z: bool,
    pub c: bool,
    pub v: bool,
    pub q: bool,
    pub t: bool,
    /// I, F and mode
    pub ctl: u32,
    pub primask: u32,
    pub kind: Kind,
    /// fast interrupts count as well
    pub fiq: bool,
    /// pc was written by this instruction
    br: bool,
    ret: u32,
}
const RET: u32 = 0xfff0;
type R = Option<()>;

fn sx(v: u32, bits: u32) -> u32 {
    (((v << (32 - bits)) as i32) >> (32 - bits)) as u32
}
impl Arm {
    pub fn new(kind: Kind, fiq: bool) -> Arm {
        Arm { r: [0; 16], n: false, z: false, c: false, v: false, q: false, t: kind == Kind::V6M, ctl: 0x13, primask: 0, kind, fiq, br: false, ret: RET }
    }
    fn cpsr(&self) -> u32 {
        (self.n as u32) << 31 | (self.z as u32) << 30 | (self.c as u32) << 29 | (self.v as u32) << 28 | (self.q as u32) << 27 | self.ctl & 0xdf | (self.t as u32) << 5
    }
    fn flags(&mut self, v: u32) {
        self.n = v >> 31 & 1 != 0;
        self.z = v >> 30 & 1 != 0;
        self.c = v >> 29 & 1 != 0;
        self.v = v >> 28 & 1 != 0;
        self.q = v >> 27 & 1 != 0;
    }
    fn nz(&mut self, v: u32) {
        self.n = v >> 31 != 0;
        self.z = v == 0;
    }
    fn adc(&mut self, a: u32, b: u32, c: bool, s: bool) -> u32 {
        let u = a as u64 + b as u64 + c as u64;
        let v = u as u32;
        if s {
            self.nz(v);
            self.c = u >> 32 != 0;
            self.v = (!(a ^ b) & (a ^ v)) >> 31 != 0;
        }
        v
    }
    fn cond(&self, c: u32) -> bool {
        let b = match c >> 1 {
            0 => self.z,
            1 => self.c,
            2 => self.n,
            3 => self.v,
            4 => self.c && !self.z,
            5 => self.n == self.v,
            6 => !self.z && self.n == self.v,
            _ => return true,
        };
        b != (c & 1 != 0)
    }
    /// Branch with a possible change of state.
    fn bx(&mut self, a: u32) -> R {
        if a & 1 != 0 {
            self.t = true;
            self.r[15] = a & !1;
        } else {
            if self.kind == Kind::V6M || a & 2 != 0 {
                return None;
            }
            self.t = false;
            self.r[15] = a;
        }
        self.br = true;
        Some(())
    }
    fn jump(&mut self, a: u32) {
        self.r[15] = if self.t { a & !1 } else { a & !3 };
        self.br = true;
    }
    fn load_pc(&mut self, a: u32) -> R {
        if self.kind == Kind::V4T {
            self.jump(a);
            Some(())
        } else {
            self.bx(a)
        }
    }
    /// Value of a register as an operand (pc reads ahead).
    fn rd(&self, i: u32) -> u32 {
        if i == 15 {
            self.r[15].wrapping_add(if self.t { 4 } else { 8 })
        } else {
            self.r[i as usize]
        }
    }
    fn shift(&self, ty: u32, v: u32, n: u32, c: bool) -> (u32, bool) {
        if n == 0 {
            return (v, c);
        }
        match ty {
            0 => {
                if n < 32 {
                    (v << n, v >> (32 - n) & 1 != 0)
                } else {
                    (0, n == 32 && v & 1 != 0)
                }
            }
            1 => {
                if n < 32 {
                    (v >> n, v >> (n - 1) & 1 != 0)
                } else {
                    (0, n == 32 && v >> 31 != 0)
                }
            }
            2 => {
                if n < 32 {
                    (((v as i32) >> n) as u32, v >> (n - 1) & 1 != 0)
                } else {
                    (((v as i32) >> 31) as u32, v >> 31 != 0)
                }
            }
            _ => {
                let x = v.rotate_right(n & 31);
                (x, x >> 31 != 0)
            }
        }
    }
    /// Shifter operand with an immediate shift.
    fn sh_imm(&self, ty: u32, v: u32, n: u32) -> (u32, bool) {
        match (ty, n) {
            (0, 0) => (v, self.c),
            (1, 0) | (2, 0) => self.shift(ty, v, 32, self.c),
            (3, 0) => ((self.c as u32) << 31 | v >> 1, v & 1 != 0),
            _ => self.shift(ty, v, n, self.c),
        }
    }
    fn dp(&mut self, op: u32, s: bool, rd: u32, a: u32, b: u32, sc: bool) -> R {
        let v = match op {
            0 | 8 => a & b,
            1 | 9 => a ^ b,
            2 | 10 => self.adc(a, !b, true, s),
            3 => self.adc(b, !a, true, s),
            4 | 11 => self.adc(a, b, false, s),
            5 => {
                let c = self.c;
                self.adc(a, b, c, s)
            }
            6 => {
                let c = self.c;
                self.adc(a, !b, c, s)
            }
            7 => {
                let c = self.c;
                self.adc(b, !a, c, s)
            }
            12 => a | b,
            13 => b,
            14 => a & !b,
            _ => !b,
        };
        if s && matches!(op, 0 | 1 | 8 | 9 | 12..=15) {
            self.nz(v);
            self.c = sc;
        }
        if !(8..12).contains(&op) {
            if rd == 15 {
                if s {
                    return None;
                }
                self.jump(v);
            } else {
                self.r[rd as usize] = v;
            }
        }
        Some(())
    }
    fn sat(&mut self, v: i64) -> u32 {
        let r = v.clamp(i32::MIN as i64, i32::MAX as i64);
        self.q |= r != v;
        r as u32
    }
    fn a32(&mut self, m: &mut Mem, i: u32) -> R {
        let c = i >> 28;
        let (rn, rd, rs, rm) = (i >> 16 & 15, i >> 12 & 15, i >> 8 & 15, i & 15);
        if c == 15 {
            // blx to Thumb, pld
            if self.kind == Kind::V5TE && i >> 25 & 7 == 5 {
                self.r[14] = self.r[15].wrapping_add(4);
                let a = self.rd(15).wrapping_add(sx(i & 0xff_ffff, 24) << 2).wrapping_add((i >> 24 & 1) << 1);
                return self.bx(a | 1);
            }
            if self.kind == Kind::V5TE && i & 0x0d70_f000 == 0x0550_f000 {
                return Some(());
            }
            return None;
        }
        if !self.cond(c) {
            return Some(());
        }
        match i >> 25 & 7 {
            0 if i & 0x90 == 0x90 => {
                let a = self.rd(rm);
                match i >> 5 & 3 {
                    0 => match i >> 20 & 0x1f {
                        op @ 0..=3 => {
                            let v = a.wrapping_mul(self.rd(rs)).wrapping_add(if op & 2 != 0 { self.rd(rd) } else { 0 });
                            self.r[rn as usize] = v;
                            if op & 1 != 0 {
                                self.nz(v);
                            }
                        }
                        op @ 8..=15 => {
                            let b = self.rd(rs);
                            let mut v = if op & 4 != 0 { (a as i32 as i64).wrapping_mul(b as i32 as i64) as u64 } else { a as u64 * b as u64 };
                            if op & 2 != 0 {
                                v = v.wrapping_add((self.rd(rn) as u64) << 32 | self.rd(rd) as u64);
                            }
                            self.r[rd as usize] = v as u32;
                            self.r[rn as usize] = (v >> 32) as u32;
                            if op & 1 != 0 {
                                self.n = v >> 63 != 0;
                                self.z = v == 0;
                            }
                        }
                        0x10 | 0x14 => {
                            let p = self.rd(rn);
                            if i >> 22 & 1 != 0 {
                                let v = m.r8(p) as u32;
                                m.w8(p, a as u8);
                                self.r[rd as usize] = v;
                            } else {
                                let v = m.r32(p);
                                m.w32(p, a);
                                self.r[rd as usize] = v;
                            }
                        }
                        _ => return None,
                    },
                    k => {
                        let off = if i >> 22 & 1 != 0 { rs << 4 | rm } else { a };
                        let base = self.rd(rn);
                        let to = if i >> 23 & 1 != 0 { base.wrapping_add(off) } else { base.wrapping_sub(off) };
                        let pre = i >> 24 & 1 != 0;
                        let p = if pre { to } else { base };
                        let load = i >> 20 & 1 != 0;
                        let wb = !pre || i >> 21 & 1 != 0;
                        if load {
                            let v = match k {
                                1 => m.r16(p) as u32,
                                2 => m.r8(p) as i8 as u32,
                                _ => m.r16(p) as i16 as u32,
                            };
                            if wb {
                                self.r[rn as usize] = to;
                            }
                            self.r[rd as usize] = v;
                        } else if k == 1 {
                            let v = self.rd(rd) as u16;
                            m.w16(p, v);
                            if wb {
                                self.r[rn as usize] = to;
                            }
                        } else {
                            if self.kind == Kind::V4T || rd & 1 != 0 {
                                return None;
                            }
                            if p & 7 != 0 {
                                m.fault = m.fault.or(Some((p, "a misaligned access")));
                            }
                            if k == 2 {
                                let (x, y) = (m.r32(p), m.r32(p + 4));
                                if wb {
                                    self.r[rn as usize] = to;
                                }
                                self.r[rd as usize] = x;
                                self.r[rd as usize + 1] = y;
                            } else {
                                m.w32(p, self.rd(rd));
                                m.w32(p + 4, self.rd(rd + 1));
                                if wb {
                                    self.r[rn as usize] = to;
                                }
                            }
                        }
                    }
                }
            }
            // miscellaneous
            0 if i & 0x0190_0000 == 0x0100_0000 => {
                let v5 = self.kind == Kind::V5TE;
                match (i >> 21 & 3, i >> 4 & 15) {
                    (0, 0) => self.r[rd as usize] = self.cpsr(),
                    (1, 0) => {
                        let v = self.rd(rm);
                        return self.msr(i >> 16 & 15, v);
                    }
                    (1, 1) => return self.bx(self.rd(rm)),
                    (3, 1) if v5 => self.r[rd as usize] = self.rd(rm).leading_zeros(),
                    (1, 3) if v5 => {
                        let a = self.rd(rm);
                        self.r[14] = self.r[15].wrapping_add(4);
                        return self.bx(a);
                    }
                    (op, 5) if v5 => {
                        let (a, b) = (self.rd(rm) as i32 as i64, self.rd(rn) as i32 as i64);
                        let b = if op & 2 != 0 { self.sat(b * 2) as i32 as i64 } else { b };
                        let v = self.sat(if op & 1 != 0 { a - b } else { a + b });
                        self.r[rd as usize] = v;
                    }
                    (op, k) if v5 && k & 9 == 8 => {
                        let (a, b) = (self.rd(rm), self.rd(rs));
                        let h = |v: u32, hi: bool| if hi { (v as i32 >> 16) as i64 } else { v as i16 as i64 };
                        let y = h(b, k & 4 != 0);
                        match op {
                            0 => {
                                let p = h(a, k & 2 != 0) * y;
                                let s = p + self.rd(rd) as i32 as i64;
                                self.q |= s != s as i32 as i64;
                                self.r[rn as usize] = s as u32;
                            }
                            1 => {
                                let p = (a as i32 as i64 * y) >> 16;
                                let s = if k & 2 == 0 { p + self.rd(rd) as i32 as i64 } else { p };
                                if k & 2 == 0 {
                                    self.q |= s != s as i32 as i64;
                                }
                                self.r[rn as usize] = s as u32;
                            }
                            2 => {
                                let p = h(a, k & 2 != 0) * y;
                                let s = (((self.rd(rn) as u64) << 32 | self.rd(rd) as u64) as i64).wrapping_add(p);
                                self.r[rd as usize] = s as u32;
                                self.r[rn as usize] = (s >> 32) as u32;
                            }
                            _ => self.r[rn as usize] = (h(a, k & 2 != 0) * y) as u32,
                        }
                    }
                    _ => return None,
                }
            }
            0 | 1 => {
                let op = i >> 21 & 15;
                let s = i >> 20 & 1 != 0;
                if i >> 25 & 1 != 0 {
                    if (8..12).contains(&op) && !s {
                        // msr with an immediate
                        if op == 9 {
                            return self.msr(i >> 16 & 15, (i & 0xff).rotate_right(rs * 2));
                        }
                        return None;
                    }
                    let v = (i & 0xff).rotate_right(rs * 2);
                    let sc = if rs == 0 { self.c } else { v >> 31 != 0 };
                    return self.dp(op, s, rd, self.rd(rn), v, sc);
                }
                if i >> 4 & 1 != 0 {
                    let n = self.rd(rs) & 0xff;
                    // with a register shift pc would read 12 ahead; nobody does that
                    if [rm, rn, rs].contains(&15) {
                        return None;
                    }
                    let (v, sc) = self.shift(i >> 5 & 3, self.rd(rm), n, self.c);
                    return self.dp(op, s, rd, self.rd(rn), v, sc);
                }
                let (v, sc) = self.sh_imm(i >> 5 & 3, self.rd(rm), i >> 7 & 31);
                return self.dp(op, s, rd, self.rd(rn), v, sc);
            }
            k @ (2 | 3) => {
                if k == 3 && i >> 4 & 1 != 0 {
                    return None;
                }
                let off = if k == 2 { i & 0xfff } else { self.sh_imm(i >> 5 & 3, self.rd(rm), i >> 7 & 31).0 };
                let base = self.rd(rn);
                let to = if i >> 23 & 1 != 0 { base.wrapping_add(off) } else { base.wrapping_sub(off) };
                let pre = i >> 24 & 1 != 0;
                let p = if pre { to } else { base };
                let wb = !pre || i >> 21 & 1 != 0;
                let byte = i >> 22 & 1 != 0;
                if i >> 20 & 1 != 0 {
                    let v = if byte { m.r8(p) as u32 } else { m.r32(p) };
                    if wb {
                        self.r[rn as usize] = to;
                    }
                    if rd == 15 {
                        return self.load_pc(v);
                    }
                    self.r[rd as usize] = v;
                } else {
                    let v = self.rd(rd);
                    if byte {
                        m.w8(p, v as u8);
                    } else {
                        m.w32(p, v);
                    }
                    if wb {
                        self.r[rn as usize] = to;
                    }
                }
            }
            4 => {
                if i >> 22 & 1 != 0 {
                    return None;
                }
                return self.ldm(m, i & 0xffff, rn, i >> 24 & 1 != 0, i >> 23 & 1 != 0, i >> 21 & 1 != 0, i >> 20 & 1 != 0);
            }
            5 => {
                let a = self.rd(15).wrapping_add(sx(i & 0xff_ffff, 24) << 2);
                if i >> 24 & 1 != 0 {
                    self.r[14] = self.r[15].wrapping_add(4);
                }
                self.jump(a);
            }
            // the only coprocessor access: the c7 barriers
            7 if i & 0x0f00_0010 == 0x0e00_0010 && i >> 8 & 15 == 15 && rn == 7 => {}
            _ => return None,
        }
        Some(())
    }
    fn ldm(&mut self, m: &mut Mem, list: u32, rn: u32, before: bool, up: bool, wb: bool, load: bool) -> R {
        let n = list.count_ones();
        if n == 0 {
            return None;
        }
        let base = self.r[rn as usize];
        let mut p = if up { base } else { base.wrapping_sub(4 * n) };
        if before == up {
            p = p.wrapping_add(4);
        }
        let end = if up { base.wrapping_add(4 * n) } else { base.wrapping_sub(4 * n) };
        let mut pc = None;
        let mut vals = [0u32; 16];
        for k in 0..16 {
            if list >> k & 1 != 0 {
                if load {
                    vals[k] = m.r32(p);
                } else {
                    let v = self.rd(k as u32);
                    m.w32(p, v);
                }
                p = p.wrapping_add(4);
            }
        }
        if wb {
            self.r[rn as usize] = end;
        }
        if load {
            for k in 0..16 {
                if list >> k & 1 != 0 {
                    if k == 15 {
                        pc = Some(vals[15]);
                    } else {
                        self.r[k] = vals[k];
                    }
                }
            }
        }
        match pc {
            Some(a) => self.load_pc(a),
            None => Some(()),
        }
    }
    fn msr(&mut self, fields: u32, v: u32) -> R {
        if fields & 8 != 0 {
            self.flags(v);
        }
        if fields & 1 != 0 {
            // changing T this way is not allowed
            if (v >> 5 & 1 != 0) != self.t {
                return None;
            }
            self.ctl = v & 0xdf;
        }
        Some(())
    }
    fn t16(&mut self, m: &mut Mem, i: u32) -> R {
        let (a, b, c) = (i & 7, i >> 3 & 7, i >> 6 & 7);
        let v6 = self.kind == Kind::V6M;
        let r = |s: &Arm, k: u32| s.r[k as usize];
        match i >> 11 {
            0..=2 => {
                let n = i >> 6 & 31;
                let ty = i >> 11 & 3;
                let (v, sc) = self.sh_imm(ty, r(self, b), n);
                self.r[a as usize] = v;
                self.nz(v);
                self.c = sc;
            }
            3 => {
                let y = if i >> 10 & 1 != 0 { c } else { r(self, c) };
                let x = r(self, b);
                let v = if i >> 9 & 1 != 0 { self.adc(x, !y, true, true) } else { self.adc(x, y, false, true) };
                self.r[a as usize] = v;
            }
            4..=7 => {
                let d = i >> 8 & 7;
                let k = i & 0xff;
                let x = r(self, d);
                match i >> 11 & 3 {
                    0 => {
                        self.r[d as usize] = k;
                        self.nz(k);
                    }
                    1 => {
                        self.adc(x, !k, true, true);
                    }
                    2 => self.r[d as usize] = self.adc(x, k, false, true),
                    _ => self.r[d as usize] = self.adc(x, !k, true, true),
                }
            }
            8 if i >> 10 & 1 == 0 => {
                let (x, y) = (r(self, a), r(self, b));
                let cin = self.c;
                let sh = |s: &mut Arm, ty: u32| {
                    let (v, sc) = s.shift(ty, x, y & 0xff, cin);
                    s.nz(v);
                    s.c = sc;
                    v
                };
                let log = |s: &mut Arm, v: u32| {
                    s.nz(v);
                    v
                };
                let v = match i >> 6 & 15 {
                    0 => log(self, x & y),
                    1 => log(self, x ^ y),
                    2 => sh(self, 0),
                    3 => sh(self, 1),
                    4 => sh(self, 2),
                    5 => self.adc(x, y, cin, true),
                    6 => self.adc(x, !y, cin, true),
                    7 => sh(self, 3),
                    8 => {
                        log(self, x & y);
                        x
                    }
                    9 => self.adc(!y, 0, true, true),
                    10 => {
                        self.adc(x, !y, true, true);
                        x
                    }
                    11 => {
                        self.adc(x, y, false, true);
                        x
                    }
                    12 => log(self, x | y),
                    13 => log(self, x.wrapping_mul(y)),
                    14 => log(self, x & !y),
                    _ => log(self, !y),
                };
                self.r[a as usize] = v;
            }
            8 => {
                let d = a | (i >> 7 & 1) << 3;
                let s = i >> 3 & 15;
                let y = self.rd(s);
                match i >> 8 & 3 {
                    0 => {
                        let v = self.rd(d).wrapping_add(y);
                        if d == 15 {
                            self.jump(v);
                        } else {
                            self.r[d as usize] = v;
                        }
                    }
                    1 => {
                        let x = self.rd(d);
                        self.adc(x, !y, true, true);
                    }
                    2 => {
                        if d == 15 {
                            self.jump(y);
                        } else {
                            self.r[d as usize] = y;
                        }
                    }
                    _ => {
                        if i >> 7 & 1 != 0 {
                            if self.kind == Kind::V4T {
                                return None;
                            }
                            self.r[14] = self.r[15].wrapping_add(2) | 1;
                        }
                        return self.bx(y);
                    }
                }
            }
            9 => {
                let p = (self.rd(15) & !3).wrapping_add((i & 0xff) * 4);
                let w = std::mem::replace(&mut m.watch, (0, 0));
                self.r[(i >> 8 & 7) as usize] = m.r32(p);
                m.watch = w;
            }
            10 | 11 => {
                let p = r(self, b).wrapping_add(r(self, c));
                let v = r(self, a);
                match i >> 9 & 7 {
                    0 => m.w32(p, v),
                    1 => m.w16(p, v as u16),
                    2 => m.w8(p, v as u8),
                    3 => self.r[a as usize] = m.r8(p) as i8 as u32,
                    4 => self.r[a as usize] = m.r32(p),
                    5 => self.r[a as usize] = m.r16(p) as u32,
                    6 => self.r[a as usize] = m.r8(p) as u32,
                    _ => self.r[a as usize] = m.r16(p) as i16 as u32,
                }
            }
            k @ 12..=17 => {
                let n = i >> 6 & 31;
                let x = r(self, b);
                let v = r(self, a);
                match k {
                    12 => m.w32(x.wrapping_add(n * 4), v),
                    13 => self.r[a as usize] = m.r32(x.wrapping_add(n * 4)),
                    14 => m.w8(x.wrapping_add(n), v as u8),
                    15 => self.r[a as usize] = m.r8(x.wrapping_add(n)) as u32,
                    16 => m.w16(x.wrapping_add(n * 2), v as u16),
                    _ => self.r[a as usize] = m.r16(x.wrapping_add(n * 2)) as u32,
                }
            }
            k @ (18 | 19) => {
                let p = self.r[13].wrapping_add((i & 0xff) * 4);
                let d = (i >> 8 & 7) as usize;
                if k == 18 {
                    m.w32(p, self.r[d]);
                } else {
                    self.r[d] = m.r32(p);
                }
            }
            20 => self.r[(i >> 8 & 7) as usize] = (self.rd(15) & !3).wrapping_add((i & 0xff) * 4),
            21 => self.r[(i >> 8 & 7) as usize] = self.r[13].wrapping_add((i & 0xff) * 4),
            22 | 23 => match i >> 8 & 15 {
                0 => {
                    let n = (i & 0x7f) * 4;
                    self.r[13] = if i >> 7 & 1 != 0 { self.r[13].wrapping_sub(n) } else { self.r[13].wrapping_add(n) };
                }
                2 if v6 => {
                    let y = r(self, b);
                    self.r[a as usize] = match i >> 6 & 3 {
                        0 => y as i16 as u32,
                        1 => y as i8 as u32,
                        2 => y as u16 as u32,
                        _ => y as u8 as u32,
                    };
                }
                4 | 5 => {
                    let l = i & 0xff | (i >> 8 & 1) << 14;
                    return self.ldm(m, l, 13, true, false, true, false);
                }
                12 | 13 => {
                    let l = i & 0xff | (i >> 8 & 1) << 15;
                    return self.ldm(m, l, 13, false, true, true, true);
                }
                6 if v6 && i & 0xffef == 0xb662 => {
                    // cps: only the i bit exists
                    self.primask = i >> 4 & 1;
                }
                10 if v6 => {
                    let y = r(self, b);
                    self.r[a as usize] = match i >> 6 & 3 {
                        0 => y.swap_bytes(),
                        1 => (y & 0xff00ff) << 8 | y >> 8 & 0xff00ff,
                        3 => (y as u16).swap_bytes() as i16 as u32,
                        _ => return None,
                    };
                }
                15 if v6 && i & 15 == 0 => {}
                _ => return None,
            },
            24 => return self.ldm(m, i & 0xff, i >> 8 & 7, false, true, true, false),
            25 => {
                let n = i >> 8 & 7;
                return self.ldm(m, i & 0xff, n, false, true, i >> n & 1 == 0, true);
            }
            26 | 27 => {
                let c = i >> 8 & 15;
                if c >= 14 {
                    return None;
                }
                if self.cond(c) {
                    let a = self.rd(15).wrapping_add(sx(i & 0xff, 8) << 1);
                    self.jump(a);
                }
            }
            28 => {
                let a = self.rd(15).wrapping_add(sx(i & 0x7ff, 11) << 1);
                self.jump(a);
            }
            _ => return None,
        }
        Some(())
    }
    fn t32(&mut self, h: u32, l: u32) -> R {
        let next = self.r[15].wrapping_add(4);
        if l >> 14 == 3 && (l >> 12 & 1 == 1 || self.kind == Kind::V5TE) {
            let (s, j1, j2) = (h >> 10 & 1, l >> 13 & 1, l >> 11 & 1);
            let (i1, i2) = (!(j1 ^ s) & 1, !(j2 ^ s) & 1);
            let o = s << 24 | i1 << 23 | i2 << 22 | (h & 0x3ff) << 12 | (l & 0x7ff) << 1;
            let a = self.rd(15).wrapping_add(sx(o, 25));
            self.r[14] = next | 1;
            if l >> 12 & 1 == 1 {
                self.jump(a);
                return Some(());
            }
            return self.bx(a & !3);
        }
        // blx on ARMv5: the second half begins 11101
        if l >> 11 == 0x1d && self.kind == Kind::V5TE {
            let o = sx(h & 0x7ff, 11) << 12;
            let a = self.rd(15).wrapping_add(o).wrapping_add((l & 0x7ff) << 1) & !3;
            self.r[14] = next | 1;
            return self.bx(a);
        }
        if self.kind == Kind::V6M {
            if h == 0xf3ef && l >> 12 == 8 {
                let v = match l & 0xff {
                    16 => self.primask,
                    _ => return None,
                };
                self.r[(l >> 8 & 15) as usize] = v;
                return Some(());
            }
            if h & 0xfff0 == 0xf380 && l & 0xff00 == 0x8800 {
                match l & 0xff {
                    16 => self.primask = self.r[(h & 15) as usize] & 1,
                    _ => return None,
                }
                return Some(());
            }
            if h == 0xf3bf && l >> 8 == 0x8f {
                return Some(());
            }
        }
        None
    }
}
impl Cpu for Arm {
    fn ptr(&self) -> usize {
        4
    }
    fn pc(&self) -> u32 {
        self.r[15]
    }
    fn sp(&self) -> u32 {
        self.r[13]
    }
    fn step(&mut self, m: &mut Mem) -> Result<(), String> {
        let pc = self.r[15];
        self.br = false;
        let w = std::mem::replace(&mut m.watch, (0, 0));
        let (ins, n, lo);
        if self.t {
            lo = m.r16(pc) as u32;
            if lo >> 11 >= 0x1d {
                ins = m.r16(pc + 2) as u32;
                n = 4;
            } else {
                ins = lo;
                n = 2;
            }
        } else {
            ins = m.r32(pc);
            lo = 0;
            n = 4;
        }
        m.watch = w;
        let r = if !self.t {
            self.a32(m, ins)
        } else if n == 4 {
            self.t32(lo, ins)
        } else {
            self.t16(m, ins)
        };
        if r.is_none() {
            return Err(format!("unknown instruction {lo:#x} {ins:#x} at {pc:#x}"));
        }
        if !self.br {
            self.r[15] = pc.wrapping_add(n);
        }
        Ok(())
    }
    fn irq_ok(&self) -> bool {
        if self.kind == Kind::V6M {
            self.primask & 1 == 0
        } else {
            self.ctl & 0x80 == 0 || self.fiq && self.ctl & 0x40 == 0
        }
    }
    fn call(&mut self, _: &mut Mem, f: u32, a: u32, b: u32, sp: u32, fill: &mut dyn FnMut() -> u64) {
        for r in 0..13 {
            self.r[r] = fill() as u32;
        }
        let x = fill() as u32;
        self.flags(x & 0xf000_0000);
        self.r[13] = sp & !7;
        self.r[14] = RET | (self.kind == Kind::V6M || self.t) as u32;
        self.r[0] = a;
        self.r[1] = b;
        let t = self.t;
        if self.bx(f).is_none() {
            self.r[15] = f & !1;
        }
        // returns to the caller's state
        self.r[14] = RET | t as u32;
        self.ret = RET;
    }
    fn returned(&self) -> bool {
        self.r[15] == self.ret
    }
    fn saved(&self, c: &Self) -> Option<String> {
        for r in [4, 5, 6, 7, 8, 9, 10, 11, 13] {
            if self.r[r] != c.r[r] {
                return Some(format!("r{r} is {:#x}, was {:#x} at the call", self.r[r], c.r[r]));
            }
        }
        None
    }
    fn status(&self) -> u64 {
        (self.primask as u64) << 32 | (self.ctl & 0xdf) as u64
    }
    fn set_status(&mut self, on: bool, other: u64) {
        if self.kind == Kind::V6M {
            self.primask = !on as u32;
        } else {
            // F is one of the other bits, unless fast interrupts count
            let f = if self.fiq { !on as u32 } else { (other & 1) as u32 };
            self.ctl = [0x13, 0x1f, 0x12, 0x17][(other >> 1 & 3) as usize] | f << 6 | (!on as u32) << 7;
            if self.fiq && other & 8 != 0 {
                // only one of the two masked
                self.ctl ^= if other & 16 != 0 { 0x40 } else { 0x80 };
            }
        }
    }
    fn take(&mut self, m: &mut Mem, nested: bool, fill: &mut dyn FnMut() -> u64) -> u32 {
        if self.kind == Kind::V6M {
            // priority decides; PRIMASK stays as it is
        } else {
            if !nested {
                self.ctl |= if self.fiq { 0xc0 } else { 0x80 };
            }
            self.t = false;
        }
        let sp = (self.r[13] - 64) & !7;
        for i in 0..16 {
            let v = fill() as u32;
            m.poke(sp + i * 4, &v.to_le_bytes());
        }
        sp
    }
}
