//! RV32/RV64 IMAC, Zicsr, Zabha, Zacas.
use crate::{Cpu, Mem};

#[derive(Clone)]
pub struct Rv {
    pub x: [u64; 32],
    pub pc: u64,
    pub w64: bool,
    pub mstatus: u64,
    pub sstatus: u64,
    /// supervisor-mode firmware: sstatus is the one that counts
    pub smode: bool,
    pub resv: Option<(u32, u32)>,
    ret: u64,
    /// user programs of an operating system: F and D, ecall; what the machine has
    pub f: [u64; 32],
    pub fcsr: u64,
    pub fd: bool,
    pub zacas: bool,
    pub zabha: bool,
    pub ecall: bool,
    pub amocas: u64,
}
const RET: u64 = 0xfff0;
// SD, XS, FS, MPP, MPIE and the like: anything but SIE and MIE
const OTHER: u64 = 0x0007_f9f5;

fn sx(v: u64, bits: u32) -> u64 {
    (((v << (64 - bits)) as i64) >> (64 - bits)) as u64
}
impl Rv {
    pub fn new(w64: bool, smode: bool) -> Rv {
        Rv { x: [0; 32], pc: 0, w64, mstatus: 0, sstatus: 0, smode, resv: None, ret: RET, f: [0; 32], fcsr: 0, fd: false, zacas: true, zabha: true, ecall: false, amocas: 0 }
    }
    fn norm(&self, v: u64) -> u64 {
        if self.w64 {
            v
        } else {
            sx(v, 32)
        }
    }
    fn set(&mut self, r: u32, v: u64) {
        if r != 0 {
            self.x[r as usize] = self.norm(v);
        }
    }
    fn csr(&mut self, n: u32) -> Option<&mut u64> {
        match n {
            1 | 2 | 3 if self.fd => Some(&mut self.fcsr),
            0x300 if !self.smode => Some(&mut self.mstatus),
            0x100 => Some(&mut self.sstatus),
            _ => None,
        }
    }
    fn addr(&self, r: u32, off: u64, m: &mut Mem) -> u32 {
        let a = self.norm(self.x[r as usize].wrapping_add(off));
        let a = if self.w64 { a } else { a & 0xffff_ffff };
        if a > 0xffff_ffff {
            m.fault = m.fault.or(Some((0, "an access outside memory")));
            return 0;
        }
        a as u32
    }
    fn load(&mut self, m: &mut Mem, f3: u32, a: u32) -> Option<u64> {
        Some(match f3 {
            0 => m.r8(a) as i8 as u64,
            1 => m.r16(a) as i16 as u64,
            2 => m.r32(a) as i32 as u64,
            3 if self.w64 => m.r64(a),
            4 => m.r8(a) as u64,
            5 => m.r16(a) as u64,
            6 if self.w64 => m.r32(a) as u64,
            _ => return None,
        })
    }
    fn store(&mut self, m: &mut Mem, f3: u32, a: u32, v: u64) -> Option<()> {
        match f3 {
            0 => m.w8(a, v as u8),
            1 => m.w16(a, v as u16),
            2 => m.w32(a, v as u32),
            3 if self.w64 => m.w64(a, v),
            _ => return None,
        }
        Some(())
    }
    fn alu(&self, f3: u32, alt: bool, a: u64, b: u64, word: bool) -> u64 {
        let n = if word || !self.w64 { 32 } else { 64 };
        let sh = (b & (n - 1) as u64) as u32;
        let (a, b) = (sx(a, n), sx(b, n));
        let zx = if n == 32 { a & 0xffff_ffff } else { a };
        sx(
            match f3 {
                0 => {
                    if alt {
                        a.wrapping_sub(b)
                    } else {
                        a.wrapping_add(b)
                    }
                }
                1 => a << sh,
                2 => ((a as i64) < (b as i64)) as u64,
                3 => (a < b) as u64,
                4 => a ^ b,
                5 => {
                    if alt {
                        ((a as i64) >> sh) as u64
                    } else {
                        zx >> sh
                    }
                }
                6 => a | b,
                _ => a & b,
            },
            n,
        )
    }
    fn muldiv(&self, f3: u32, a: u64, b: u64, word: bool) -> u64 {
        let n = if word || !self.w64 { 32 } else { 64 };
        let (sa, sb) = (sx(a, n) as i64 as i128, sx(b, n) as i64 as i128);
        let mk = if n == 32 { 0xffff_ffffu64 } else { !0 };
        let (ua, ub) = ((a & mk) as u128, (b & mk) as u128);
        sx(
            match f3 {
                0 => (sa.wrapping_mul(sb)) as u64,
                1 => (sa.wrapping_mul(sb) >> n) as u64,
                2 => (sa.wrapping_mul(ub as i128) >> n) as u64,
                3 => (ua.wrapping_mul(ub) >> n) as u64,
                4 => {
                    if sb == 0 {
                        !0
                    } else {
                        (sa / sb) as u64
                    }
                }
                5 => {
                    if ub == 0 {
                        !0
                    } else {
                        (ua / ub) as u64
                    }
                }
                6 => {
                    if sb == 0 {
                        sa as u64
                    } else {
                        (sa % sb) as u64
                    }
                }
                _ => {
                    if ub == 0 {
                        ua as u64
                    } else {
                        (ua % ub) as u64
                    }
                }
            },
            n,
        )
    }
    fn amo(&mut self, m: &mut Mem, i: u32, rd: u32, rs1: u32, rs2: u32) -> Option<()> {
        let sz = i >> 12 & 7;
        let f5 = i >> 27;
        let a = self.addr(rs1, 0, m);
        let n: u32 = match sz {
            0 => 8,
            1 => 16,
            2 => 32,
            3 => 64,
            4 => 128,
            _ => return None,
        };
        let xlen = if self.w64 { 64 } else { 32 };
        if f5 == 5 && !self.zacas || n < 32 && !self.zabha {
            return None;
        }
        // amocas of twice the register width works on pairs
        if f5 == 5 {
            self.amocas += 1;
            if n > xlen {
                if n != 2 * xlen || (rd | rs2) & 1 != 0 {
                    return None;
                }
                let pair = |x: &[u64; 32], r: u32| -> (u64, u64) {
                    if r == 0 {
                        (0, 0)
                    } else {
                        (x[r as usize], x[r as usize + 1])
                    }
                };
                let (c, v) = (pair(&self.x, rd), pair(&self.x, rs2));
                if a & (n / 8 - 1) != 0 {
                    m.fault = m.fault.or(Some((a, "a misaligned access")));
                }
                let old;
                if self.w64 {
                    old = (m.r64(a), m.r64(a + 8));
                    if old == c {
                        m.w64(a, v.0);
                        m.w64(a + 8, v.1);
                    }
                } else {
                    old = (m.r32(a) as i32 as u64, m.r32(a + 4) as i32 as u64);
                    if old == c {
                        m.w32(a, v.0 as u32);
                        m.w32(a + 4, v.1 as u32);
                    }
                }
                if rd != 0 {
                    self.set(rd, old.0);
                    self.set(rd + 1, old.1);
                }
                return Some(());
            }
        }
        if n > xlen {
            return None;
        }
        let st = |s: &mut Rv, m: &mut Mem, v: u64| s.store(m, sz, a, v);
        let old = self.load(m, sz, a)?;
        let b = sx(self.x[rs2 as usize], n);
        let mk = |v: u64| if n == 64 { v } else { v & ((1u64 << n) - 1) };
        match f5 {
            2 => {
                if n < 32 || rs2 != 0 {
                    return None;
                }
                self.resv = Some((a, n / 8));
                self.set(rd, old);
                return Some(());
            }
            3 => {
                if n < 32 {
                    return None;
                }
                let ok = self.resv == Some((a, n / 8));
                self.resv = None;
                if ok {
                    st(self, m, b)?;
                }
                self.set(rd, !ok as u64);
                return Some(());
            }
            5 => {
                if mk(old) == mk(self.x[rd as usize]) {
                    st(self, m, b)?;
                }
                self.set(rd, old);
                return Some(());
            }
            _ => {}
        }
        let v = match f5 {
            0 => old.wrapping_add(b),
            1 => b,
            4 => old ^ b,
            8 => old | b,
            12 => old & b,
            16 => (old as i64).min(b as i64) as u64,
            20 => (old as i64).max(b as i64) as u64,
            24 => mk(old).min(mk(b)),
            28 => mk(old).max(mk(b)),
            _ => return None,
        };
        st(self, m, v)?;
        self.set(rd, old);
        Some(())
    }
    fn fs(&self, r: u32) -> f32 {
        let v = self.f[r as usize];
        if v >> 32 == 0xffff_ffff {
            f32::from_bits(v as u32)
        } else {
            f32::from_bits(0x7fc0_0000)
        }
    }
    fn fd(&self, r: u32) -> f64 {
        f64::from_bits(self.f[r as usize])
    }
    fn put_s(&mut self, r: u32, v: f32) {
        let b = if v.is_nan() { 0x7fc0_0000 } else { v.to_bits() };
        self.f[r as usize] = 0xffff_ffff << 32 | b as u64;
    }
    fn put_d(&mut self, r: u32, v: f64) {
        self.f[r as usize] = if v.is_nan() { 0x7ff8_0000_0000_0000 } else { v.to_bits() };
    }
    /// F and D, round to nearest only.
    fn float(&mut self, m: &mut Mem, i: u32) -> Option<()> {
        let (rd, f3, rs1, rs2, f7) = (i >> 7 & 31, i >> 12 & 7, i >> 15 & 31, i >> 20 & 31, i >> 25);
        match i & 0x7f {
            0x07 => {
                let p = self.addr(rs1, sx((i >> 20) as u64, 12), m);
                self.f[rd as usize] = match f3 {
                    2 => 0xffff_ffff << 32 | m.r32(p) as u64,
                    3 => m.r64(p),
                    _ => return None,
                };
                return Some(());
            }
            0x27 => {
                let p = self.addr(rs1, sx((f7 << 5 | rd) as u64, 12), m);
                match f3 {
                    2 => m.w32(p, self.f[rs2 as usize] as u32),
                    3 => m.w64(p, self.f[rs2 as usize]),
                    _ => return None,
                }
                return Some(());
            }
            0x53 => {}
            _ => return None,
        }
        let d = f7 & 3 == 1;
        if f7 & 3 > 1 {
            return None;
        }
        let rne = matches!(f3, 0 | 7);
        macro_rules! bin {
            ($g:ident, $p:ident, $f:expr) => {{
                let (a, b) = (self.$g(rs1), self.$g(rs2));
                self.$p(rd, $f(a, b));
            }};
        }
        macro_rules! both {
            ($f:expr) => {
                if d {
                    bin!(fd, put_d, $f)
                } else {
                    bin!(fs, put_s, $f)
                }
            };
        }
        let (ba, bb) = if d { (self.f[rs1 as usize], self.f[rs2 as usize]) } else { (self.fs(rs1).to_bits() as u64, self.fs(rs2).to_bits() as u64) };
        let (sign, bx) = if d { (1u64 << 63, 0) } else { (1u64 << 31, 0xffff_ffffu64 << 32) };
        let nan = |r: u32, s: &Rv| if d { s.fd(r).is_nan() } else { s.fs(r).is_nan() };
        let lt = |s: &Rv, a: u32, b: u32| if d { s.fd(a) < s.fd(b) } else { s.fs(a) < s.fs(b) };
        match f7 >> 2 {
            0 if rne => both!(|a, b| a + b),
            1 if rne => both!(|a, b| a - b),
            2 if rne => both!(|a, b| a * b),
            3 if rne => both!(|a, b| a / b),
            4 => {
                let s = match f3 {
                    0 => bb & sign,
                    1 => !bb & sign,
                    2 => (ba ^ bb) & sign,
                    _ => return None,
                };
                self.f[rd as usize] = ba & !sign | s | bx;
            }
            5 if f3 < 2 => {
                // min, max: a number beats a NaN, -0 < +0
                let v = if nan(rs1, self) && nan(rs2, self) {
                    if d {
                        0x7ff8_0000_0000_0000
                    } else {
                        0x7fc0_0000
                    }
                } else if nan(rs1, self) {
                    bb
                } else if nan(rs2, self) {
                    ba
                } else {
                    let less = lt(self, rs1, rs2) || !lt(self, rs2, rs1) && ba & sign != 0;
                    if less == (f3 == 0) {
                        ba
                    } else {
                        bb
                    }
                };
                self.f[rd as usize] = v | bx;
            }
            8 => {
                // between the two formats
                if d && rs2 == 0 {
                    let v = self.fs(rs1) as f64;
                    self.put_d(rd, v);
                } else if !d && rs2 == 1 && rne {
                    let v = self.fd(rs1) as f32;
                    self.put_s(rd, v);
                } else {
                    return None;
                }
            }
            0x1a if rs2 < 2 && (rne || d) || rs2 < 4 && rne && self.w64 => {
                let x = self.x[rs1 as usize];
                macro_rules! cvt {
                    ($t:ty) => {
                        match rs2 {
                            0 => x as i32 as $t,
                            1 => x as u32 as $t,
                            2 => x as i64 as $t,
                            _ => x as $t,
                        }
                    };
                }
                if d {
                    self.put_d(rd, cvt!(f64));
                } else {
                    self.put_s(rd, cvt!(f32));
                }
            }
            0x14 => {
                let (a, b) = if d { (self.fd(rs1), self.fd(rs2)) } else { (self.fs(rs1) as f64, self.fs(rs2) as f64) };
                let v = match f3 {
                    0 => a <= b,
                    1 => a < b,
                    2 => a == b,
                    _ => return None,
                };
                self.set(rd, v as u64);
            }
            0x1c if f3 == 0 && rs2 == 0 && (self.w64 || !d) => {
                let v = self.f[rs1 as usize];
                self.set(rd, if d { v } else { sx(v, 32) });
            }
            0x1c if f3 == 1 && rs2 == 0 => {
                let (man, exp, em) = if d { (52, 11, 0x7ff) } else { (23, 8, 0xff) };
                let e = ba >> man & ((1 << exp) - 1);
                let fr = ba & ((1 << man) - 1);
                let neg = ba & sign != 0;
                let c = if e == em {
                    if fr == 0 {
                        if neg { 0 } else { 7 }
                    } else if fr >> (man - 1) & 1 == 1 {
                        9
                    } else {
                        8
                    }
                } else if e == 0 {
                    match (fr == 0, neg) {
                        (true, true) => 3,
                        (true, false) => 4,
                        (false, true) => 2,
                        _ => 5,
                    }
                } else if neg {
                    1
                } else {
                    6
                };
                self.set(rd, 1 << c);
            }
            0x1e if f3 == 0 && rs2 == 0 && (self.w64 || !d) => {
                let v = self.x[rs1 as usize];
                self.f[rd as usize] = if d { v } else { v & 0xffff_ffff | bx };
            }
            _ => return None,
        }
        Some(())
    }
    fn exec(&mut self, m: &mut Mem, i: u32) -> Option<u64> {
        let (rd, f3, rs1, rs2, f7) = (i >> 7 & 31, i >> 12 & 7, i >> 15 & 31, i >> 20 & 31, i >> 25);
        let (a, b) = (self.x[rs1 as usize], self.x[rs2 as usize]);
        let imm = sx((i >> 20) as u64, 12);
        let next = self.pc.wrapping_add(4);
        match i & 0x7f {
            0x37 => self.set(rd, sx((i & 0xffff_f000) as u64, 32)),
            0x17 => self.set(rd, self.pc.wrapping_add(sx((i & 0xffff_f000) as u64, 32))),
            0x6f => {
                let o = (i >> 31) << 20 | (i >> 12 & 0xff) << 12 | (i >> 20 & 1) << 11 | (i >> 21 & 0x3ff) << 1;
                self.set(rd, next);
                return Some(self.pc.wrapping_add(sx(o as u64, 21)));
            }
            0x67 if f3 == 0 => {
                self.set(rd, next);
                return Some(a.wrapping_add(imm) & !1);
            }
            0x63 => {
                let o = (i >> 31) << 12 | (i >> 7 & 1) << 11 | (i >> 25 & 0x3f) << 5 | (i >> 8 & 15) << 1;
                let t = match f3 {
                    0 => a == b,
                    1 => a != b,
                    4 => (a as i64) < b as i64,
                    5 => (a as i64) >= b as i64,
                    6 => a < b,
                    7 => a >= b,
                    _ => return None,
                };
                if t {
                    return Some(self.pc.wrapping_add(sx(o as u64, 13)));
                }
            }
            0x03 => {
                let p = self.addr(rs1, imm, m);
                let v = self.load(m, f3, p)?;
                self.set(rd, v);
            }
            0x23 => {
                let p = self.addr(rs1, sx((f7 << 5 | rd) as u64, 12), m);
                self.store(m, f3, p, b)?;
            }
            0x13 => {
                let hi = if self.w64 { i >> 26 & 0x3f } else { f7 << 0 };
                if f3 == 1 && hi != 0 {
                    return None;
                }
                if f3 == 5 && (hi & if self.w64 { 0x2f } else { 0x5f }) != 0 {
                    return None;
                }
                let v = self.alu(f3, f3 == 5 && i >> 30 & 1 != 0, a, imm, false);
                self.set(rd, v);
            }
            0x33 if f7 == 1 => {
                let v = self.muldiv(f3, a, b, false);
                self.set(rd, v);
            }
            0x33 if f7 & 0x5f == 0 => {
                if f7 != 0 && f3 != 0 && f3 != 5 {
                    return None;
                }
                let v = self.alu(f3, f7 != 0, a, b, false);
                self.set(rd, v);
            }
            0x1b if self.w64 && matches!(f3, 0 | 1 | 5) => {
                let v = self.alu(f3, f3 == 5 && i >> 30 & 1 != 0, a, imm, true);
                self.set(rd, v);
            }
            0x3b if self.w64 && f7 == 1 => {
                let v = self.muldiv(f3, a, b, true);
                self.set(rd, v);
            }
            0x3b if self.w64 && f7 & 0x5f == 0 => {
                let v = self.alu(f3, f7 != 0, a, b, true);
                self.set(rd, v);
            }
            0x0f => {}
            0x07 | 0x27 | 0x53 | 0x43 | 0x47 | 0x4b | 0x4f if self.fd => self.float(m, i)?,
            0x73 if i == 0x73 && self.fd => self.ecall = true,
            0x2f => self.amo(m, i, rd, rs1, rs2)?,
            0x73 => {
                let w = if f3 & 4 != 0 { rs1 as u64 } else { a };
                let c = self.csr(i >> 20)?;
                let old = *c;
                match f3 & 3 {
                    1 => *c = w,
                    2 => *c |= w,
                    3 => *c &= !w,
                    _ => return None,
                }
                self.set(rd, old);
            }
            _ => return None,
        }
        Some(next)
    }
    /// The 32-bit instruction a compressed one stands for.
    fn expand(&self, c: u32) -> Option<u32> {
        let b = |hi: u32, lo: u32| c >> lo & ((1 << (hi - lo + 1)) - 1);
        let rdp = (b(4, 2)) + 8;
        let rsp = (b(9, 7)) + 8;
        let rd = b(11, 7);
        let rs2 = b(6, 2);
        let i_t = |op: u32, rd: u32, f3: u32, rs1: u32, imm: u32| (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op;
        let s_t = |f3: u32, rs1: u32, rs2: u32, imm: u32| (imm >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm & 31) << 7 | 0x23;
        let r_t = |op: u32, f7: u32, rd: u32, f3: u32, rs1: u32, rs2: u32| f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op;
        let imm6 = sx((b(12, 12) << 5 | b(6, 2)) as u64, 6) as u32;
        let uimm6 = b(12, 12) << 5 | b(6, 2);
        let lw = b(5, 5) << 6 | b(12, 10) << 3 | b(6, 6) << 2;
        let ld = b(6, 5) << 6 | b(12, 10) << 3;
        let j = {
            let o = b(12, 12) << 11 | b(8, 8) << 10 | b(10, 9) << 8 | b(6, 6) << 7 | b(7, 7) << 6 | b(2, 2) << 5 | b(11, 11) << 4 | b(5, 3) << 1;
            sx(o as u64, 12) as u32
        };
        let jal = |rd: u32| (j >> 20 & 1) << 31 | (j >> 1 & 0x3ff) << 21 | (j >> 11 & 1) << 20 | (j >> 12 & 0xff) << 12 | rd << 7 | 0x6f;
        let br = |f3: u32| {
            let o = b(12, 12) << 8 | b(6, 5) << 6 | b(2, 2) << 5 | b(11, 10) << 3 | b(4, 3) << 1;
            let o = sx(o as u64, 9) as u32;
            (o >> 12 & 1) << 31 | (o >> 5 & 0x3f) << 25 | rsp << 15 | f3 << 12 | (o >> 1 & 15) << 8 | (o >> 11 & 1) << 7 | 0x63
        };
        Some(match (c & 3, c >> 13) {
            (0, 0) if c != 0 => i_t(0x13, rdp, 0, 2, b(10, 7) << 6 | b(12, 11) << 4 | b(5, 5) << 3 | b(6, 6) << 2),
            (0, 1) if self.fd => i_t(0x07, rdp, 3, rsp, ld),
            (0, 3) if self.fd && !self.w64 => i_t(0x07, rdp, 2, rsp, lw),
            (0, 5) if self.fd => s_t(3, rsp, rdp, ld) | 4,
            (0, 7) if self.fd && !self.w64 => s_t(2, rsp, rdp, lw) | 4,
            (2, 1) if self.fd => i_t(0x07, rd, 3, 2, b(4, 2) << 6 | b(12, 12) << 5 | b(6, 5) << 3),
            (2, 3) if self.fd && !self.w64 => i_t(0x07, rd, 2, 2, b(3, 2) << 6 | b(12, 12) << 5 | b(6, 4) << 2),
            (2, 5) if self.fd => s_t(3, 2, rs2, b(9, 7) << 6 | b(12, 10) << 3) | 4,
            (2, 7) if self.fd && !self.w64 => s_t(2, 2, rs2, b(8, 7) << 6 | b(12, 9) << 2) | 4,
            (0, 2) => i_t(0x03, rdp, 2, rsp, lw),
            (0, 3) if self.w64 => i_t(0x03, rdp, 3, rsp, ld),
            (0, 6) => s_t(2, rsp, rdp, lw),
            (0, 7) if self.w64 => s_t(3, rsp, rdp, ld),
            (1, 0) => i_t(0x13, rd, 0, rd, imm6),
            (1, 1) if self.w64 => i_t(0x1b, rd, 0, rd, imm6),
            (1, 1) => jal(1),
            (1, 2) => i_t(0x13, rd, 0, 0, imm6),
            (1, 3) if rd == 2 => {
                let o = b(12, 12) << 9 | b(4, 3) << 7 | b(5, 5) << 6 | b(2, 2) << 5 | b(6, 6) << 4;
                i_t(0x13, 2, 0, 2, sx(o as u64, 10) as u32)
            }
            (1, 3) => imm6 << 12 | rd << 7 | 0x37,
            (1, 4) => match b(11, 10) {
                0 => i_t(0x13, rsp, 5, rsp, uimm6),
                1 => i_t(0x13, rsp, 5, rsp, uimm6 | 0x400),
                2 => i_t(0x13, rsp, 7, rsp, imm6),
                _ => match (b(12, 12), b(6, 5)) {
                    (0, 0) => r_t(0x33, 0x20, rsp, 0, rsp, rdp),
                    (0, 1) => r_t(0x33, 0, rsp, 4, rsp, rdp),
                    (0, 2) => r_t(0x33, 0, rsp, 6, rsp, rdp),
                    (0, 3) => r_t(0x33, 0, rsp, 7, rsp, rdp),
                    (1, 0) if self.w64 => r_t(0x3b, 0x20, rsp, 0, rsp, rdp),
                    (1, 1) if self.w64 => r_t(0x3b, 0, rsp, 0, rsp, rdp),
                    _ => return None,
                },
            },
            (1, 5) => jal(0),
            (1, 6) => br(0),
            (1, 7) => br(1),
            (2, 0) => i_t(0x13, rd, 1, rd, uimm6),
            (2, 2) => i_t(0x03, rd, 2, 2, b(3, 2) << 6 | b(12, 12) << 5 | b(6, 4) << 2),
            (2, 3) if self.w64 => i_t(0x03, rd, 3, 2, b(4, 2) << 6 | b(12, 12) << 5 | b(6, 5) << 3),
            (2, 4) => match (b(12, 12), rd, rs2) {
                (0, 0, _) | (1, 0, _) => return None,
                (0, _, 0) => i_t(0x67, 0, 0, rd, 0),
                (0, _, _) => r_t(0x33, 0, rd, 0, 0, rs2),
                (_, _, 0) => i_t(0x67, 1, 0, rd, 0),
                _ => r_t(0x33, 0, rd, 0, rd, rs2),
            },
            (2, 6) => s_t(2, 2, rs2, b(8, 7) << 6 | b(12, 9) << 2),
            (2, 7) if self.w64 => s_t(3, 2, rs2, b(9, 7) << 6 | b(12, 10) << 3),
            _ => return None,
        })
    }
}
impl Cpu for Rv {
    fn ptr(&self) -> usize {
        if self.w64 {
            8
        } else {
            4
        }
    }
    fn pc(&self) -> u32 {
        self.pc as u32
    }
    fn sp(&self) -> u32 {
        self.x[2] as u32
    }
    fn step(&mut self, m: &mut Mem) -> Result<(), String> {
        let pc = self.pc as u32;
        let w = std::mem::replace(&mut m.watch, (0, 0));
        let lo = m.r16(pc) as u32;
        let (i, n) = if lo & 3 == 3 { (lo | (m.r16(pc + 2) as u32) << 16, 4) } else { (lo, 2) };
        m.watch = w;
        let full = if n == 4 { Some(i) } else { self.expand(i) };
        let link = self.pc.wrapping_add(n);
        let is_jump = |i: u32| matches!(i & 0x7f, 0x6f | 0x67);
        match full.and_then(|i| self.exec(m, i).map(|p| (i, p))) {
            Some((i, p)) => {
                // a compressed jump links to the instruction two bytes on; a compressed fall-through goes there
                if n == 2 {
                    if is_jump(i) {
                        let rd = i >> 7 & 31;
                        self.set(rd, link);
                        self.pc = p;
                    } else if p == self.pc.wrapping_add(4) && i & 0x7f != 0x63 {
                        self.pc = link;
                    } else if i & 0x7f == 0x63 {
                        // taken with offset 4 or not taken?
                        let (a, b) = (self.x[(i >> 15 & 31) as usize], self.x[(i >> 20 & 31) as usize]);
                        let t = if i >> 12 & 7 == 0 { a == b } else { a != b };
                        self.pc = if t { p } else { link };
                    } else {
                        self.pc = p;
                    }
                } else {
                    self.pc = p;
                }
                if !self.w64 {
                    self.pc &= 0xffff_ffff;
                }
                Ok(())
            }
            None => Err(format!("unknown instruction {i:#x} at {pc:#x}")),
        }
    }
    fn irq_ok(&self) -> bool {
        if self.smode {
            self.sstatus & 2 != 0
        } else {
            self.mstatus & 8 != 0
        }
    }
    fn call(&mut self, m: &mut Mem, f: u32, a: u32, b: u32, sp: u32, fill: &mut dyn FnMut() -> u64) {
        let _ = m;
        for r in 1..32 {
            let v = fill();
            self.set(r, v);
        }
        self.set(2, sp as u64);
        self.set(1, RET);
        self.set(10, a as u64);
        self.set(11, b as u64);
        self.pc = f as u64;
        self.resv = None;
    }
    fn returned(&self) -> bool {
        self.pc == self.ret
    }
    fn saved(&self, c: &Self) -> Option<String> {
        for r in [2, 3, 4, 8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27] {
            if self.x[r] != c.x[r] {
                return Some(format!("x{r} is {:#x}, was {:#x} at the call", self.x[r], c.x[r]));
            }
        }
        None
    }
    fn status(&self) -> u64 {
        self.mstatus << 32 ^ self.sstatus
    }
    fn set_status(&mut self, on: bool, other: u64) {
        let o = other & OTHER;
        if self.smode {
            self.sstatus = o | (on as u64) << 1;
        } else {
            self.mstatus = o | (on as u64) << 3 | other & 2;
            // not looked at
            self.sstatus = other >> 20 & 0x100;
        }
    }
    fn interrupted(&mut self) {
        self.resv = None;
    }
    fn take(&mut self, m: &mut Mem, nested: bool, fill: &mut dyn FnMut() -> u64) -> u32 {
        if !nested {
            if self.smode {
                self.sstatus &= !2;
            } else {
                self.mstatus &= !8;
            }
        }
        self.resv = None;
        let sp = (self.x[2] as u32 - 256) & !15;
        for i in 0..32 {
            let v = fill();
            m.poke(sp + i * 8, &v.to_le_bytes());
        }
        sp
    }
}
