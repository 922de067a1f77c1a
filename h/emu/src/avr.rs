//! AVR with a 16-bit program counter: megaAVR (registers mapped into data space) and XMEGA (with the
//! read-modify-write instructions).
use crate::{Cpu, Mem};
use std::rc::Rc;

#[derive(Clone)]
pub struct Avr {
    pub r: [u8; 32],
    pub pc: u16,
    pub sp: u16,
    pub sreg: u8,
    pub code: Rc<Vec<u16>>,
    pub xmega: bool,
    /// instructions until interrupts count after they were enabled
    shadow: u8,
    ret: u16,
}
const RET: u16 = 0xfff0;
const I: u8 = 0x80;

impl Avr {
    pub fn new(code: Rc<Vec<u16>>, xmega: bool) -> Avr {
        Avr { r: [0; 32], pc: 0, sp: 0, sreg: 0, code, xmega, shadow: 0, ret: RET }
    }
    fn w(&self, n: usize) -> u16 {
        self.r[n] as u16 | (self.r[n + 1] as u16) << 8
    }
    fn sw(&mut self, n: usize, v: u16) {
        self.r[n] = v as u8;
        self.r[n + 1] = (v >> 8) as u8;
    }
    fn io_base(&self) -> u16 {
        if self.xmega {
            0
        } else {
            0x20
        }
    }
    fn set_sreg(&mut self, v: u8) {
        if v & I != 0 && self.sreg & I == 0 {
            // the instruction after the one that enables them still runs
            self.shadow = 1;
        }
        self.sreg = v;
    }
    fn ior(&mut self, m: &mut Mem, a: u16) -> u8 {
        match a {
            0x3d => self.sp as u8,
            0x3e => (self.sp >> 8) as u8,
            0x3f => self.sreg,
            _ => m.d[(self.io_base() + a) as usize],
        }
    }
    fn iow(&mut self, m: &mut Mem, a: u16, v: u8) {
        match a {
            0x3d => {
                self.sp = self.sp & 0xff00 | v as u16;
                if self.xmega {
                    // interrupts wait for four instructions or until the next I/O write
                    self.shadow = 4;
                }
            }
            0x3e => {
                self.sp = self.sp & 0xff | (v as u16) << 8;
                if self.xmega && self.shadow > 0 {
                    self.shadow = 0;
                }
            }
            0x3f => self.set_sreg(v),
            _ => {
                let b = self.io_base();
                m.poke((b + a) as u32, &[v])
            }
        }
    }
    fn ld(&mut self, m: &mut Mem, a: u16) -> u8 {
        let b = self.io_base();
        if !self.xmega && a < 0x20 {
            return self.r[a as usize];
        }
        if a >= b && a < b + 0x40 {
            return self.ior(m, a - b);
        }
        m.r8(a as u32)
    }
    fn st(&mut self, m: &mut Mem, a: u16, v: u8) {
        let b = self.io_base();
        if !self.xmega && a < 0x20 {
            self.r[a as usize] = v;
        } else if a >= b && a < b + 0x40 {
            self.iow(m, a - b, v)
        } else {
            m.w8(a as u32, v)
        }
    }
    fn push(&mut self, m: &mut Mem, v: u8) {
        let a = self.sp;
        self.st(m, a, v);
        self.sp = self.sp.wrapping_sub(1);
    }
    fn pop(&mut self, m: &mut Mem) -> u8 {
        self.sp = self.sp.wrapping_add(1);
        let a = self.sp;
        self.ld(m, a)
    }
    fn push_pc(&mut self, m: &mut Mem, v: u16) {
        self.push(m, v as u8);
        self.push(m, (v >> 8) as u8);
    }
    fn f(&mut self, bit: u8, v: bool) {
        if v {
            self.sreg |= 1 << bit
        } else {
            self.sreg &= !(1 << bit)
        }
    }
    fn g(&self, bit: u8) -> bool {
        self.sreg >> bit & 1 != 0
    }
    // C Z N V S H T I = 0..7
    fn nzs(&mut self, v: u8) {
        self.f(1, v == 0);
        self.f(2, v & 0x80 != 0);
        let s = self.g(2) != self.g(3);
        self.f(4, s);
    }
    fn add(&mut self, a: u8, b: u8, c: bool) -> u8 {
        let v = a.wrapping_add(b).wrapping_add(c as u8);
        let k = a & b | a & !v | b & !v;
        self.f(0, k & 0x80 != 0);
        self.f(5, k & 8 != 0);
        self.f(3, (a & b & !v | !a & !b & v) & 0x80 != 0);
        self.nzs(v);
        v
    }
    fn sub(&mut self, a: u8, b: u8, c: bool, keepz: bool) -> u8 {
        let v = a.wrapping_sub(b).wrapping_sub(c as u8);
        let k = !a & b | b & v | v & !a;
        self.f(0, k & 0x80 != 0);
        self.f(5, k & 8 != 0);
        self.f(3, (a & !b & !v | !a & b & v) & 0x80 != 0);
        let z = self.g(1);
        self.nzs(v);
        if keepz {
            self.f(1, z && v == 0);
        }
        v
    }
    fn logic(&mut self, v: u8) -> u8 {
        self.f(3, false);
        self.nzs(v);
        v
    }
    fn long(&self, i: u16) -> bool {
        // lds, sts, jmp, call
        i & 0xfc0f == 0x9000 || i & 0xfe0e == 0x940c || i & 0xfe0e == 0x940e
    }
    fn skip(&mut self) {
        let n = self.code[self.pc as usize];
        self.pc = self.pc.wrapping_add(if self.long(n) { 2 } else { 1 });
    }
    fn exec(&mut self, m: &mut Mem, i: u16) -> Option<()> {
        let d = (i >> 4 & 31) as usize;
        let r = (i & 15 | i >> 5 & 16) as usize;
        let di = (i >> 4 & 15) as usize + 16;
        let k = (i & 15 | i >> 4 & 0xf0) as u8;
        let (a, b) = (self.r[d], self.r[r]);
        match i >> 12 {
            0 => match i >> 10 & 3 {
                0 => match i >> 8 & 3 {
                    0 if i == 0 => {}
                    1 => {
                        let (x, y) = ((i >> 4 & 15) as usize * 2, (i & 15) as usize * 2);
                        let v = self.w(y);
                        self.sw(x, v);
                    }
                    2 => {
                        let p = self.r[di] as i8 as i16 * self.r[(i & 15) as usize + 16] as i8 as i16;
                        self.mulres(p as u16);
                    }
                    3 => {
                        let (x, y) = (self.r[(i >> 4 & 7) as usize + 16], self.r[(i & 7) as usize + 16]);
                        let (fx, sx, sy) = match (i >> 7 & 1, i >> 3 & 1) {
                            (0, 0) => (false, true, false),
                            (0, 1) => (true, false, false),
                            (1, 0) => (true, true, true),
                            _ => (true, true, false),
                        };
                        let e = |v: u8, s: bool| if s { v as i8 as i32 } else { v as i32 };
                        let p = (e(x, sx) * e(y, sy)) as u16;
                        self.mulres(p);
                        if fx {
                            self.sw(0, p << 1);
                            self.f(1, p << 1 == 0);
                        }
                    }
                    _ => return None,
                },
                1 => {
                    let c = self.g(0);
                    self.sub(a, b, c, true);
                }
                2 => {
                    let c = self.g(0);
                    self.r[d] = self.sub(a, b, c, true);
                }
                _ => self.r[d] = self.add(a, b, false),
            },
            1 => match i >> 10 & 3 {
                0 => {
                    if a == b {
                        self.skip()
                    }
                }
                1 => {
                    self.sub(a, b, false, false);
                }
                2 => self.r[d] = self.sub(a, b, false, false),
                _ => {
                    let c = self.g(0);
                    self.r[d] = self.add(a, b, c);
                }
            },
            2 => match i >> 10 & 3 {
                0 => self.r[d] = self.logic(a & b),
                1 => self.r[d] = self.logic(a ^ b),
                2 => self.r[d] = self.logic(a | b),
                _ => self.r[d] = b,
            },
            3 => {
                self.sub(self.r[di], k, false, false);
            }
            4 => {
                let c = self.g(0);
                self.r[di] = self.sub(self.r[di], k, c, true);
            }
            5 => self.r[di] = self.sub(self.r[di], k, false, false),
            6 => self.r[di] = self.logic(self.r[di] | k),
            7 => self.r[di] = self.logic(self.r[di] & k),
            8 | 10 => {
                let q = i & 7 | i >> 7 & 0x18 | i >> 8 & 0x20;
                let p = self.w(if i & 8 != 0 { 28 } else { 30 }).wrapping_add(q);
                if i & 0x200 != 0 {
                    self.st(m, p, a);
                } else {
                    self.r[d] = self.ld(m, p);
                }
            }
            9 => return self.nine(m, i, d, a),
            11 => {
                let io = i & 15 | i >> 5 & 0x30;
                if i & 0x800 != 0 {
                    self.iow(m, io, a);
                } else {
                    self.r[d] = self.ior(m, io);
                }
            }
            12 | 13 => {
                let o = ((i << 4) as i16 >> 4) as u16;
                if i >> 12 == 13 {
                    let pc = self.pc;
                    self.push_pc(m, pc);
                }
                self.pc = self.pc.wrapping_add(o);
            }
            14 => self.r[di] = k,
            _ => {
                let bit = (i & 7) as u8;
                match i >> 10 & 3 {
                    x @ (0 | 1) => {
                        if self.g(bit) == (x == 0) {
                            let o = ((i << 6) as i16 >> 9) as u16;
                            self.pc = self.pc.wrapping_add(o);
                        }
                    }
                    2 if i & 8 == 0 => {
                        if i & 0x200 != 0 {
                            let v = a >> bit & 1 != 0;
                            self.f(6, v);
                        } else {
                            self.r[d] = a & !(1 << bit) | (self.g(6) as u8) << bit;
                        }
                    }
                    3 if i & 8 == 0 => {
                        if (a >> bit & 1 != 0) == (i & 0x200 != 0) {
                            self.skip();
                        }
                    }
                    _ => return None,
                }
            }
        }
        Some(())
    }
    fn mulres(&mut self, p: u16) {
        self.sw(0, p);
        self.f(0, p & 0x8000 != 0);
        self.f(1, p == 0);
    }
    fn fetch(&mut self) -> u16 {
        let v = self.code[self.pc as usize];
        self.pc = self.pc.wrapping_add(1);
        v
    }
    fn nine(&mut self, m: &mut Mem, i: u16, d: usize, a: u8) -> Option<()> {
        match i >> 9 & 7 {
            x @ (0 | 1) => {
                let st = x == 1;
                let (n, mode) = match i & 15 {
                    0 => {
                        let p = self.fetch();
                        if st {
                            self.st(m, p, a);
                        } else {
                            self.r[d] = self.ld(m, p);
                        }
                        return Some(());
                    }
                    1 => (30, 1),
                    2 => (30, 2),
                    9 => (28, 1),
                    10 => (28, 2),
                    12 => (26, 0),
                    13 => (26, 1),
                    14 => (26, 2),
                    15 => {
                        if st {
                            self.push(m, a);
                        } else {
                            self.r[d] = self.pop(m);
                        }
                        return Some(());
                    }
                    4 | 5 if !st => {
                        // lpm Rd, Z[+]
                        let z = self.w(30);
                        let w = self.code[(z >> 1) as usize];
                        self.r[d] = if z & 1 != 0 { (w >> 8) as u8 } else { w as u8 };
                        if i & 1 != 0 {
                            self.sw(30, z.wrapping_add(1));
                        }
                        return Some(());
                    }
                    k @ 4..=7 if st && self.xmega => {
                        // one bus cycle each
                        let z = self.w(30);
                        let old = self.ld(m, z);
                        let v = match k {
                            4 => a,
                            5 => old | a,
                            6 => old & !a,
                            _ => old ^ a,
                        };
                        self.st(m, z, v);
                        self.r[d] = old;
                        return Some(());
                    }
                    _ => return None,
                };
                let mut p = self.w(n);
                if mode == 2 {
                    p = p.wrapping_sub(1);
                    self.sw(n, p);
                }
                if st {
                    self.st(m, p, a);
                } else {
                    self.r[d] = self.ld(m, p);
                }
                if mode == 1 {
                    self.sw(n, p.wrapping_add(1));
                }
            }
            2 => match i & 15 {
                0 => {
                    self.f(3, false);
                    self.f(0, true);
                    self.r[d] = !a;
                    self.nzs(!a);
                }
                1 => self.r[d] = self.sub(0, a, false, false),
                2 => self.r[d] = a << 4 | a >> 4,
                3 => {
                    let v = a.wrapping_add(1);
                    self.f(3, v == 0x80);
                    self.nzs(v);
                    self.r[d] = v;
                }
                k @ (5 | 6 | 7) => {
                    let v = match k {
                        5 => (a as i8 >> 1) as u8,
                        6 => a >> 1,
                        _ => a >> 1 | (self.g(0) as u8) << 7,
                    };
                    self.f(0, a & 1 != 0);
                    let nv = (v & 0x80 != 0) != (a & 1 != 0);
                    self.f(3, nv);
                    self.nzs(v);
                    self.r[d] = v;
                }
                10 => {
                    let v = a.wrapping_sub(1);
                    self.f(3, v == 0x7f);
                    self.nzs(v);
                    self.r[d] = v;
                }
                12 | 13 => self.pc = self.fetch(),
                14 | 15 => {
                    let t = self.fetch();
                    let pc = self.pc;
                    self.push_pc(m, pc);
                    self.pc = t;
                }
                8 => match i >> 4 & 31 {
                    k @ 0..=15 => {
                        let bit = (k & 7) as u8;
                        let v = self.sreg & !(1 << bit) | ((k < 8) as u8) << bit;
                        self.set_sreg(v);
                    }
                    16 | 17 => {
                        let h = self.pop(m);
                        let l = self.pop(m);
                        self.pc = (h as u16) << 8 | l as u16;
                        if i >> 4 & 1 != 0 {
                            self.set_sreg(self.sreg | I);
                        }
                    }
                    26 => {}
                    28 => {
                        let z = self.w(30);
                        let w = self.code[(z >> 1) as usize];
                        self.r[0] = if z & 1 != 0 { (w >> 8) as u8 } else { w as u8 };
                    }
                    _ => return None,
                },
                9 => {
                    let z = self.w(30);
                    match i >> 4 & 31 {
                        // the e forms: nothing lies above 128 KB here
                        0 | 1 => self.pc = z,
                        16 | 17 => {
                            let pc = self.pc;
                            self.push_pc(m, pc);
                            self.pc = z;
                        }
                        _ => return None,
                    }
                }
                _ => return None,
            },
            3 => {
                let n = (i >> 4 & 3) as usize * 2 + 24;
                let k = i & 15 | i >> 2 & 0x30;
                let x = self.w(n);
                if i & 0x100 == 0 {
                    let v = x.wrapping_add(k);
                    self.f(0, !v & x & 0x8000 != 0);
                    self.f(3, v & !x & 0x8000 != 0);
                    self.w16flags(v);
                    self.sw(n, v);
                } else {
                    let v = x.wrapping_sub(k);
                    self.f(0, v & !x & 0x8000 != 0);
                    self.f(3, !v & x & 0x8000 != 0);
                    self.w16flags(v);
                    self.sw(n, v);
                }
            }
            4 | 5 => {
                let io = i >> 3 & 31;
                let bit = i & 7;
                let v = self.ior(m, io);
                match i >> 8 & 3 {
                    0 => self.iow(m, io, v & !(1 << bit)),
                    2 => self.iow(m, io, v | 1 << bit),
                    1 => {
                        if v >> bit & 1 == 0 {
                            self.skip()
                        }
                    }
                    _ => {
                        if v >> bit & 1 != 0 {
                            self.skip()
                        }
                    }
                }
            }
            _ => {
                let r = (i & 15 | i >> 5 & 16) as usize;
                let p = a as u16 * self.r[r] as u16;
                self.mulres(p);
            }
        }
        Some(())
    }
    fn w16flags(&mut self, v: u16) {
        self.f(1, v == 0);
        self.f(2, v & 0x8000 != 0);
        let s = self.g(2) != self.g(3);
        self.f(4, s);
    }
}
impl Cpu for Avr {
    fn ptr(&self) -> usize {
        2
    }
    fn pc(&self) -> u32 {
        self.pc as u32 * 2
    }
    fn sp(&self) -> u32 {
        self.sp as u32
    }
    fn step(&mut self, m: &mut Mem) -> Result<(), String> {
        let pc = self.pc;
        let i = self.fetch();
        let was = self.shadow;
        let r = self.exec(m, i);
        if was > 0 && self.shadow == was {
            self.shadow -= 1;
        }
        match r {
            Some(()) => Ok(()),
            None => Err(format!("unknown instruction {i:#x} at {:#x}", pc as u32 * 2)),
        }
    }
    fn irq_ok(&self) -> bool {
        self.sreg & I != 0 && self.shadow == 0
    }
    fn call(&mut self, m: &mut Mem, f: u32, a: u32, b: u32, sp: u32, fill: &mut dyn FnMut() -> u64) {
        for r in 0..32 {
            self.r[r] = fill() as u8;
        }
        self.r[1] = 0;
        self.sp = sp as u16;
        let w = std::mem::replace(&mut m.watch, (0, 0));
        self.push_pc(m, RET);
        m.watch = w;
        self.sw(24, a as u16);
        self.sw(22, b as u16);
        self.pc = (f / 2) as u16;
        self.shadow = 0;
    }
    fn returned(&self) -> bool {
        self.pc == self.ret
    }
    fn saved(&self, c: &Self) -> Option<String> {
        if self.sp != c.sp.wrapping_add(2) {
            return Some(format!("the stack pointer is {:#x}, not {:#x}", self.sp, c.sp.wrapping_add(2)));
        }
        if self.r[1] != 0 {
            return Some("r1 is not zero".into());
        }
        for r in (2..18).chain([28, 29]) {
            if self.r[r] != c.r[r] {
                return Some(format!("r{r} is {:#x}, was {:#x} at the call", self.r[r], c.r[r]));
            }
        }
        None
    }
    fn status(&self) -> u64 {
        // the arithmetic flags and T are the caller's to lose
        (self.sreg & I) as u64
    }
    fn set_status(&mut self, on: bool, other: u64) {
        self.sreg = (on as u8) << 7 | other as u8 & 0x7f;
        self.shadow = 0;
    }
    fn take(&mut self, m: &mut Mem, nested: bool, fill: &mut dyn FnMut() -> u64) -> u32 {
        if !nested {
            self.sreg &= !I;
        }
        // return address and what a handler saves
        let sp = self.sp as u32;
        for i in 0..40 {
            let v = fill() as u8;
            m.poke(sp - i, &[v]);
        }
        sp - 40
    }
}
