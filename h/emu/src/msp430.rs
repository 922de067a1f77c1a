//! MSP430 (16-bit core).
use crate::{Cpu, Mem};

#[derive(Clone)]
pub struct Msp {
    /// r0 pc, r1 sp, r2 sr
    pub r: [u16; 16],
    /// one more instruction may run with interrupts as they were
    late: u8,
    was_on: bool,
    ret: u16,
}
const RET: u16 = 0xfff0;
const GIE: u16 = 8;
const C: u16 = 1;
const Z: u16 = 2;
const N: u16 = 4;
const V: u16 = 0x100;

enum Loc {
    Reg(usize),
    Mem(u32),
    Imm(u16),
}
impl Msp {
    pub fn new() -> Msp {
        Msp { r: [0; 16], late: 0, was_on: false, ret: RET }
    }
    fn fetch(&mut self, m: &mut Mem) -> u16 {
        let w = std::mem::replace(&mut m.watch, (0, 0));
        let v = m.r16(self.r[0] as u32);
        m.watch = w;
        self.r[0] = self.r[0].wrapping_add(2);
        v
    }
    fn src(&mut self, m: &mut Mem, r: usize, mode: u16, byte: bool) -> Loc {
        match (r, mode) {
            (3, 0) => Loc::Imm(0),
            (3, 1) => Loc::Imm(1),
            (3, 2) => Loc::Imm(2),
            (3, _) => Loc::Imm(0xffff),
            (2, 2) => Loc::Imm(4),
            (2, 3) => Loc::Imm(8),
            (2, 1) => {
                let x = self.fetch(m);
                Loc::Mem(x as u32)
            }
            (_, 0) => Loc::Reg(r),
            (_, 1) => {
                let at = self.r[r];
                let x = self.fetch(m);
                let base = if r == 0 { at } else { self.r[r] };
                Loc::Mem(base.wrapping_add(x) as u32)
            }
            (0, 3) => {
                let x = self.fetch(m);
                Loc::Imm(x)
            }
            (_, 2) => Loc::Mem(self.r[r] as u32),
            _ => {
                let a = self.r[r];
                self.r[r] = a.wrapping_add(if byte && r != 1 && r != 0 { 1 } else { 2 });
                Loc::Mem(a as u32)
            }
        }
    }
    fn get(&mut self, m: &mut Mem, l: &Loc, byte: bool) -> u16 {
        match *l {
            Loc::Reg(r) => {
                if byte {
                    self.r[r] & 0xff
                } else {
                    self.r[r]
                }
            }
            Loc::Imm(v) => {
                if byte {
                    v & 0xff
                } else {
                    v
                }
            }
            Loc::Mem(a) => {
                if byte {
                    m.r8(a) as u16
                } else {
                    m.r16(a)
                }
            }
        }
    }
    fn put(&mut self, m: &mut Mem, l: &Loc, v: u16, byte: bool) {
        match *l {
            Loc::Reg(3) => {}
            Loc::Reg(r) => self.r[r] = if byte { v & 0xff } else { v },
            Loc::Mem(a) => {
                if byte {
                    m.w8(a, v as u8)
                } else {
                    m.w16(a, v)
                }
            }
            Loc::Imm(_) => {}
        }
    }
    fn fl(&mut self, f: u16, v: bool) {
        if v {
            self.r[2] |= f
        } else {
            self.r[2] &= !f
        }
    }
    fn nz(&mut self, v: u16, byte: bool) {
        let s = if byte { 0x80 } else { 0x8000 };
        self.fl(N, v & s != 0);
        self.fl(Z, v & if byte { 0xff } else { 0xffff } == 0);
    }
    fn addc(&mut self, a: u16, b: u16, c: u16, byte: bool) -> u16 {
        let (mk, s) = if byte { (0xff, 0x80) } else { (0xffffu32, 0x8000) };
        let (a, b) = (a as u32 & mk, b as u32 & mk);
        let u = a + b + c as u32;
        let v = u & mk;
        self.nz(v as u16, byte);
        self.fl(C, u > mk);
        self.fl(V, !(a ^ b) & (a ^ v) & s != 0);
        v as u16
    }
    fn exec(&mut self, m: &mut Mem, i: u16) -> Option<()> {
        match i >> 13 {
            0 => {
                if i >> 10 != 4 {
                    return None;
                }
                let byte = i & 0x40 != 0;
                let r = (i & 15) as usize;
                let op = i >> 7 & 7;
                if op == 6 {
                    // reti
                    let sp = self.r[1] as u32;
                    self.r[2] = m.r16(sp);
                    self.r[0] = m.r16(sp + 2);
                    self.r[1] = self.r[1].wrapping_add(4);
                    return Some(());
                }
                let l = self.src(m, r, i >> 4 & 3, byte);
                let v = self.get(m, &l, byte);
                match op {
                    0 | 2 => {
                        let top = if op == 0 { (self.r[2] & C) << if byte { 7 } else { 15 } } else { v & if byte { 0x80 } else { 0x8000 } };
                        let x = v >> 1 | top;
                        self.fl(C, v & 1 != 0);
                        self.fl(V, false);
                        self.nz(x, byte);
                        self.put(m, &l, x, byte);
                    }
                    1 => self.put(m, &l, v.swap_bytes(), false),
                    3 => {
                        let x = v as u8 as i8 as u16;
                        self.nz(x, false);
                        self.fl(C, x != 0);
                        self.fl(V, false);
                        self.put(m, &l, x, false);
                    }
                    4 => {
                        self.r[1] = self.r[1].wrapping_sub(2);
                        let sp = self.r[1] as u32;
                        if byte {
                            m.w8(sp, v as u8);
                        } else {
                            m.w16(sp, v);
                        }
                    }
                    5 => {
                        self.r[1] = self.r[1].wrapping_sub(2);
                        m.w16(self.r[1] as u32, self.r[0]);
                        self.r[0] = v;
                    }
                    _ => return None,
                }
            }
            1 => {
                let o = ((i << 6) as i16 >> 6) as u16;
                let s = self.r[2];
                let (n, z, c, v) = (s & N != 0, s & Z != 0, s & C != 0, s & V != 0);
                let t = match i >> 10 & 7 {
                    0 => !z,
                    1 => z,
                    2 => !c,
                    3 => c,
                    4 => n,
                    5 => n == v,
                    6 => n != v,
                    _ => true,
                };
                if t {
                    self.r[0] = self.r[0].wrapping_add(o.wrapping_mul(2));
                }
            }
            _ => {
                let byte = i & 0x40 != 0;
                let (rs, rd) = ((i >> 8 & 15) as usize, (i & 15) as usize);
                let s = self.src(m, rs, i >> 4 & 3, byte);
                let b = self.get(m, &s, byte);
                let d = if i & 0x80 == 0 {
                    Loc::Reg(rd)
                } else {
                    let at = self.r[rd];
                    let x = self.fetch(m);
                    Loc::Mem(if rd == 2 { x as u32 } else { at.wrapping_add(x) as u32 })
                };
                let op = i >> 12;
                if op == 4 {
                    self.put(m, &d, b, byte);
                    return Some(());
                }
                let a = self.get(m, &d, byte);
                let cin = self.r[2] & C;
                let v = match op {
                    5 => self.addc(a, b, 0, byte),
                    6 => self.addc(a, b, cin, byte),
                    7 => self.addc(a, !b, cin, byte),
                    8 | 9 => self.addc(a, !b, 1, byte),
                    10 => {
                        // decimal addition
                        let mut c = cin;
                        let mut v = 0;
                        for k in 0..if byte { 2 } else { 4 } {
                            let mut x = (a >> (4 * k) & 15) + (b >> (4 * k) & 15) + c;
                            c = (x > 9) as u16;
                            if x > 9 {
                                x -= 10;
                            }
                            v |= (x & 15) << (4 * k);
                        }
                        self.nz(v, byte);
                        self.fl(C, c != 0);
                        v
                    }
                    11 | 15 => {
                        let v = a & b;
                        self.nz(v, byte);
                        let z = self.r[2] & Z == 0;
                        self.fl(C, z);
                        self.fl(V, false);
                        v
                    }
                    12 => a & !b,
                    13 => a | b,
                    _ => {
                        let v = a ^ b;
                        let sb = if byte { 0x80 } else { 0x8000 };
                        self.nz(v, byte);
                        let z = self.r[2] & Z == 0;
                        self.fl(C, z);
                        self.fl(V, a & b & sb != 0);
                        v
                    }
                };
                if op != 9 && op != 11 {
                    self.put(m, &d, v, byte);
                }
            }
        }
        Some(())
    }
}
impl Cpu for Msp {
    fn ptr(&self) -> usize {
        2
    }
    fn pc(&self) -> u32 {
        self.r[0] as u32
    }
    fn sp(&self) -> u32 {
        self.r[1] as u32
    }
    fn step(&mut self, m: &mut Mem) -> Result<(), String> {
        let pc = self.r[0];
        let on = self.r[2] & GIE;
        let i = self.fetch(m);
        match self.exec(m, i) {
            Some(()) => {
                // a change of GIE by an instruction counts after the next one
                if self.late > 0 {
                    self.late -= 1;
                }
                let now = self.r[2] & GIE;
                if now != on {
                    self.late = 1;
                    self.was_on = on != 0;
                }
                if self.r[2] & 0xf0 != 0 {
                    return Err(format!("the processor goes to sleep at {pc:#x}"));
                }
                Ok(())
            }
            None => Err(format!("unknown instruction {i:#x} at {pc:#x}")),
        }
    }
    fn irq_ok(&self) -> bool {
        if self.late > 0 {
            self.was_on
        } else {
            self.r[2] & GIE != 0
        }
    }
    fn call(&mut self, m: &mut Mem, f: u32, a: u32, b: u32, sp: u32, fill: &mut dyn FnMut() -> u64) {
        for r in 3..16 {
            self.r[r] = fill() as u16;
        }
        self.r[3] = 0;
        self.r[1] = (sp as u16 & !1).wrapping_sub(2);
        m.poke(self.r[1] as u32, &RET.to_le_bytes());
        self.r[12] = a as u16;
        self.r[13] = b as u16;
        self.r[0] = f as u16;
        self.late = 0;
    }
    fn returned(&self) -> bool {
        self.r[0] == self.ret
    }
    fn saved(&self, c: &Self) -> Option<String> {
        if self.r[1] != c.r[1].wrapping_add(2) {
            return Some(format!("the stack pointer is {:#x}, not {:#x}", self.r[1], c.r[1].wrapping_add(2)));
        }
        for r in 4..11 {
            if self.r[r] != c.r[r] {
                return Some(format!("r{r} is {:#x}, was {:#x} at the call", self.r[r], c.r[r]));
            }
        }
        None
    }
    fn status(&self) -> u64 {
        (self.r[2] & !(C | Z | N | V)) as u64
    }
    fn set_status(&mut self, on: bool, other: u64) {
        // C Z N V, and the unused high bits; none that stops clocks
        self.r[2] = (on as u16) << 3 | other as u16 & 0xfe07;
        self.late = 0;
    }
    fn take(&mut self, m: &mut Mem, nested: bool, fill: &mut dyn FnMut() -> u64) -> u32 {
        if !nested {
            self.r[2] &= !GIE;
        }
        self.late = 0;
        let sp = (self.r[1] - 40) & !1;
        for i in 0..20 {
            let v = fill() as u16;
            m.poke(sp as u32 + i * 2, &v.to_le_bytes());
        }
        sp as u32
    }
}
