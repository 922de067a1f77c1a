//! Instruction-level emulators of small machines whose interrupts can be raised between any two
//! instructions, and the firmware loader.
#![allow(clippy::all)]
#[path = "../../host/src/lin.rs"]
pub mod lin;
pub mod arm;
pub mod avr;
pub mod msp430;
pub mod riscv;

/// Data memory with an undo log and one watched range.
pub struct Mem {
    pub d: Vec<u8>,
    pub log: Vec<(u32, u8)>,
    pub logging: bool,
    /// an access outside memory, or one not aligned where that is needed
    pub fault: Option<(u32, &'static str)>,
    pub watch: (u32, u32),
    pub touched: bool,
    pub wrote: bool,
    pub big: bool,
}
impl Mem {
    pub fn new(n: usize) -> Mem {
        Mem { d: vec![0; n], log: vec![], logging: false, fault: None, watch: (0, 0), touched: false, wrote: false, big: false }
    }
    #[inline]
    fn bad(&mut self, a: u32, why: &'static str) {
        if self.fault.is_none() {
            self.fault = Some((a, why));
        }
    }
    #[inline]
    fn see(&mut self, a: u32, n: u32, w: bool) -> bool {
        if (a as usize).saturating_add(n as usize) > self.d.len() || a < 0x10 {
            self.bad(a, "an access outside memory");
            return false;
        }
        if a < self.watch.1 && a + n > self.watch.0 {
            self.touched = true;
            self.wrote |= w;
        }
        true
    }
    #[inline]
    pub fn r8(&mut self, a: u32) -> u8 {
        if self.see(a, 1, false) {
            self.d[a as usize]
        } else {
            0
        }
    }
    #[inline]
    pub fn r16(&mut self, a: u32) -> u16 {
        if a & 1 != 0 {
            self.bad(a, "a misaligned access");
        }
        if self.see(a, 2, false) {
            u16::from_le_bytes([self.d[a as usize], self.d[a as usize + 1]])
        } else {
            0
        }
    }
    #[inline]
    pub fn r32(&mut self, a: u32) -> u32 {
        if a & 3 != 0 {
            self.bad(a, "a misaligned access");
        }
        if self.see(a, 4, false) {
            u32::from_le_bytes(self.d[a as usize..a as usize + 4].try_into().unwrap())
        } else {
            0
        }
    }
    pub fn r64(&mut self, a: u32) -> u64 {
        if a & 7 != 0 {
            self.bad(a, "a misaligned access");
        }
        if self.see(a, 8, false) {
            u64::from_le_bytes(self.d[a as usize..a as usize + 8].try_into().unwrap())
        } else {
            0
        }
    }
    #[inline]
    fn put(&mut self, a: u32, v: &[u8]) {
        if !self.see(a, v.len() as u32, true) {
            return;
        }
        for (i, b) in v.iter().enumerate() {
            let a = a as usize + i;
            if self.logging {
                self.log.push((a as u32, self.d[a]));
            }
            self.d[a] = *b;
        }
    }
    #[inline]
    pub fn w8(&mut self, a: u32, v: u8) {
        self.put(a, &[v]);
    }
    #[inline]
    pub fn w16(&mut self, a: u32, v: u16) {
        if a & 1 != 0 {
            self.bad(a, "a misaligned access");
        }
        self.put(a, &v.to_le_bytes());
    }
    #[inline]
    pub fn w32(&mut self, a: u32, v: u32) {
        if a & 3 != 0 {
            self.bad(a, "a misaligned access");
        }
        self.put(a, &v.to_le_bytes());
    }
    pub fn w64(&mut self, a: u32, v: u64) {
        if a & 7 != 0 {
            self.bad(a, "a misaligned access");
        }
        self.put(a, &v.to_le_bytes());
    }
    /// The harness's own writes.
    pub fn poke(&mut self, a: u32, v: &[u8]) {
        let w = std::mem::replace(&mut self.watch, (0, 0));
        self.put(a, v);
        self.watch = w;
    }
    pub fn peek(&self, a: u32, n: usize) -> u128 {
        let mut b = [0; 16];
        b[..n].copy_from_slice(&self.d[a as usize..a as usize + n]);
        u128::from_le_bytes(b)
    }
    pub fn undo(&mut self, to: usize) {
        while self.log.len() > to {
            let (a, v) = self.log.pop().unwrap();
            self.d[a as usize] = v;
        }
    }
}

pub struct Elf {
    pub machine: u16,
    pub class64: bool,
    pub flags: u32,
    pub segs: Vec<(u64, Vec<u8>)>,
    pub syms: std::collections::HashMap<String, u64>,
}
impl Elf {
    pub fn load(path: &str) -> Elf {
        let b = std::fs::read(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let c64 = b[4] == 2;
        let h = |o: usize| u16::from_le_bytes(b[o..o + 2].try_into().unwrap());
        let w = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
        let x = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
        let p = |o: usize| if c64 { x(o) } else { w(o) as u64 };
        let (phoff, shoff, flags, e) = if c64 { (x(32), x(40), w(48), 52) } else { (w(28) as u64, w(32) as u64, w(36), 40) };
        let (phes, phn, shes, shn) = (h(e + 2), h(e + 4), h(e + 6), h(e + 8));
        let mut segs = vec![];
        for i in 0..phn as usize {
            let o = phoff as usize + i * phes as usize;
            if w(o) != 1 {
                continue;
            }
            let (off, va, fs, ms) = if c64 { (x(o + 8), x(o + 16), x(o + 32), x(o + 40)) } else { (w(o + 4) as u64, w(o + 8) as u64, w(o + 16) as u64, w(o + 20) as u64) };
            let mut d = b[off as usize..(off + fs) as usize].to_vec();
            d.resize(ms as usize, 0);
            segs.push((va, d));
        }
        let mut syms = std::collections::HashMap::new();
        for i in 0..shn as usize {
            let o = shoff as usize + i * shes as usize;
            if w(o + 4) != 2 {
                continue;
            }
            let (off, size, link) = if c64 { (x(o + 24), x(o + 32), w(o + 40)) } else { (w(o + 16) as u64, w(o + 20) as u64, w(o + 24)) };
            let so = shoff as usize + link as usize * shes as usize;
            let stro = if c64 { x(so + 24) } else { w(so + 16) as u64 } as usize;
            let es = if c64 { 24 } else { 16 };
            for s in 0..(size as usize / es) {
                let q = off as usize + s * es;
                let n = stro + w(q) as usize;
                let l = b[n..].iter().position(|c| *c == 0).unwrap();
                let name = String::from_utf8_lossy(&b[n..n + l]).into_owned();
                let v = if c64 { x(q + 8) } else { p(q + 4) };
                syms.insert(name, v);
            }
        }
        Elf { machine: h(18), class64: c64, flags, segs, syms }
    }
}

/// Return address that ends a call.
pub trait Cpu: Clone {
    /// bytes of a pointer
    fn ptr(&self) -> usize;
    fn pc(&self) -> u32;
    fn sp(&self) -> u32;
    /// Executes one instruction; an unknown one gives an error.
    fn step(&mut self, m: &mut Mem) -> Result<(), String>;
    /// May an interrupt be taken before the next instruction?
    fn irq_ok(&self) -> bool;
    /// Makes ready to call `f(a, b)` on the stack below `sp`, with everything callee-saved holding values from `fill`.
    fn call(&mut self, m: &mut Mem, f: u32, a: u32, b: u32, sp: u32, fill: &mut dyn FnMut() -> u64);
    /// Has that call returned?
    fn returned(&self) -> bool;
    /// Complaint if a callee-saved register differs from `at_call` (the machine just after `call`).
    fn saved(&self, at_call: &Self) -> Option<String>;
    /// The status as far as it has to come back, as it was and as it is.
    fn status(&self) -> u64;
    fn set_status(&mut self, enabled: bool, other: u64);
    /// What taking an interrupt does: status, reservation. Gives the stack pointer for the handler.
    /// What an interrupted program has lost when it goes on: its reservation.
    fn interrupted(&mut self) {}
    fn take(&mut self, m: &mut Mem, nested: bool, fill: &mut dyn FnMut() -> u64) -> u32;
}
