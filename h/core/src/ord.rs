//! Orderings an operation does not accept.
use crate::op::*;
use crate::real;
use crate::rng::Rng;
use core::fmt;
use core::sync::atomic::Ordering;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum What {
    Op,
    Fence,
    CFence,
}
#[derive(Clone, Copy)]
pub struct Case {
    pub ty: Ty,
    pub what: What,
    pub op: Op,
    pub init: u128,
    /// Must it panic?
    pub bad: bool,
}
impl fmt::Debug for Case {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let w = match self.what {
            What::Op => "op",
            What::Fence => "fence",
            What::CFence => "compiler_fence",
        };
        write!(f, "ord {} init={:#x} what={} {:?}", self.ty.name(), self.init, w, self.op)
    }
}
pub fn bad(what: What, op: &Op) -> bool {
    match (what, op.k) {
        (What::Op, K::Load) => op.o == REL || op.o == AR,
        (What::Op, K::Store) => op.o == ACQ || op.o == AR,
        (What::Op, k) if k.has_fail_order() => op.f == REL || op.f == AR,
        (What::Op, _) => false,
        _ => op.o == RLX,
    }
}
pub fn gen(seed: u64, stream: u64, i: u64, tys: &[Ty]) -> Case {
    let mut r = Rng::new(seed, stream, i);
    let ty = tys[(i % tys.len() as u64) as usize];
    let init = gen_val(&mut r, ty, 0);
    let what = match r.below(24) {
        0 => What::Fence,
        1 => What::CFence,
        _ => What::Op,
    };
    let mut op;
    if what == What::Op && r.chance(3, 4) {
        op = gen_op(&mut r, ty, init, &[K::Load, K::Store, K::Cas, K::CasW, K::Upd]);
        // every ordering, every pair
        op.o = r.below(5) as u8;
        if op.k.has_fail_order() {
            op.f = r.below(5) as u8;
            if r.chance(2, 3) {
                op.f = r.pick(&[REL, AR]);
            }
        } else if r.chance(2, 3) {
            op.o = r.pick(if op.k == K::Load { &[REL, AR] } else { &[ACQ, AR] });
        }
    } else {
        op = gen_op(&mut r, ty, init, ty.conc_ops());
        if what != What::Op {
            op.o = r.below(5) as u8;
            if r.chance(1, 2) {
                op.o = RLX;
            }
        }
    }
    Case { ty, what, bad: bad(what, &op), op, init }
}
fn fence_order(o: u8) -> Ordering {
    real::ord(o)
}
/// # Safety
/// As `real::apply`.
#[inline(never)]
pub unsafe fn run(c: &Case, p: *mut u8) -> Res {
    match c.what {
        What::Op => real::apply(c.ty, p, &c.op),
        What::Fence => {
            portable_atomic::fence(fence_order(c.op.o));
            Res { k: Rk::Unit, v: 0 }
        }
        What::CFence => {
            portable_atomic::compiler_fence(fence_order(c.op.o));
            Res { k: Rk::Unit, v: 0 }
        }
    }
}
/// What the memory holds, by plain reads.
///
/// # Safety
/// Valid for reads.
pub unsafe fn peek(p: *const u8, n: usize) -> u128 {
    let mut v = 0u128;
    for i in 0..n {
        let b = core::ptr::read_volatile(p.add(i)) as u128;
        if cfg!(target_endian = "little") {
            v |= b << (8 * i);
        } else {
            v = v << 8 | b;
        }
    }
    v
}
/// # Safety
/// Valid for writes.
pub unsafe fn poke(p: *mut u8, n: usize, v: u128) {
    for i in 0..n {
        let sh = if cfg!(target_endian = "little") { 8 * i } else { 8 * (n - 1 - i) };
        core::ptr::write_volatile(p.add(i), (v >> sh) as u8);
    }
}
pub fn parse(s: &str) -> Option<Case> {
    let (h, o) = s.trim().split_once(" what=")?;
    let mut w = h.split_whitespace();
    if w.next()? != "ord" {
        return None;
    }
    let ty = Ty::parse(w.next()?)?;
    let init = hex(w.next()?.strip_prefix("init=")?)?;
    let (k, o) = o.split_once(' ')?;
    let what = match k {
        "op" => What::Op,
        "fence" => What::Fence,
        _ => What::CFence,
    };
    let op = Op::parse(o)?;
    Some(Case { ty, what, bad: bad(what, &op), op, init })
}
/// A small hash set over what distinguishes cases for this purpose.
pub struct Kinds(pub [u64; 128]);
impl Kinds {
    pub fn add(&mut self, c: &Case) -> bool {
        let k = (c.ty as u64) << 20 | (c.what as u64) << 16 | (c.op.k as u64) << 8 | (c.op.o as u64) << 4 | c.op.f as u64;
        let b = crate::rng::mix(k) % (64 * 128);
        let new = self.0[b as usize / 64] >> (b % 64) & 1 == 0;
        self.0[b as usize / 64] |= 1 << (b % 64);
        new
    }
}
