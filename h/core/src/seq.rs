//! Sequences of operations on one variable placed at a generated position between guard bytes,
//! compared step by step with the reference model.
use crate::op::*;
use crate::real;
use crate::rng::Rng;
use core::fmt::{self, Write};

pub const MAXOPS: usize = 40;
pub const WIN: usize = 64; // bytes around

#[derive(Clone, Copy)]
pub struct Case {
    pub ty: Ty,
    pub init: u128,
    pub off: usize, // offset of the variable in the window, multiple of its size
    pub edge: u8,   // the window is 1 the first, 2 the last bytes of a page without neighbours
    pub guard: u64, // pattern of the other bytes
    pub n: usize,
    pub ops: [Op; MAXOPS],
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    /// returned or stored value differs from the model
    Value,
    /// bytes outside the variable changed, or the byte image is not the value's
    Footprint,
    /// size or alignment
    Layout,
}
#[derive(Clone, Copy)]
pub struct Fail {
    pub bad: Bad,
    pub at: usize,
    pub before: u128,
    pub got: Res,
    pub after: u128,
}
#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub cases: u64,
    pub ops: u64,
    pub nontrivial: u64,
    pub changed: u64,
    pub cas_ok: u64,
    pub cas_fail: u64,
    pub carry: u64,
    pub hash: u64,
}

/// Pages between inaccessible ones: where they start and end (null: none).
pub static mut PAGES: (*mut u8, *mut u8) = (core::ptr::null_mut(), core::ptr::null_mut());

#[repr(C, align(64))]
pub struct Win(pub [u8; WIN]);

pub fn gen_case(seed: u64, stream: u64, index: u64, tys: &[Ty], excl: bool) -> Case {
    let mut r = Rng::new(seed, stream, index);
    let ty = tys[(index % tys.len() as u64) as usize];
    let sz = ty.size();
    let off = r.below((WIN / sz) as u64) as usize * sz;
    let guard = match r.below(4) {
        0 => 0,
        1 => !0,
        _ => r.u64(),
    };
    let init = gen_val(&mut r, ty, 0);
    let n = 1 + r.below(MAXOPS as u64) as usize;
    let ks = if excl { ty.ops() } else { ty.conc_ops() };
    // swarm: a case concentrates on a few operations half of the time
    let mut sub = [K::Load; 6];
    let mut ns = 0;
    if r.chance(1, 2) {
        ns = 2 + r.below(5) as usize;
        for x in sub.iter_mut().take(ns) {
            *x = r.pick(ks);
        }
    }
    let mut ops = [Op { k: K::Load, o: 0, f: 0, a: 0, b: 0 }; MAXOPS];
    let mut cur = init;
    for x in ops.iter_mut().take(n) {
        *x = gen_op(&mut r, ty, cur, if ns > 0 { &sub[..ns] } else { ks });
        cur = predict(ty, cur, x);
    }
    Case { ty, init, off, edge: 0, guard, n, ops }
}
/// Case of the footprint mode.
pub fn gen_foot(seed: u64, stream: u64, index: u64, tys: &[Ty]) -> Case {
    let mut c = gen_case(seed, stream, index, tys, true);
    let h = crate::rng::mix(seed ^ stream << 32 ^ index.rotate_left(40) ^ 77);
    c.edge = (h % 4) as u8 % 3;
    // next to the edge
    match c.edge {
        1 => c.off %= 16,
        2 => c.off = WIN - 16 + c.off % 16,
        _ => {}
    }
    c
}
/// The model's own idea of the next value (only to aim the generator).
pub fn predict(ty: Ty, cur: u128, op: &Op) -> u128 {
    for k in [Rk::Unit, Rk::Val, Rk::Ok, Rk::Err, Rk::Bit] {
        for v in [cur, 0, 1] {
            match step(ty, cur, op, Res { k, v }) {
                Some(Exp::Is(x)) | Some(Exp::Or(x, _)) | Some(Exp::NanOr(x)) => return x,
                Some(Exp::Nan) => return cur,
                None => {}
            }
        }
    }
    cur
}

pub fn load_bytes(w: &Win, off: usize, sz: usize) -> u128 {
    let mut v = 0u128;
    for i in 0..sz {
        let b = unsafe { core::ptr::read_volatile(w.0.as_ptr().add(off + i)) } as u128;
        if cfg!(target_endian = "big") {
            v = v << 8 | b;
        } else {
            v |= b << (8 * i);
        }
    }
    v
}
pub fn store_bytes(w: &mut Win, off: usize, sz: usize, v: u128) {
    for i in 0..sz {
        let sh = if cfg!(target_endian = "big") { sz - 1 - i } else { i };
        w.0[off + i] = (v >> (8 * sh)) as u8;
    }
}

pub fn run(c: &Case, st: &mut Stats) -> Result<(), Fail> {
    let sz = c.ty.size();
    let mut local = Win([0; WIN]);
    let pages = unsafe { core::ptr::addr_of!(PAGES).read() };
    let w = match c.edge {
        1 if !pages.0.is_null() => unsafe { &mut *(pages.0 as *mut Win) },
        2 if !pages.0.is_null() => unsafe { &mut *(pages.1.sub(WIN) as *mut Win) },
        _ => &mut local,
    };
    for i in 0..WIN {
        w.0[i] = (c.guard.rotate_left((i as u32 * 7) % 64) as u8).wrapping_add(i as u8 * (c.guard as u8 & 1));
    }
    store_bytes(w, c.off, sz, c.init);
    let mut img = Win(w.0);
    let mut cur = c.init;
    let nil = Res { k: Rk::Unit, v: 0 };
    let (isz, al, _, _) = real::info(c.ty);
    if isz != sz || al != sz {
        return Err(Fail { bad: Bad::Layout, at: 0, before: isz as u128, got: nil, after: al as u128 });
    }
    st.cases += 1;
    let mut changes = 0;
    for i in 0..c.n {
        let op = &c.ops[i];
        let p = unsafe { w.0.as_mut_ptr().add(c.off) };
        let got = unsafe { real::apply(c.ty, p, op) };
        let after = load_bytes(w, c.off, sz);
        st.ops += 1;
        let ok = match step(c.ty, cur, op, got) {
            Some(e) => meets(c.ty, e, after),
            None => false,
        };
        if !ok {
            return Err(Fail { bad: Bad::Value, at: i, before: cur, got, after });
        }
        store_bytes(&mut img, c.off, sz, after);
        for j in 0..WIN {
            if unsafe { core::ptr::read_volatile(w.0.as_ptr().add(j)) } != img.0[j] {
                return Err(Fail { bad: Bad::Footprint, at: i, before: cur, got, after });
            }
        }
        match got.k {
            Rk::Ok => st.cas_ok += 1,
            Rk::Err => st.cas_fail += 1,
            _ => {}
        }
        if after != cur {
            changes += 1;
            st.changed += 1;
            let h = c.ty.bits() / 2;
            if c.ty.bits() == 128 && (after ^ cur) >> h != 0 && (after ^ cur) & mask(h) != 0 {
                st.carry += 1;
            }
        }
        st.hash = crate::rng::mix(st.hash ^ after as u64 ^ (after >> 64) as u64 ^ got.v as u64 ^ (op.k as u64) << 56);
        cur = after;
    }
    if changes >= 2 {
        st.nontrivial += 1;
    }
    Ok(())
}

/// Greedy shrinking on the data; keeps the kind of failure.
pub fn shrink(c: &Case, bad: Bad) -> (Case, Fail) {
    let fails = |c: &Case| -> Option<Fail> {
        let mut s = Stats::default();
        match run(c, &mut s) {
            Err(f) if f.bad == bad => Some(f),
            _ => None,
        }
    };
    let mut best = *c;
    let mut bf = match fails(c) {
        Some(f) => f,
        None => return (*c, Fail { bad, at: 0, before: 0, got: Res { k: Rk::Unit, v: 0 }, after: 0 }),
    };
    let mut budget = 4000;
    loop {
        let mut progress = false;
        if bf.at + 1 < best.n {
            best.n = bf.at + 1;
        }
        // drop operations
        let mut i = 0;
        while i < best.n && best.n > 1 {
            let mut t = best;
            for j in i..t.n - 1 {
                t.ops[j] = t.ops[j + 1];
            }
            t.n -= 1;
            budget -= 1;
            if let Some(f) = fails(&t) {
                best = t;
                bf = f;
                progress = true;
            } else {
                i += 1;
            }
        }
        // simplify orders and values
        for i in 0..best.n {
            let o = best.ops[i];
            let alts = [
                Op { o: SC, ..o },
                Op { f: SC, ..o },
                Op { a: 0, ..o },
                Op { b: 0, ..o },
                Op { a: 1, ..o },
                Op { b: 1, ..o },
                Op { a: o.a >> 64, ..o },
                Op { b: o.b >> 64, ..o },
                Op { a: o.a & mask(64), ..o },
                Op { b: o.b & mask(64), ..o },
                Op { a: o.a & (o.a.wrapping_sub(1)), ..o },
                Op { b: o.b & (o.b.wrapping_sub(1)), ..o },
            ];
            for a in alts {
                let simpler = (a.a.count_ones() + a.b.count_ones(), a.o < SC, a.f < SC)
                    < (o.a.count_ones() + o.b.count_ones(), o.o < SC, o.f < SC);
                if a == best.ops[i] || !simpler || (a.f == SC && !o.k.has_fail_order() && a.f != o.f) {
                    continue;
                }
                let mut t = best;
                t.ops[i] = a;
                budget -= 1;
                if let Some(f) = fails(&t) {
                    best = t;
                    bf = f;
                    progress = true;
                    break;
                }
            }
        }
        for v in [0, 1, best.init & mask(64), best.init >> 64, best.init & best.init.wrapping_sub(1)] {
            let v = v & best.ty.mask();
            if v.count_ones() < best.init.count_ones() {
                let t = Case { init: v, ..best };
                budget -= 1;
                if let Some(f) = fails(&t) {
                    best = t;
                    bf = f;
                    progress = true;
                }
            }
        }
        for t in [Case { edge: 0, ..best }, Case { off: 0, ..best }, Case { guard: 0, ..best }] {
            if t.edge != best.edge || t.off != best.off || t.guard != best.guard {
                budget -= 1;
                if let Some(f) = fails(&t) {
                    best = t;
                    bf = f;
                    progress = true;
                }
            }
        }
        if !progress || budget <= 0 {
            return (best, bf);
        }
    }
}

impl fmt::Display for Case {
    fn fmt(&self, w: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(w, "case {} init={:#x} off={} guard={:#x} edge={}", self.ty.name(), self.init, self.off, self.guard, self.edge)?;
        for o in &self.ops[..self.n] {
            write!(w, "; {:?}", o)?;
        }
        Ok(())
    }
}
pub fn parse(s: &str) -> Option<Case> {
    let mut it = s.trim().split(';');
    let mut h = it.next()?.split_whitespace();
    if h.next()? != "case" {
        return None;
    }
    let ty = Ty::parse(h.next()?)?;
    let init = hex(h.next()?.strip_prefix("init=")?)?;
    let off = h.next()?.strip_prefix("off=")?.parse().ok()?;
    let guard = hex(h.next()?.strip_prefix("guard=")?)? as u64;
    let edge = h.next().and_then(|x| x.strip_prefix("edge=")).and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut ops = [Op { k: K::Load, o: 0, f: 0, a: 0, b: 0 }; MAXOPS];
    let mut n = 0;
    for o in it {
        ops[n] = Op::parse(o)?;
        n += 1;
    }
    Some(Case { ty, init, off, edge, guard, n, ops })
}
pub fn describe(w: &mut dyn Write, c: &Case, f: &Fail) {
    let _ = match f.bad {
        Bad::Layout => write!(w, "{} has size {} align {}, value size {}", c.ty.name(), f.before, f.after, c.ty.size()),
        _ => write!(
            w,
            "{} op #{} {:?}: before {:#x}, returned {:?}, stored afterwards {:#x}{}",
            c.ty.name(),
            f.at,
            c.ops[f.at],
            f.before,
            f.got,
            f.after,
            if f.bad == Bad::Footprint { " -- and bytes outside the variable changed" } else { "" }
        ),
    };
}

/// Marks a hash in a fixed bit set; true if its bit was clear (so counts are lower bounds).
pub struct Seen([u64; 1 << 14]);
impl Seen {
    pub const fn new() -> Self {
        Seen([0; 1 << 14])
    }
    pub fn add(&mut self, h: u64) -> bool {
        let i = (crate::rng::mix(h) & ((1 << 20) - 1)) as usize;
        let new = self.0[i / 64] >> (i % 64) & 1 == 0;
        self.0[i / 64] |= 1 << (i % 64);
        new
    }
}
pub fn case_hash(c: &Case) -> u64 {
    let mut h = c.ty as u64 ^ (c.init as u64).rotate_left(8) ^ (c.init >> 64) as u64;
    for o in &c.ops[..c.n] {
        h = crate::rng::mix(h ^ (o.k as u64) << 16 ^ (o.o as u64) << 8 ^ o.f as u64);
        h = crate::rng::mix(h ^ o.a as u64 ^ ((o.a >> 64) as u64).rotate_left(7) ^ (o.b as u64).rotate_left(13) ^ ((o.b >> 64) as u64).rotate_left(29));
    }
    h
}

/// Command line driver shared by the hosted and the bare harness:
/// `seq SEED STREAM FROM COUNT TYPES(csv|all) MODE(value|foot)`
pub fn drive(out: &mut dyn Write, seed: u64, stream: u64, from: u64, count: u64, tys: &[Ty], foot: bool, samples: u64, seen: &mut Seen, progress: Option<&dyn Fn(u64)>) -> bool {
    let mut st = Stats::default();
    let mut bad = false;
    let mut skipped = 0u64;
    let mut distinct = 0u64;
    for i in from..from + count {
        if let Some(p) = progress {
            p(i);
        }
        let c = if foot { gen_foot(seed, stream, i, tys) } else { gen_case(seed, stream, i, tys, true) };
        let nt = st.nontrivial;
        if let Err(f) = run(&c, &mut st) {
            // wrong values are another property's, unless it is the view of the bytes that is wrong
            let view = c.ops[f.at].k.exclusive() || c.ty == Ty::Bool && f.after > 1;
            let wanted = if foot { f.bad != Bad::Value || view } else { f.bad == Bad::Value };
            if !wanted {
                skipped += 1;
                continue;
            }
            let (c, f) = shrink(&c, f.bad);
            let _ = write!(out, "FAIL index={} {} ## ", i, c);
            describe(out, &c, &f);
            let _ = write!(out, "\n");
            bad = true;
            break;
        }
        if st.nontrivial != nt {
            distinct += seen.add(case_hash(&c)) as u64;
        }
        if samples > 0 && i - from < 400 && (i - from + 1) % (400 / samples + 1).min(count / samples).max(1) == 0 && c.n <= 12 {
            let _ = write!(out, "SAMPLE {}\n", c);
        }
    }
    let _ = write!(
        out,
        "STAT cases={} ops={} nontrivial={} changed={} cas_ok={} cas_fail={} both_halves={} other={} distinct={} hash={:#x}\n",
        st.cases, st.ops, st.nontrivial, st.changed, st.cas_ok, st.cas_fail, st.carry, skipped, distinct, st.hash
    );
    bad
}
