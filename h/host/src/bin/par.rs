#![cfg_attr(portable_atomic_unstable_f16, feature(f16))]
#![cfg_attr(portable_atomic_unstable_f128, feature(f128))]
//! Threads really in parallel: generated mixes of operations with a checkable outcome, on variables
//! packed next to each other.
//! seed= stream= from= count= types= threads=<max> ops=<per thread> secs= samples= | replay='par ...' times=
use std::fmt::Write as _;
use std::ptr::addr_of_mut;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use vcore::op::*;
use vcore::real;
use vcore::rng::{mix, Rng};
use vhost::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fam {
    /// every thread owns some of the bits and changes them by any operation
    Own,
    /// not/neg and what amounts to them
    Flip,
    Max,
    Min,
    /// sums; Inc: only +1 with the previous value
    Sum,
    Inc,
    /// values handed over by swap, compare-exchange, closures
    Token,
    /// one thread stores a growing sequence, the others read
    Seq,
}
const FAMS: [Fam; 8] = [Fam::Own, Fam::Flip, Fam::Max, Fam::Min, Fam::Sum, Fam::Inc, Fam::Token, Fam::Seq];
fn fams(t: Ty) -> &'static [Fam] {
    use Fam::*;
    match t.class() {
        Class::Int => &FAMS,
        Class::Bool => &[Flip, Token],
        Class::Ptr => &[Own, Sum, Token, Seq],
        Class::Float if t == Ty::F16 => &[Flip, Max, Min, Token],
        Class::Float => &[Flip, Max, Min, Sum, Token, Seq],
    }
}
#[derive(Clone, Copy)]
struct Var {
    ty: Ty,
    off: usize,
    fam: Fam,
    init: u128,
    k: u64,
}
#[derive(Clone)]
struct Case {
    nt: usize,
    n: u64,
    seed: u64,
    vars: Vec<Var>,
}
impl Case {
    fn text(&self) -> String {
        let mut s = format!("par threads={} ops={} seed={} vars=", self.nt, self.n, self.seed);
        for (i, v) in self.vars.iter().enumerate() {
            let _ = write!(s, "{}{}:{}:{:?}:{:#x}:{}", if i > 0 { "," } else { "" }, v.ty.name(), v.off, v.fam, v.init, v.k);
        }
        s
    }
    fn parse(s: &str) -> Option<Case> {
        let get = |k: &str| s.split_whitespace().find_map(|w| w.split_once('=').filter(|(a, _)| *a == k).map(|(_, v)| v));
        let mut c = Case { nt: get("threads")?.parse().ok()?, n: get("ops")?.parse().ok()?, seed: get("seed")?.parse().ok()?, vars: vec![] };
        for v in get("vars")?.split(',') {
            let mut p = v.split(':');
            let ty = Ty::parse(p.next()?)?;
            let off = p.next()?.parse().ok()?;
            let f = p.next()?;
            let fam = *FAMS.iter().find(|x| format!("{x:?}") == f)?;
            c.vars.push(Var { ty, off, fam, init: hex(p.next()?)?, k: p.next()?.parse().ok()? });
        }
        Some(c)
    }
}
/// Recognisable value number i: every part determined by i.
fn pat(t: Ty, i: u64) -> u128 {
    let w = t.bits();
    if w <= 16 {
        return i as u128 & t.mask();
    }
    let h = w / 2;
    let lo = i as u128 & mask(h);
    let hi = mix(lo as u64) as u128 & mask(h);
    (lo | hi << h) & t.mask()
}
fn pat_ok(t: Ty, v: u128) -> bool {
    t.bits() <= 16 || v == pat(t, (v & mask(t.bits() / 2)) as u64)
}
fn fl(t: Ty, x: i64) -> u128 {
    match t {
        Ty::F32 => (x as f32).to_bits() as u128,
        Ty::F64 => (x as f64).to_bits() as u128,
        #[cfg(portable_atomic_unstable_f128)]
        Ty::F128 => (x as f128).to_bits(),
        #[cfg(portable_atomic_unstable_f16)]
        Ty::F16 => (x as f16).to_bits() as u128,
        _ => unreachable!(),
    }
}
fn unfl(t: Ty, b: u128) -> f64 {
    match t {
        Ty::F32 => f32::from_bits(b as u32) as f64,
        Ty::F64 => f64::from_bits(b as u64),
        #[cfg(portable_atomic_unstable_f128)]
        Ty::F128 => f128::from_bits(b) as f64,
        #[cfg(portable_atomic_unstable_f16)]
        Ty::F16 => f16::from_bits(b as u16) as f64,
        _ => unreachable!(),
    }
}
/// Order-preserving view for max/min.
fn key(t: Ty, v: u128) -> i128 {
    if t.class() == Class::Float {
        return (unfl(t, v) * 16.0) as i128;
    }
    if t.signed() {
        let sh = 128 - t.bits();
        return ((v << sh) as i128) >> sh;
    }
    (v ^ 1 << 127) as i128
}

fn gen(seed: u64, stream: u64, i: u64, tys: &[Ty], maxt: usize, ops: u64) -> Case {
    let mut r = Rng::new(seed, stream, i);
    let nt = 2 + r.below(maxt as u64 - 1) as usize;
    let nv = [1, 1, 2, 3, 4, 6][r.below(6) as usize];
    let mut vars: Vec<Var> = vec![];
    let mut used = [false; 64];
    for j in 0..nv {
        let ty = if j == 0 { tys[(i % tys.len() as u64) as usize] } else { r.pick(tys) };
        let sz = ty.size();
        // a free place next to the others
        let places: Vec<usize> = (0..64 / sz).map(|x| x * sz).filter(|o| !used[*o..*o + sz].iter().any(|u| *u)).collect();
        let Some(&first) = places.first() else { continue };
        let off = if r.chance(1, 2) { first } else { r.pick(&places) };
        used[off..off + sz].fill(true);
        let fam = r.pick(fams(ty));
        let init = match fam {
            Fam::Token | Fam::Seq if ty == Ty::Bool => r.below(2) as u128,
            Fam::Seq | Fam::Token => pat(ty, 0),
            Fam::Sum if ty.class() == Class::Float => fl(ty, 0),
            Fam::Max | Fam::Min if ty.class() == Class::Float => fl(ty, 0),
            _ => gen_val(&mut r, ty, 0),
        };
        // Flip: 0 = not, 1 = neg
        let k = if fam == Fam::Flip && ty.class() == Class::Float { 1 } else if fam == Fam::Flip && ty == Ty::Bool { 0 } else { r.below(2) };
        vars.push(Var { ty, off, fam, init, k });
    }
    Case { nt, n: ops / 2 + r.below(ops), seed: r.u64(), vars }
}

#[repr(align(128))]
struct Mem([u8; 192]);
static mut MEM: Mem = Mem([0; 192]);
fn at(v: &Var) -> *mut u8 {
    unsafe { (addr_of_mut!(MEM) as *mut u8).add(64 + v.off) }
}
/// What a thread knows about a variable when it is done.
#[derive(Clone, Copy, Default)]
struct Local {
    /// own bits
    own: u128,
    /// flips made / sum of addends / best argument
    count: u64,
    sum: u128,
    best: Option<i128>,
    /// sums of hashes: given and taken tokens; sum of previous values
    given: u64,
    taken: u64,
    prevs: u128,
    last: u128,
    seen: u64,
}
static mut LOCALS: [[Local; 8]; 16] = [[Local { own: 0, count: 0, sum: 0, best: None, given: 0, taken: 0, prevs: 0, last: 0, seen: 0 }; 8]; 16];
static mut CASE: *const Case = std::ptr::null();
static BAD: AtomicBool = AtomicBool::new(false);
static mut WHAT: String = String::new();
fn bad(s: String) {
    if !BAD.swap(true, Ordering::AcqRel) {
        unsafe { *addr_of_mut!(WHAT) = s };
    }
}
fn own_bits(t: Ty, nt: usize, tid: usize) -> (u32, u32) {
    let w = t.bits() / nt as u32;
    (w * tid as u32, w)
}
fn hh(t: Ty, v: u128) -> u64 {
    mix((v & t.mask()) as u64 ^ mix((v >> 64) as u64 ^ 0x55))
}
#[inline(always)]
fn ap(v: &Var, k: K, o: u8, f: u8, a: u128, b: u128) -> Res {
    unsafe { real::apply(v.ty, at(v), &Op { k, o, f, a, b }) }
}
fn ld(v: &Var, r: &mut Rng) -> u128 {
    ap(v, K::Load, r.pick(&[RLX, ACQ, SC]), 0, 0, 0).v
}
/// Replaces the value by f(value) with a generated kind of loop; returns the previous value.
fn cas_loop(v: &Var, r: &mut Rng, f: impl Fn(u128) -> u128) -> u128 {
    let k = r.pick(&[K::Cas, K::CasW]);
    let (o, fo) = gen_orders(r, k);
    let mut cur = ld(v, r);
    let mut spins = 0u64;
    loop {
        let q = ap(v, k, o, fo, cur, f(cur));
        if q.k == Rk::Ok {
            if q.v != cur {
                bad(format!("{}: {} expecting {cur:#x} gave Ok({:#x})", v.ty.name(), k.name(), q.v));
            }
            return q.v;
        }
        if q.v == cur && k == K::Cas {
            bad(format!("{}: strong compare_exchange failed with the expected value {cur:#x}", v.ty.name()));
            return cur;
        }
        cur = q.v;
        spins += 1;
        if spins > 1 << 24 || BAD.load(Ordering::Relaxed) {
            bad(format!("{}: {} does not succeed", v.ty.name(), k.name()));
            return cur;
        }
    }
}
fn one(c: &Case, v: &Var, tid: usize, l: &mut Local, r: &mut Rng) {
    let t = v.ty;
    let m = t.mask();
    let int = t.class() == Class::Int;
    let o = r.below(5) as u8;
    match v.fam {
        Fam::Own => {
            let (sh, w) = own_bits(t, c.nt, tid);
            let fm = mask(w) << sh;
            let cur = l.own; // own field, in place
            let check = |prev: u128, what: &str| {
                if prev & fm != cur {
                    bad(format!("{} +{}: {what} of thread {tid} (bits {sh}..{}) found {prev:#x}, its own bits were {cur:#x}", t.name(), v.off, sh + w));
                }
            };
            let x = (r.u64() as u128 | (r.u64() as u128) << 64) & fm;
            let bit = sh + r.below(w as u64) as u32;
            let b = 1u128 << bit;
            match r.below(if int { 16 } else { 11 }) {
                0 => {
                    let q = ld(v, r);
                    check(q, "load");
                }
                1..=3 => {
                    let (k, n) = match r.below(3) {
                        0 => (K::BitSet, cur | b),
                        1 => (K::BitClear, cur & !b),
                        _ => (K::BitToggle, cur ^ b),
                    };
                    let q = ap(v, k, o, 0, bit as u128, 0);
                    if (q.v != 0) != (cur & b != 0) {
                        bad(format!("{} +{}: {} of bit {bit} by its only writer returned {} but its own bits were {cur:#x}", t.name(), v.off, k.name(), q.v));
                    }
                    l.own = n;
                }
                4 => {
                    check(ap(v, K::FOr, o, 0, x, 0).v, "fetch_or");
                    l.own = cur | x;
                }
                5 => {
                    check(ap(v, K::FAnd, o, 0, !fm & m | x, 0).v, "fetch_and");
                    l.own = cur & x;
                }
                6 => {
                    check(ap(v, K::FXor, o, 0, x, 0).v, "fetch_xor");
                    l.own = cur ^ x;
                }
                7 => {
                    let q = ap(v, K::Upd, o, r.pick(&[RLX, ACQ, SC]), x, 3);
                    check(q.v, "fetch_update");
                    l.own = cur ^ x;
                }
                8 => {
                    let q = cas_loop(v, r, |p| p & !fm | x);
                    check(q, "compare_exchange");
                    l.own = x;
                }
                9 | 10 => {
                    // inside the field: no carry leaves it
                    let f = cur >> sh;
                    let d = if w == 128 { r.u64() as u128 } else { r.below(1 << w.min(32)) as u128 };
                    let (up, k) = if int { (d <= mask(w) - f, r.below(4)) } else { (d <= mask(w) - f, 0) };
                    if !up && d > f {
                        return;
                    }
                    let n = if up { f + d } else { f - d };
                    let kk = match (int, up, k) {
                        (true, true, 0 | 1) => K::FAdd,
                        (true, true, _) => K::Add,
                        (true, false, 0 | 1) => K::FSub,
                        (true, false, _) => K::Sub,
                        (false, true, _) => K::ByteAdd,
                        (false, false, _) => K::ByteSub,
                    };
                    let q = ap(v, kk, o, 0, d << sh, 0);
                    if !matches!(kk, K::Add | K::Sub) {
                        check(q.v, kk.name());
                    }
                    l.own = n << sh;
                }
                11 => {
                    ap(v, K::Or, o, 0, x, 0);
                    l.own = cur | x;
                }
                12 => {
                    ap(v, K::And, o, 0, !fm & m | x, 0);
                    l.own = cur & x;
                }
                _ => {
                    ap(v, K::Xor, o, 0, x, 0);
                    l.own = cur ^ x;
                }
            }
            l.count += 1;
        }
        Fam::Flip => {
            let neg = v.k == 1;
            let all = m;
            let sign = 1u128 << (t.bits() - 1);
            let f = move |p: u128| if t.class() == Class::Float { p ^ sign } else if neg { 0u128.wrapping_sub(p) & m } else { !p & m };
            let prev = match (neg, r.below(6)) {
                (_, 0) => Some(cas_loop(v, r, f)),
                (true, 1 | 2) if int => {
                    ap(v, K::Neg, o, 0, 0, 0);
                    None
                }
                (true, _) => Some(ap(v, K::FNeg, o, 0, 0, 0).v),
                (false, 1) => Some(ap(v, K::FXor, o, 0, all, 0).v),
                (false, 2) => Some(ap(v, K::FNand, o, 0, all, 0).v),
                (false, 3) => {
                    ap(v, K::Not, o, 0, 0, 0);
                    None
                }
                (false, 4) => {
                    ap(v, K::Xor, o, 0, all, 0);
                    None
                }
                (false, _) => Some(ap(v, K::FNot, o, 0, 0, 0).v),
            };
            l.count += 1;
            if let Some(p) = prev {
                l.given += 1;
                l.taken += (p == v.init) as u64;
                if p != v.init && p != f(v.init) {
                    bad(format!("{} +{}: {} flips from {:#x} found {p:#x}", t.name(), v.off, if neg { "neg" } else { "not" }, v.init));
                }
            }
        }
        Fam::Max | Fam::Min => {
            let max = v.fam == Fam::Max;
            let a = if t.class() == Class::Float {
                fl(t, r.below(if t == Ty::F16 { 2000 } else { 100_000 }) as i64 - 1000)
            } else {
                // near the running extreme more often than not
                let d = r.below(64) as u128;
                let cur = l.last;
                if r.chance(2, 3) { (if max { cur.wrapping_add(d) } else { cur.wrapping_sub(d) }) & m } else { r.u128() & m }
            };
            let q = if r.chance(1, 8) {
                cas_loop(v, r, |p| if (key(t, a) > key(t, p)) == max && a != p { a } else { p })
            } else {
                ap(v, if max { K::FMax } else { K::FMin }, o, 0, a, 0).v
            };
            let (ka, kq) = (key(t, a), key(t, q));
            if let Some(b) = l.best {
                if if max { kq < b } else { kq > b } {
                    bad(format!("{} +{}: {:?} found {q:#x} after the thread had put {b} there", t.name(), v.off, v.fam));
                }
            }
            let e = if max { ka.max(kq) } else { ka.min(kq) };
            l.best = Some(e);
            l.last = if t.class() == Class::Float { 0 } else if e == ka { a } else { q };
            l.count += 1;
        }
        Fam::Sum | Fam::Inc => {
            if t.class() == Class::Float {
                let d = r.below(8) as i64;
                if r.chance(1, 2) {
                    ap(v, K::FAdd, o, 0, fl(t, d), 0);
                    l.sum = l.sum.wrapping_add(d as u128);
                } else {
                    ap(v, K::FSub, o, 0, fl(t, d), 0);
                    l.sum = l.sum.wrapping_sub(d as u128);
                }
            } else if v.fam == Fam::Inc {
                let q = match r.below(8) {
                    0 => cas_loop(v, r, |p| p.wrapping_add(1) & m),
                    1 => ap(v, K::Upd, o, r.pick(&[RLX, ACQ, SC]), 1, 1).v,
                    2 => ap(v, K::FSub, o, 0, m, 0).v,
                    _ => ap(v, K::FAdd, o, 0, 1, 0).v,
                };
                l.prevs = l.prevs.wrapping_add(q);
            } else {
                let d = gen_val(r, t, 0);
                let add = r.chance(1, 2);
                let k = match (t.class(), add, r.below(3)) {
                    (Class::Ptr, true, _) => K::ByteAdd,
                    (Class::Ptr, false, _) => K::ByteSub,
                    (_, true, 0) => K::FAdd,
                    (_, true, 1) => K::Add,
                    (_, false, 0) => K::FSub,
                    (_, false, 1) => K::Sub,
                    _ => {
                        cas_loop(v, r, |p| if add { p.wrapping_add(d) } else { p.wrapping_sub(d) } & m);
                        l.sum = if add { l.sum.wrapping_add(d) } else { l.sum.wrapping_sub(d) };
                        l.count += 1;
                        return;
                    }
                };
                ap(v, k, o, 0, d, 0);
                l.sum = if add { l.sum.wrapping_add(d) } else { l.sum.wrapping_sub(d) };
            }
            l.count += 1;
        }
        Fam::Token => {
            let x = pat(t, r.u64());
            let taken = match r.below(8) {
                0 => cas_loop(v, r, |_| x),
                1 => ap(v, K::Upd, o, r.pick(&[RLX, ACQ, SC]), x, 2).v,
                2 => {
                    let q = ld(v, r);
                    if !pat_ok(t, q) {
                        bad(format!("{} +{}: load found {q:#x}, which nobody stored", t.name(), v.off));
                    }
                    return;
                }
                3 => {
                    // a compare-exchange that mostly fails
                    let e = pat(t, r.u64());
                    let (oo, ff) = gen_orders(r, K::Cas);
                    let q = ap(v, K::Cas, oo, ff, e, x);
                    if !pat_ok(t, q.v) || (q.k == Rk::Ok) != (q.v == e) {
                        bad(format!("{} +{}: compare_exchange({e:#x}) gave {q:?}", t.name(), v.off));
                    }
                    if q.k == Rk::Err {
                        return;
                    }
                    q.v
                }
                _ => ap(v, K::Swap, o, 0, x, 0).v,
            };
            if !pat_ok(t, taken) {
                bad(format!("{} +{}: a replacing operation found {taken:#x}, which nobody stored", t.name(), v.off));
            }
            l.given = l.given.wrapping_add(hh(t, x));
            l.taken = l.taken.wrapping_add(hh(t, taken));
            l.count += 1;
        }
        Fam::Seq => {
            let w = if t.bits() <= 16 { t.bits() } else { t.bits() / 2 };
            if tid == 0 {
                if l.seen + 1 < 1u64.checked_shl(w).unwrap_or(u64::MAX) {
                    l.seen += 1;
                    ap(v, K::Store, r.pick(&[RLX, REL, SC]), 0, pat(t, l.seen), 0);
                }
            } else {
                let q = ld(v, r);
                let i = (q & mask(w)) as u64;
                if !pat_ok(t, q) || i < l.seen {
                    bad(format!("{} +{}: load found {q:#x} after value number {}", t.name(), v.off, l.seen));
                }
                l.seen = i;
            }
            l.count += 1;
        }
    }
}
static BEAT: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
fn work(tid: usize) {
    unsafe {
        let c = &*CASE;
        let mut r = Rng::new(c.seed, 3, tid as u64);
        let mut ls = LOCALS[tid];
        let mut turn = 0;
        for i in 0..c.n {
            if r.chance(1, 8) {
                turn = r.below(c.vars.len() as u64) as usize;
            }
            one(c, &c.vars[turn], tid, &mut ls[turn], &mut r);
            turn = (turn + 1) % c.vars.len();
            BEAT[tid].store(i, Ordering::Relaxed);
            if i % 64 == 0 && BAD.load(Ordering::Relaxed) {
                break;
            }
        }
        LOCALS[tid] = ls;
    }
}
// a pool of threads that wait for the next case
static GO: AtomicU64 = AtomicU64::new(0);
static NT: AtomicUsize = AtomicUsize::new(0);
static LEFT: AtomicUsize = AtomicUsize::new(0);
fn pool(n: usize) {
    for t in 1..n {
        std::thread::spawn(move || {
            let mut last = 0;
            loop {
                let mut spins = 0u32;
                loop {
                    let g = GO.load(Ordering::Acquire);
                    if g != last {
                        last = g;
                        break;
                    }
                    spins += 1;
                    if spins > 2000 {
                        std::thread::yield_now();
                    } else {
                        std::hint::spin_loop();
                    }
                }
                if t < NT.load(Ordering::Relaxed) {
                    work(t);
                }
                LEFT.fetch_sub(1, Ordering::AcqRel);
            }
        });
    }
    // somebody has to notice when nothing moves any more
    std::thread::spawn(|| {
        let (mut old, mut same) = ((0, vec![]), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            let now = (GO.load(Ordering::Relaxed), BEAT.iter().map(|b| b.load(Ordering::Relaxed)).collect::<Vec<_>>());
            if now == old && LEFT.load(Ordering::Relaxed) > 0 {
                same += 1;
                if same >= 25 {
                    let c = unsafe { (*CASE).text() };
                    println!("FAIL index={} {} ## no progress: no thread has finished an operation for 25 s", CUR.load(Ordering::Relaxed), c);
                    std::process::exit(1);
                }
            } else {
                same = 0;
            }
            old = now;
        }
    });
}
fn run_case(c: &Case, pooln: usize) -> Result<u64, String> {
    unsafe {
        std::ptr::write_bytes(addr_of_mut!(MEM) as *mut u8, 0xc3, 192);
        for v in &c.vars {
            let b = v.init.to_le_bytes();
            std::ptr::copy_nonoverlapping(b.as_ptr(), at(v), v.ty.size());
        }
        for t in 0..c.nt {
            LOCALS[t] = Default::default();
            for (i, v) in c.vars.iter().enumerate() {
                if v.fam == Fam::Own {
                    let (sh, w) = own_bits(v.ty, c.nt, t);
                    LOCALS[t][i].own = v.init & mask(w) << sh;
                }
            }
        }
        CASE = c;
        BAD.store(false, Ordering::Relaxed);
        NT.store(c.nt, Ordering::Relaxed);
        LEFT.store(pooln, Ordering::Relaxed);
        GO.fetch_add(1, Ordering::AcqRel);
        work(0);
        LEFT.fetch_sub(1, Ordering::AcqRel);
        while LEFT.load(Ordering::Acquire) != 0 {
            std::thread::yield_now();
        }
        if BAD.load(Ordering::Acquire) {
            return Err((*addr_of_mut!(WHAT)).clone());
        }
        let mut busy = 0;
        for (i, v) in c.vars.iter().enumerate() {
            let t = v.ty;
            let m = t.mask();
            let mut b = [0u8; 16];
            std::ptr::copy_nonoverlapping(at(v), b.as_mut_ptr(), t.size());
            let fin = u128::from_le_bytes(b);
            let ls: Vec<Local> = (0..c.nt).map(|t| LOCALS[t][i]).collect();
            busy += (ls.iter().filter(|l| l.count > 0).count() > 1) as u64;
            let who = format!("{} +{} {:?}", t.name(), v.off, v.fam);
            let n: u64 = ls.iter().map(|l| l.count).sum();
            match v.fam {
                Fam::Own => {
                    let mut e = v.init;
                    for (t_, l) in ls.iter().enumerate() {
                        let (sh, w) = own_bits(t, c.nt, t_);
                        e = e & !(mask(w) << sh) | l.own;
                    }
                    if fin != e {
                        return Err(format!("{who}: ends as {fin:#x}, the threads' own bits are {e:#x}"));
                    }
                }
                Fam::Flip => {
                    let other = if t.class() == Class::Float { v.init ^ 1 << (t.bits() - 1) } else if v.k == 1 { 0u128.wrapping_sub(v.init) & m } else { !v.init & m };
                    let e = if n % 2 == 1 { other } else { v.init };
                    if fin != e {
                        return Err(format!("{who}: {n} flips from {:#x} end as {fin:#x}", v.init));
                    }
                    let (g, k): (u64, u64) = (ls.iter().map(|l| l.given).sum(), ls.iter().map(|l| l.taken).sum());
                    if g == n && v.init != other && k != (n + 1) / 2 {
                        return Err(format!("{who}: {k} of {n} flips found the initial value"));
                    }
                }
                Fam::Max | Fam::Min => {
                    let mut e = key(t, v.init);
                    for b in ls.iter().filter_map(|l| l.best) {
                        e = if v.fam == Fam::Max { e.max(b) } else { e.min(b) };
                    }
                    if key(t, fin) != e {
                        return Err(format!("{who}: ends as {fin:#x}, the extreme is {e}"));
                    }
                }
                Fam::Sum => {
                    let s = ls.iter().fold(0u128, |a, l| a.wrapping_add(l.sum));
                    let e = if t.class() == Class::Float { fl(t, s as i64) } else { v.init.wrapping_add(s) & m };
                    let same = if t.class() == Class::Float { unfl(t, fin) == unfl(t, e) } else { fin == e };
                    if !same {
                        return Err(format!("{who}: ends as {fin:#x} instead of {e:#x} after {n} operations"));
                    }
                }
                Fam::Inc => {
                    let e = v.init.wrapping_add(n as u128) & m;
                    if fin != e {
                        return Err(format!("{who}: {n} increments from {:#x} end as {fin:#x}", v.init));
                    }
                    let p = ls.iter().fold(0u128, |a, l| a.wrapping_add(l.prevs)) & m;
                    let e = v.init.wrapping_mul(n as u128).wrapping_add((n as u128).wrapping_mul((n as u128).wrapping_sub(1)) / 2) & m;
                    // values wrapped at the width: only the sum modulo the width is known
                    if p != e {
                        return Err(format!("{who}: previous values of {n} increments add up to {p:#x} instead of {e:#x}"));
                    }
                }
                Fam::Token => {
                    let g = ls.iter().fold(hh(t, v.init), |a, l| a.wrapping_add(l.given));
                    let k = ls.iter().fold(hh(t, fin), |a, l| a.wrapping_add(l.taken));
                    if g != k {
                        return Err(format!("{who}: the values put in are not those taken out plus the last one ({n} replacements)"));
                    }
                }
                Fam::Seq => {
                    if fin != pat(t, ls[0].seen) {
                        return Err(format!("{who}: ends as {fin:#x}, the last store was number {}", ls[0].seen));
                    }
                }
            }
        }
        let img = std::slice::from_raw_parts(addr_of_mut!(MEM) as *const u8, 192);
        for (i, b) in img.iter().enumerate() {
            if *b != 0xc3 && !c.vars.iter().any(|v| i >= 64 + v.off && i < 64 + v.off + v.ty.size()) {
                return Err(format!("byte {} next to the variables changed", i as isize - 64));
            }
        }
        Ok(busy)
    }
}
fn main() {
    let a = Args::get();
    install_crash_handler();
    let maxt = a.u("threads", 4).clamp(2, 16) as usize;
    if a.s("replay").is_some() {
        let t = std::env::args().find(|x| x.starts_with("replay=")).unwrap();
        let c = Case::parse(&t["replay=".len()..]).expect("case");
        pool(c.nt);
        for _ in 0..a.u("times", 400) {
            if let Err(f) = run_case(&c, c.nt) {
                println!("FAIL index=0 {} ## {f}", c.text());
                std::process::exit(1);
            }
        }
        println!("PASS");
        std::process::exit(0);
    }
    let tys = a.tys(Ty::ALL);
    let (seed, stream) = (a.u("seed", 1), a.u("stream", 0));
    let (from, count, secs, ops) = (a.u("from", 0), a.u("count", 100), a.u("secs", 0), a.u("ops", 1500));
    if let Some(i) = a.s("show") {
        println!("case {}", gen(seed, stream, i.parse().unwrap(), &tys, maxt, ops).text());
        return;
    }
    pool(maxt);
    let t0 = std::time::Instant::now();
    let (mut n, mut nt, mut done, mut samples) = (0u64, 0u64, 0u64, a.u("samples", 0));
    let mut failed = false;
    for i in from..from + count {
        if secs > 0 && t0.elapsed().as_secs() >= secs {
            break;
        }
        tick(i);
        let c = gen(seed, stream, i, &tys, maxt, ops);
        match run_case(&c, maxt) {
            Ok(b) => {
                n += 1;
                nt += (b > 0) as u64;
                done += c.n * c.nt as u64;
                if samples > 0 && b > 0 {
                    samples -= 1;
                    println!("SAMPLE {}", c.text());
                }
            }
            Err(f) => {
                println!("FAIL index={i} {} ## {f}", c.text());
                failed = true;
                n += 1;
                break;
            }
        }
    }
    println!("STAT cases={n} distinct={nt} operations={done}");
    std::process::exit(failed as i32);
}
