//! Programs to be run under Miri: it decides about undefined behaviour, data races and provenance; values are judged
//! outside (h/mirx), which also generates the cases of mode=run (on standard input; results on standard output).
//! mode=run | mode=ptr|own seed= stream= from= count= times=
#![cfg_attr(portable_atomic_unstable_f16, feature(f16))]
#![cfg_attr(portable_atomic_unstable_f128, feature(f128))]
use portable_atomic as pa;
use std::alloc::Layout;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use vcore::mir::{self, Head, OpR, ResR};
use vcore::op::*;
use vcore::real::{apply, ord};
use vcore::rng::Rng;

struct Ctx {
    /// what was done, as numbers; text is only made of it for a failure
    text: Vec<(&'static str, usize)>,
    index: u64,
}
impl Ctx {
    fn fail(&self, d: &str) -> ! {
        println!("FAIL index={} {} ## {}", self.index, self.show(), d);
        std::process::exit(1);
    }
    fn show(&self) -> String {
        self.text.iter().map(|(a, b)| format!("{a}({b:#x})")).collect::<Vec<_>>().join(" ")
    }
}
fn main() {
    let a: HashMap<String, String> = std::env::args().skip(1).filter_map(|x| x.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
    let u = |k: &str, d: u64| a.get(k).map_or(d, |x| x.parse().unwrap());
    let (seed, stream) = (u("seed", 1), u("stream", 0));
    let (from, count, times) = (u("from", 0), u("count", 10), u("times", 1));
    let mode = a.get("mode").map_or("run", |x| x);
    if mode == "run" {
        return run();
    }
    let mut c = Ctx { text: vec![], index: 0 };
    for i in from..from + count {
        for _ in 0..times {
            c.index = i;
            c.text.clear();
            println!("AT {i}");
            let mut r = Rng::new(seed, stream, i);
            match mode {
                "ptr" => ptr(&mut c, &mut r),
                "own" => own(&mut c, &mut r),
                x => panic!("mode {x}"),
            }
            if u("show", 0) == 1 {
                println!("CASE {}", c.show());
            }
        }
    }
    println!("STAT cases={}", count * times);
}

// ---- cases from outside
struct Mem {
    base: *mut u8,
    layout: Layout,
}
impl Mem {
    fn new(n: usize) -> Mem {
        let layout = Layout::from_size_align(n, n).unwrap();
        Mem { base: unsafe { std::alloc::alloc(layout) }, layout }
    }
}
impl Drop for Mem {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.base, self.layout) }
    }
}
/// The plain value. AtomicPtr holds pointers: they are written and read as such.
unsafe fn init(ty: Ty, p: *mut u8, v: u128) {
    match (ty.class(), ty.size()) {
        (Class::Ptr, _) => (p as *mut *mut u8).write(std::ptr::without_provenance_mut(v as usize)),
        (_, 1) => p.write(v as u8),
        (_, 2) => (p as *mut u16).write(v as u16),
        (_, 4) => (p as *mut u32).write(v as u32),
        (_, 8) => p.cast::<[u8; 8]>().write((v as u64).to_ne_bytes()),
        _ => p.cast::<[u8; 16]>().write(v.to_ne_bytes()),
    }
}
unsafe fn plain(ty: Ty, p: *const u8) -> u128 {
    match (ty.class(), ty.size()) {
        (Class::Ptr, _) => (p as *const *mut u8).read().addr() as u128,
        (_, 1) => p.read() as u128,
        (_, 2) => (p as *const u16).read() as u128,
        (_, 4) => (p as *const u32).read() as u128,
        (_, 8) => u64::from_ne_bytes(p.cast::<[u8; 8]>().read()) as u128,
        _ => u128::from_ne_bytes(p.cast::<[u8; 16]>().read()),
    }
}
struct Sh<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Sh<T> {}
#[derive(Clone, Copy)]
struct P(*mut u8);
unsafe impl Send for P {}
unsafe impl Sync for P {}
impl P {
    fn p(self) -> *mut u8 {
        self.0
    }
}
#[derive(Clone, Copy)]
#[repr(align(16))]
#[allow(dead_code)]
struct W([u32; 4]);
fn run() {
    let mut inp = vec![];
    std::io::stdin().read_to_end(&mut inp).unwrap();
    let mut buf = vec![W([0; 4]); inp.len() / 16];
    unsafe { std::ptr::copy_nonoverlapping(inp.as_ptr(), buf.as_mut_ptr() as *mut u8, inp.len()) };
    drop(inp);
    let mut out = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(1) });
    let mut res: Vec<ResR> = vec![];
    let (hw, ow) = (std::mem::size_of::<Head>() / 16, std::mem::size_of::<OpR>() / 16);
    let mut at = 0;
    while at < buf.len() {
        let h = unsafe { *(buf.as_ptr().add(at) as *const Head) };
        at += hw;
        let n: usize = h.n.iter().map(|x| *x as usize).sum();
        let ops = unsafe { std::slice::from_raw_parts(buf.as_ptr().add(at) as *const OpR, n) };
        at += n * ow;
        res.clear();
        res.push(ResR { k: mir::START, v: h.index as u128, ..ResR::default() });
        put(&mut out, &res);
        res.clear();
        case(&h, ops, &mut res);
        put(&mut out, &res);
    }
    res.clear();
    res.push(ResR { k: mir::END, ..ResR::default() });
    put(&mut out, &res);
}
fn put(f: &mut std::fs::File, res: &[ResR]) {
    let b = unsafe { std::slice::from_raw_parts(res.as_ptr() as *const u8, std::mem::size_of_val(res)) };
    f.write_all(b).unwrap();
}
fn op(o: &OpR) -> Op {
    Op { k: K::ALL[o.k as usize], o: o.o, f: o.f, a: o.a, b: o.b }
}
fn rec(q: Res, thread: usize) -> ResR {
    ResR { k: q.k as u8, v: q.v, thread: thread as u8, ..ResR::default() }
}
fn case(h: &Head, ops: &[OpR], res: &mut Vec<ResR>) {
    let (nv, rounds) = (h.nv as usize, h.rounds as usize);
    let mut mems: Vec<Mem> = Vec::with_capacity(4 * rounds);
    let mut ty = [Ty::Bool; 4];
    let mut at: Vec<[P; 4]> = Vec::with_capacity(rounds);
    for _ in 0..rounds {
        let mut a = [P(std::ptr::null_mut()); 4];
        for v in 0..nv {
            if v == 0 || h.one == 0 {
                mems.push(Mem::new(h.room[v] as usize));
            }
            a[v] = P(unsafe { mems[mems.len() - 1].base.add(h.off[v] as usize) });
            ty[v] = Ty::ALL[h.ty[v] as usize];
            unsafe { init(ty[v], a[v].p(), h.init[v]) };
        }
        at.push(a);
    }
    let n0 = h.n[0] as usize;
    match h.kind {
        mir::SEQ => unsafe {
            for o in ops {
                let q = apply(ty[0], at[0][0].p(), &op(o));
                res.push(ResR { now: plain(ty[0], at[0][0].p()), ..rec(q, 0) });
            }
        },
        mir::PASS => {
            if let Some((y, z)) = pass(h.flags & 1 != 0, &ty, &at, &ops[..n0], &ops[n0..n0 + h.n[1] as usize], ops[n0 + h.n[1] as usize..].first()) {
                res.push(ResR { k: mir::BAD, v: y as u128, now: z, ..ResR::default() });
            }
        }
        _ => {
            let (ty, at) = (&ty, &at);
            std::thread::scope(|s| {
                let mut o = 0;
                let hs: Vec<_> = (0..h.nt as usize)
                    .map(|t| {
                        let mine = &ops[o..o + h.n[t] as usize];
                        o += mine.len();
                        s.spawn(move || {
                            let mut q = Vec::with_capacity(mine.len() * rounds);
                            for a in at {
                                for x in mine {
                                    let v = x.var as usize;
                                    q.push(rec(unsafe { apply(ty[v], a[v].p(), &op(x)) }, t));
                                }
                            }
                            q
                        })
                    })
                    .collect();
                for h in hs {
                    res.extend_from_slice(&h.join().unwrap());
                }
            });
            for a in at {
                for v in 0..nv {
                    res.push(ResR { k: mir::FINAL, v: unsafe { plain(ty[v], a[v].p()) }, ..ResR::default() });
                }
            }
        }
    }
}
/// One thread writes data and sets bit 0 of a variable; another that sees the bit looks at the data. Between them the
/// orderings (or fences) say whether it may look.
fn pass(fence: bool, ty: &[Ty; 4], at: &[[P; 4]], setter: &[OpR], reads: &[OpR], mid: Option<&OpR>) -> Option<(u32, u128)> {
    let (w, put, look) = (op(&setter[0]), op(&setter[1]), op(&setter[2]));
    let (ty, dty) = (ty[0], ty[1]);
    let cells: Vec<Sh<u32>> = at.iter().map(|_| Sh(UnsafeCell::new(0))).collect();
    let cells = &cells;
    std::thread::scope(|s| {
        s.spawn(move || unsafe {
            for (a, cell) in at.iter().zip(cells) {
                *cell.0.get() = 7;
                apply(dty, a[1].p(), &put);
                if fence {
                    pa::fence(pa::Ordering::Release);
                }
                apply(ty, a[0].p(), &w);
            }
        });
        if let Some(m) = mid {
            s.spawn(move || unsafe {
                for a in at {
                    apply(ty, a[0].p(), &op(m));
                }
            });
        }
        let h = s.spawn(move || unsafe {
            for (a, cell) in at.iter().zip(cells) {
                for o in reads {
                    let o = op(o);
                    let q = apply(ty, a[0].p(), &o);
                    let (seen, eo) = match q.k {
                        Rk::Err => (q.v & 1 == 1, o.f),
                        Rk::Val | Rk::Ok => (q.v & 1 == 1, o.o),
                        Rk::Bit => (q.v == 1, o.o),
                        Rk::Unit => (false, 0),
                    };
                    if seen && (fence || matches!(eo, ACQ | AR | SC)) {
                        if fence {
                            pa::fence(pa::Ordering::Acquire);
                        }
                        let y = *cell.0.get();
                        let z = apply(dty, a[1].p(), &look);
                        if y != 7 || z.v != put.a {
                            return Some((y, z.v));
                        }
                        break;
                    }
                    // the variable is this reader's own from here on
                    if !matches!(o.k, K::Load) && q.k != Rk::Err {
                        break;
                    }
                }
            }
            None
        });
        h.join().unwrap()
    })
}

// ---- provenance: pointers into a few objects, moved about and tagged, used again after every operation
fn ptr(c: &mut Ctx, r: &mut Rng) {
    match r.below(3) {
        0 => ptr_as::<u8>(c, r),
        1 => ptr_as::<[u16; 3]>(c, r),
        _ => ptr_as::<()>(c, r),
    }
}
#[repr(align(16))]
#[allow(dead_code)]
struct Obj([u8; 48]);
fn ptr_as<T>(c: &mut Ctx, r: &mut Rng) {
    let sz = std::mem::size_of::<T>();
    let objs: Vec<*mut u8> = (0..3).map(|_| Box::into_raw(Box::new(Obj([0; 48]))) as *mut u8).collect();
    let mut stamp = 0u8;
    // the pointer's origin (none: null or an integer) and the address it should have
    let mk = |r: &mut Rng| -> (*mut T, Option<usize>, usize) {
        if r.chance(1, 6) {
            (std::ptr::null_mut(), None, 0)
        } else {
            let k = r.below(3) as usize;
            let off = r.below(56) as usize;
            (objs[k].wrapping_add(off).wrapping_sub(4) as *mut T, Some(k), objs[k].addr().wrapping_add(off).wrapping_sub(4))
        }
    };
    let (p0, mut org, mut adr) = mk(r);
    let x: pa::AtomicPtr<T> = match r.below(3) {
        0 => pa::AtomicPtr::new(p0),
        1 => pa::AtomicPtr::from(p0),
        _ => {
            let d = pa::AtomicPtr::<T>::default();
            d.store(p0, pa::Ordering::Relaxed);
            d
        }
    };
    let mut x = x;
    c.text.push(("ptr size", sz));
    c.text.push(("start", org.map_or(adr, |k| k << 16 | adr.wrapping_sub(objs[k].addr()) & 0xffff)));
    let n = 3 + r.below(8);
    for _ in 0..n {
        let o = ord(r.below(5) as u8);
        let f = ord(r.pick(&[RLX, ACQ, SC]));
        let small = r.below(20) as usize;
        let low = r.below(16) as usize;
        let k = r.below(18);
        let (prev, what): (Option<*mut T>, (&'static str, usize));
        let (porg, padr) = (org, adr);
        match k {
            0 | 1 => {
                let (p, g, a) = mk(r);
                x.store(p, ord(r.pick(&[RLX, REL, SC])));
                (org, adr) = (g, a);
                (prev, what) = (None, ("store", 0));
            }
            2 | 3 => {
                let (p, g, a) = mk(r);
                prev = Some(x.swap(p, o));
                (org, adr) = (g, a);
                what = ("swap", 0);
            }
            4..=6 => {
                let (p, g, a) = mk(r);
                // what is expected: the pointer read before, an equal address with other or no provenance, another
                let cur = x.load(f);
                let e = match r.below(4) {
                    0 => std::ptr::without_provenance_mut(cur.addr()),
                    1 => mk(r).0,
                    _ => cur,
                };
                let q = if r.chance(1, 2) { x.compare_exchange(e, p, o, f) } else { x.compare_exchange_weak(e, p, o, f) };
                match q {
                    Ok(v) => {
                        if e.addr() != padr {
                            c.fail("compare-exchange succeeded though the address differs");
                        }
                        prev = Some(v);
                        (org, adr) = (g, a);
                    }
                    Err(v) => prev = Some(v),
                }
                what = ("cas", q.is_ok() as usize);
            }
            7 => {
                prev = Some(x.fetch_ptr_add(small, o));
                adr = adr.wrapping_add(small * sz);
                what = ("fetch_ptr_add", small);
            }
            8 => {
                prev = Some(x.fetch_ptr_sub(small, o));
                adr = adr.wrapping_sub(small * sz);
                what = ("fetch_ptr_sub", small);
            }
            9 => {
                prev = Some(x.fetch_byte_add(small, o));
                adr = adr.wrapping_add(small);
                what = ("fetch_byte_add", small);
            }
            10 => {
                prev = Some(x.fetch_byte_sub(small, o));
                adr = adr.wrapping_sub(small);
                what = ("fetch_byte_sub", small);
            }
            11 => {
                prev = Some(x.fetch_or(low, o));
                adr |= low;
                what = ("fetch_or", low);
            }
            12 => {
                prev = Some(x.fetch_and(!low, o));
                adr &= !low;
                what = ("fetch_and", low);
            }
            13 => {
                prev = Some(x.fetch_xor(low, o));
                adr ^= low;
                what = ("fetch_xor", low);
            }
            14 => {
                let b = r.below(5) as u32;
                let (was, m) = (adr & 1 << b != 0, r.below(3));
                let q = match m {
                    0 => {
                        adr |= 1 << b;
                        x.bit_set(b, o)
                    }
                    1 => {
                        adr &= !(1 << b);
                        x.bit_clear(b, o)
                    }
                    _ => {
                        adr ^= 1 << b;
                        x.bit_toggle(b, o)
                    }
                };
                if q != was {
                    c.fail("a bit operation returned the wrong bit");
                }
                (prev, what) = (None, (["bit_set", "bit_clear", "bit_toggle"][m as usize], b as usize));
            }
            15 => {
                let none = r.chance(1, 4);
                let q = x.fetch_update(o, f, |p| if none { None } else { Some(p.map_addr(|a| a ^ low)) });
                if !none {
                    adr ^= low;
                }
                prev = Some(match q {
                    Ok(v) | Err(v) => v,
                });
                what = (if none { "fetch_update none" } else { "fetch_update" }, low);
            }
            16 => {
                let m = x.get_mut();
                prev = Some(*m);
                let (p, g, a) = mk(r);
                *m = p;
                (org, adr) = (g, a);
                what = ("get_mut", 0);
            }
            _ => {
                let v = x.into_inner();
                x = if r.chance(1, 2) { pa::AtomicPtr::new(v) } else { unsafe { std::mem::transmute::<*mut T, pa::AtomicPtr<T>>(v) } };
                prev = Some(v);
                what = ("into_inner", 0);
            }
        }
        c.text.push(what);
        // both what came out and what is in there now still reach their objects
        let now = match r.below(4) {
            0 => x.load(ord(r.pick(&[RLX, ACQ, SC]))),
            1 => unsafe { x.as_ptr().read() },
            2 => *x.get_mut(),
            _ => {
                let at: *mut *mut T = x.as_ptr();
                unsafe { pa::AtomicPtr::from_ptr(at).load(pa::Ordering::Relaxed) }
            }
        };
        for (p, g, a) in [(Some(now), org, adr), (prev, porg, padr)] {
            let Some(p) = p else { continue };
            if p.addr() != a {
                c.fail(&format!("the pointer is {:#x}, not {:#x}", p.addr(), a));
            }
            let Some(g) = g else { continue };
            let off = r.below(48) as usize;
            stamp = stamp.wrapping_add(1);
            let there = objs[g].addr().wrapping_add(off);
            unsafe {
                (p as *mut u8).wrapping_offset(there.wrapping_sub(a) as isize).write(stamp);
                if objs[g].wrapping_add(off).read() != stamp {
                    c.fail("a byte written through the pointer is not there");
                }
            }
        }
    }
    drop(x);
    for o in objs {
        drop(unsafe { Box::from_raw(o as *mut Obj) });
    }
}

// ---- ownership passed through an AtomicPtr between threads
fn own(c: &mut Ctx, r: &mut Rng) {
    let nt = 2 + r.below(2) as usize;
    let per = 2 + r.below(4);
    let tag = r.below(8) as usize;
    let how: Vec<u64> = (0..nt).map(|_| r.below(4)).collect();
    c.text.push(("own threads", nt));
    c.text.push(("rounds", per as usize));
    c.text.push(("tag", tag));
    for h in &how {
        c.text.push(("how", *h as usize));
    }
    #[repr(align(8))]
    struct Node(u64, u64);
    let slot = pa::AtomicPtr::<Node>::default();
    let mut freed = 0u64;
    let take = |p: *mut Node| -> u64 {
        let p = p.map_addr(|a| a & !7);
        if p.is_null() {
            return 0;
        }
        let b = unsafe { Box::from_raw(p) };
        if b.0 ^ b.1 != 0x5555 {
            println!("FAIL index={} ## the object behind the pointer does not hold what was written before it was passed on", 0);
            std::process::exit(1);
        }
        1
    };
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (slot, how, take) = (&slot, how[t], &take);
                s.spawn(move || {
                    let mut n = 0;
                    for i in 0..per {
                        let v = (t as u64) << 32 | i;
                        let p = Box::into_raw(Box::new(Node(v, v ^ 0x5555)));
                        match how {
                            // everything is handed over by AcqRel operations
                            0 => n += take(slot.swap(p.map_addr(|a| a | tag), pa::Ordering::AcqRel)),
                            1 => {
                                let mut cur = slot.load(pa::Ordering::Relaxed);
                                loop {
                                    match slot.compare_exchange_weak(cur, p, pa::Ordering::AcqRel, pa::Ordering::Relaxed) {
                                        Ok(q) => {
                                            n += take(q);
                                            break;
                                        }
                                        Err(q) => cur = q,
                                    }
                                }
                            }
                            2 => n += take(slot.fetch_update(pa::Ordering::AcqRel, pa::Ordering::Acquire, |_| Some(p)).unwrap()),
                            _ => {
                                n += take(slot.swap(p, pa::Ordering::SeqCst));
                                slot.fetch_xor(tag, pa::Ordering::Relaxed);
                                slot.fetch_byte_add(0, pa::Ordering::Relaxed);
                                n += take(slot.swap(std::ptr::null_mut(), pa::Ordering::SeqCst).map_addr(|a| a & !7));
                            }
                        }
                    }
                    n
                })
            })
            .collect();
        for h in hs {
            freed += h.join().unwrap();
        }
    });
    freed += take(slot.into_inner());
    if freed != nt as u64 * per {
        c.fail(&format!("{freed} objects came out of {} that went in", nt as u64 * per));
    }
}

