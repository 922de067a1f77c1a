//! Pairs of operations on two variables between marked plain accesses; the driver looks at the instructions executed.
//! seed= stream= from= count= types= [sc=1]
#![no_std]
#![no_main]
use core::ptr::{addr_of_mut, read_volatile as rv, write_volatile as wv};
use vcore::op::*;
use vcore::rng::Rng;
use vcore::{real, seq};
use vcross::*;
entry!(main);
static mut TYS: [Ty; 32] = [Ty::Bool; 32];
static mut WA: seq::Win = seq::Win([0; seq::WIN]);
static mut WB: seq::Win = seq::Win([0; seq::WIN]);
#[repr(align(64))]
struct Mk([u32; 16]);
static mut MK: Mk = Mk([0; 16]);
struct One {
    ty: Ty,
    off: usize,
    init: u128,
    op: Op,
}
const ST: Op = Op { k: K::Store, o: SC, f: 0, a: 0, b: 0 };
/// How many (type, operation, orderings, outcome) there are; calls `f` with number `want`.
fn combo(tys: &[Ty], want: u64, f: &mut dyn FnMut(Ty, K, u8, u8, u8)) -> u64 {
    let mut n = 0;
    for t in tys {
        for k in t.conc_ops() {
            let os: &[u8] = match k {
                K::Load => &[RLX, ACQ, SC],
                K::Store => &[RLX, REL, SC],
                _ => &[0, 1, 2, 3, 4],
            };
            let fs: &[u8] = if k.has_fail_order() { &[RLX, ACQ, SC] } else { &[0] };
            for o in os {
                for q in fs {
                    // a compare-exchange that meets its value, and one that does not
                    for v in 0..if k.is_cas() { 2 } else { 1 } {
                        if n == want {
                            f(*t, *k, *o, *q, v);
                        }
                        n += 1;
                    }
                }
            }
        }
    }
    n
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn gen(r: &mut Rng, tys: &[Ty], sc: bool) -> One {
    let ty = r.pick(tys);
    let init = gen_val(r, ty, 0);
    let off = r.below((seq::WIN / ty.size()) as u64) as usize * ty.size();
    let mut op = gen_op(r, ty, init, ty.conc_ops());
    if sc {
        op.o = SC;
        if op.k.has_fail_order() {
            op.f = SC;
        }
    }
    One { ty, off, init, op }
}
/// Every combination once before any comes twice.
fn nth(r: &mut Rng, tys: &[Ty], k: u64) -> One {
    let n = combo(tys, u64::MAX, &mut |_, _, _, _, _| {});
    let mut st = n * 5 / 13 | 1;
    while gcd(st, n) != 1 {
        st += 1;
    }
    let mut got = None;
    combo(tys, k.wrapping_mul(st) % n, &mut |t, k, o, f, v| got = Some((t, k, o, f, v)));
    let (ty, k, o, f, v) = got.unwrap();
    let init = gen_val(r, ty, 0);
    let off = r.below((seq::WIN / ty.size()) as u64) as usize * ty.size();
    let mut op = gen_op(r, ty, init, &[k]);
    op.o = o;
    op.f = f;
    if k.is_cas() {
        if v == 0 {
            op.a = init;
        } else if op.a == init {
            op.a = init ^ 1;
        }
    }
    One { ty, off, init, op }
}
#[inline(never)]
#[no_mangle]
unsafe fn trgate(i: u32, a: &One, pa: *mut u8, b: &One, pb: *mut u8) -> (Res, Res) {
    let m = addr_of_mut!(MK) as *mut u32;
    wv(m, i);
    rv(m.add(1));
    let x = real::apply(a.ty, pa, &a.op);
    wv(m.add(2), i);
    rv(m.add(3));
    let y = real::apply(b.ty, pb, &b.op);
    wv(m.add(4), i);
    rv(m.add(5));
    // shows which words other than the variables the type's operations write (locks)
    real::apply(a.ty, pa, &ST);
    real::apply(b.ty, pb, &ST);
    wv(m.add(6), i);
    (x, y)
}
fn main() {
    let a = Args(input());
    model(&a);
    let tys = a.tys(unsafe { &mut *addr_of_mut!(TYS) });
    let (seed, stream, from, count) = (a.u("seed", 1), a.u("stream", 0), a.u("from", 0), a.u("count", 10));
    unsafe {
        let (wa, wb) = (addr_of_mut!(WA), addr_of_mut!(WB));
        for t in tys {
            let (_, _, lf, _) = real::info(*t);
            real::apply(*t, wa as *mut u8, &ST);
            say!("INFO {} {}", t.name(), lf as u8);
        }
        say!("MK {:x} {:x} {:x}", addr_of_mut!(MK) as usize, wa as usize, wb as usize);
        for i in from..from + count {
            let mut r = Rng::new(seed, stream, i);
            let (x, y) = if i % 4 == 3 {
                (gen(&mut r, tys, true), gen(&mut r, tys, true))
            } else {
                let c = (i / 4 * 3 + i % 4) * 2 + seed.wrapping_mul(977) + stream.wrapping_mul(313);
                (nth(&mut r, tys, c), nth(&mut r, tys, c + 1))
            };
            let (pa, pb) = ((wa as *mut u8).add(x.off), (wb as *mut u8).add(y.off));
            seq::store_bytes(&mut *wa, x.off, x.ty.size(), x.init);
            seq::store_bytes(&mut *wb, y.off, y.ty.size(), y.init);
            let (p, q) = trgate(i as u32, &x, pa, &y, pb);
            // may be left unwritten: a read-modify-write that changes nothing
            let keep = |x: &One, p: Res| matches!(step(x.ty, x.init, &x.op, p), Some(e) if meets(x.ty, e, x.init) && !matches!(x.op.k, K::Load | K::Store | K::Swap)) as u8;
            say!("T {}|{} {:x} {} {:?} init={:#x} keep={} -> {:?}|{} {:x} {} {:?} init={:#x} keep={} -> {:?}", i, x.ty.name(), pa as usize, x.ty.size(), x.op, x.init, keep(&x, p), p, y.ty.name(), pb as usize, y.ty.size(), y.op, y.init, keep(&y, q), q);
        }
    }
}
