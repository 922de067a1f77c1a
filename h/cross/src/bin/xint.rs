//! An operation interrupted, at an instruction the driver chooses, by a signal handler that operates
//! on the same variable or its neighbour. seed= stream= from= count= types=
#![no_std]
#![no_main]
use core::ptr::addr_of_mut;
use vcore::op::*;
use vcore::real;
use vcore::rng::Rng;
use vcross::*;
entry!(main);

/// [case number, 1 while the operation runs (2 at the end of the handler)]
#[no_mangle]
static mut XSTATE: [u32; 2] = [0; 2];
#[no_mangle]
#[inline(never)]
extern "C" fn gate() {
    unsafe { core::ptr::write_volatile(addr_of_mut!(XSTATE[1]), 1) };
}
#[no_mangle]
#[inline(never)]
extern "C" fn gend() {
    unsafe { core::ptr::write_volatile(addr_of_mut!(XSTATE[1]), 0) };
}
#[no_mangle]
#[inline(never)]
extern "C" fn hgate() {
    unsafe { core::ptr::write_volatile(addr_of_mut!(XSTATE[1]), 1) };
}
#[derive(Clone, Copy)]
struct H {
    on_b: bool,
    raw: bool,
    op: Op,
}
const NOP: Op = Op { k: K::Load, o: 0, f: 0, a: 0, b: 0 };
const NH: usize = 6;
static mut HS: [H; NH] = [H { on_b: false, raw: false, op: NOP }; NH];
static mut HR: [Res; NH] = [Res { k: Rk::Unit, v: 0 }; NH];
static mut HN: usize = 0; // planned
static mut HD: usize = 0; // done
static mut PER: usize = 1; // per signal
static mut TY: Ty = Ty::U8;
#[repr(align(64))]
struct Mem([u8; 128]);
static mut MEM: Mem = Mem([0; 128]);
static mut A: *mut u8 = core::ptr::null_mut();
static mut B: *mut u8 = core::ptr::null_mut();

/// The harness's own compare-exchange, on memory the type says can be accessed so.
#[allow(unused_variables)]
unsafe fn raw_cas(ty: Ty, p: *mut u8, old: u128, new: u128) -> u128 {
    use core::sync::atomic::*;
    const O: Ordering = Ordering::SeqCst;
    #[allow(unused_macros)]
    macro_rules! c {
        ($A:ty, $t:ty) => {{
            match (*(p as *const $A)).compare_exchange(old as $t, new as $t, O, O) {
                Ok(v) | Err(v) => v as u128,
            }
        }};
    }
    match ty.bits() {
        #[cfg(target_has_atomic = "8")]
        8 => c!(AtomicU8, u8),
        #[cfg(target_has_atomic = "16")]
        16 => c!(AtomicU16, u16),
        #[cfg(target_has_atomic = "32")]
        32 => c!(AtomicU32, u32),
        #[cfg(target_has_atomic = "64")]
        64 => c!(AtomicU64, u64),
        _ => unreachable!(),
    }
}
fn raw_ok(ty: Ty, k: K) -> bool {
    let w = match ty.bits() {
        8 => cfg!(target_has_atomic = "8"),
        16 => cfg!(target_has_atomic = "16"),
        32 => cfg!(target_has_atomic = "32"),
        64 => cfg!(target_has_atomic = "64"),
        _ => false,
    };
    // old ARM: core's small atomics are kernel-helper calls through the toolchain's own runtime
    w && !cfg!(all(target_arch = "arm", not(target_feature = "v6"))) && ty.class() == Class::Int && matches!(k, K::Load | K::Store | K::Swap | K::Cas | K::FAdd | K::FXor | K::FMax)
}
unsafe fn raw_apply(ty: Ty, p: *mut u8, op: &Op) -> Res {
    let mut cur = raw_cas(ty, p, 0, 0);
    loop {
        let (new, r) = match op.k {
            K::Load => return Res { k: Rk::Val, v: cur },
            K::Cas => {
                if cur != op.a & ty.mask() {
                    return Res { k: Rk::Err, v: cur };
                }
                (op.b & ty.mask(), Res { k: Rk::Ok, v: cur })
            }
            _ => {
                let r = if op.k == K::Store { Res { k: Rk::Unit, v: 0 } } else { Res { k: Rk::Val, v: cur } };
                match step(ty, cur, op, r) {
                    Some(Exp::Is(n)) => (n, r),
                    _ => return Res { k: Rk::Unit, v: 1 },
                }
            }
        };
        let seen = raw_cas(ty, p, cur, new);
        if seen == cur {
            return r;
        }
        cur = seen;
    }
}
extern "C" fn handler(_: i32) {
    unsafe {
        if core::ptr::read_volatile(addr_of_mut!(XSTATE[1])) != 1 {
            return;
        }
        let mut i = 0;
        while i < PER && HD < HN {
            let h = HS[HD];
            let p = if h.on_b { B } else { A };
            HR[HD] = if h.raw { raw_apply(TY, p, &h.op) } else { real::apply(TY, p, &h.op) };
            HD += 1;
            i += 1;
        }
        // returning from an interrupt gives up any reservation; qemu leaves that to the program
        #[cfg(target_has_atomic = "ptr")]
        {
            static SCRATCH: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
            #[cfg(not(target_arch = "loongarch64"))]
            SCRATCH.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
            // fetch_add would not take a reservation here
            #[cfg(target_arch = "loongarch64")]
            core::arch::asm!("ll.d {r}, {p}, 0", "sc.d {r}, {p}, 0", p = in(reg) &SCRATCH, r = out(reg) _);
        }
        core::ptr::write_volatile(addr_of_mut!(XSTATE[1]), 2);
        hgate();
    }
}
unsafe fn peek(p: *const u8, n: usize) -> u128 {
    let mut v = 0u128;
    let mut i = 0;
    while i < n {
        let b = core::ptr::read_volatile(p.add(i)) as u128;
        if cfg!(target_endian = "little") {
            v |= b << (8 * i);
        } else {
            v = v << 8 | b;
        }
        i += 1;
    }
    v
}
unsafe fn poke(p: *mut u8, n: usize, v: u128) {
    let mut i = 0;
    while i < n {
        let sh = if cfg!(target_endian = "little") { 8 * i } else { 8 * (n - 1 - i) };
        core::ptr::write_volatile(p.add(i), (v >> sh) as u8);
        i += 1;
    }
}
/// Is there a place for (op, r) among the handler's operations on A that explains everything?
unsafe fn explained(ty: Ty, init: u128, op: &Op, r: Res, fin: u128) -> bool {
    fn go(ty: Ty, cur: u128, i: usize, placed: bool, op: &Op, r: Res, fin: u128) -> bool {
        unsafe {
            let mut j = i;
            while j < HD && HS[j].on_b {
                j += 1;
            }
            if j >= HD && placed {
                return cur == fin;
            }
            let next = |e: Option<Exp>, f: &dyn Fn(u128) -> bool| -> bool {
                match e {
                    None => false,
                    Some(Exp::Is(x)) => f(x),
                    Some(e) => {
                        // not determined by the operation: what anyone has seen
                        let mut k = 0;
                        while k < HD {
                            if meets(ty, e, HR[k].v) && f(HR[k].v) {
                                return true;
                            }
                            k += 1;
                        }
                        (meets(ty, e, fin) && f(fin)) || (meets(ty, e, r.v) && f(r.v)) || (meets(ty, e, ty.mask()) && f(ty.mask()))
                    }
                }
            };
            if !placed && next(step(ty, cur, op, r), &|x| go(ty, x, j, true, op, r, fin)) {
                return true;
            }
            if j < HD {
                return next(step(ty, cur, &HS[j].op, HR[j]), &|x| go(ty, x, j + 1, placed, op, r, fin));
            }
            false
        }
    }
    go(ty, init, 0, false, op, r, fin)
}
unsafe fn install() {
    #[cfg(any(target_arch = "mips", target_arch = "mips64"))]
    let (sig, sz) = (16, 16);
    #[cfg(not(any(target_arch = "mips", target_arch = "mips64")))]
    let (sig, sz) = (10, 8);
    let h = handler as extern "C" fn(i32) as *const () as usize;
    let mut sa = [0usize; 24];
    #[cfg(any(target_arch = "mips", target_arch = "mips64"))]
    {
        // {unsigned flags; handler; mask}
        sa[1] = h;
    }
    #[cfg(not(any(target_arch = "mips", target_arch = "mips64")))]
    {
        sa[0] = h;
    }
    let r = sys(SIGACTION, sig, sa.as_ptr() as usize, 0, sz);
    if r != 0 {
        say!("ERROR sigaction {}", r);
        exit(3);
    }
}
static mut TYS: [Ty; 32] = [Ty::Bool; 32];
fn main() {
    let a = Args(input());
    unsafe {
        model(&a);
        install();
        let all = a.tys(&mut *addr_of_mut!(TYS));
        let (seed, stream, from, count) = (a.u("seed", 1), a.u("stream", 0), a.u("from", 0), a.u("count", 1 << 40));
        let mut kept = [Ty::Bool; 32];
        let mut nk = 0;
        for t in all {
            if real::info(*t).2 {
                kept[nk] = *t;
                nk += 1;
            }
        }
        if nk == 0 {
            say!("NONE");
            return;
        }
        let tys = &kept[..nk];
        let (mut n, mut nt, mut hit) = (0u64, 0u64, 0u64);
        for i in from..from + count {
            let mut r = Rng::new(seed, stream, i);
            let ty = tys[(i % nk as u64) as usize];
            TY = ty;
            let sz = ty.size();
            let m = addr_of_mut!(MEM) as *mut u8;
            let mut j = 0;
            while j < 128 {
                core::ptr::write_volatile(m.add(j), 0x3c);
                j += 1;
            }
            let slot = r.below((64 / sz - 1) as u64) as usize;
            let (oa, ob) = if r.chance(1, 2) { (slot, slot + 1) } else { (slot + 1, slot) };
            A = m.add(32 + oa * sz);
            B = m.add(32 + ob * sz);
            let (ia, ib) = (gen_val(&mut r, ty, 0), gen_val(&mut r, ty, 0));
            poke(A, sz, ia);
            poke(B, sz, ib);
            let ks = ty.conc_ops();
            let op = gen_op(&mut r, ty, ia, ks);
            PER = 1 + r.below(2) as usize;
            HN = 1 + r.below(NH as u64) as usize;
            HD = 0;
            let after = vcore::seq::predict(ty, ia, &op);
            let mut pool = [ia, after, ia ^ 1 << r.below(ty.bits() as u64) & ty.mask(), ia];
            for h in 0..HN {
                let cur = r.pick(&pool);
                let o = if r.chance(1, 4) { Op { k: K::Store, o: RLX, f: 0, a: if r.chance(1, 2) { cur } else { r.u128() & ty.mask() }, b: 0 } } else { gen_op(&mut r, ty, cur, ks) };
                pool[3] = vcore::seq::predict(ty, cur, &o);
                HS[h] = H { on_b: r.chance(1, 3), raw: raw_ok(ty, o.k) && r.chance(1, 4), op: o };
            }
            core::ptr::write_volatile(addr_of_mut!(XSTATE[0]), i as u32 + 1);
            gate();
            let res = real::apply(ty, A, &op);
            gend();
            n += 1;
            hit += (HD > 0) as u64;
            let (fa, fb) = (peek(A, sz), peek(B, sz));
            let mut bad = "";
            if !explained(ty, ia, &op, res, fa) {
                bad = "no order of the operations explains the results";
            }
            // the neighbour belongs to the handler alone
            let mut cur = Exp::Is(ib);
            let mut changed = false;
            for h in 0..HD {
                if HS[h].on_b {
                    if let Exp::Is(c) = cur {
                        match step(ty, c, &HS[h].op, HR[h]) {
                            Some(e) => {
                                cur = e;
                            }
                            None => {
                                bad = "an operation on the neighbour gives a wrong result";
                                cur = Exp::Is(fb);
                            }
                        }
                    } else {
                        // not determined: stop looking
                        cur = Exp::Is(fb);
                        break;
                    }
                } else {
                    changed = true;
                }
            }
            if !meets(ty, cur, fb) && bad.is_empty() {
                let mut undet = false;
                for h in 0..HD {
                    undet |= HS[h].on_b && ty.class() == Class::Float;
                }
                if !undet {
                    bad = "the neighbour's value is wrong";
                }
            }
            let mut j = 0;
            while j < 128 && bad.is_empty() {
                let p = m.add(j);
                let inside = (p >= A && p < A.add(sz)) || (p >= B && p < B.add(sz));
                if !inside && core::ptr::read_volatile(p) != 0x3c {
                    bad = "a byte outside the variables changed";
                }
                j += 1;
            }
            nt += (HD > 0 && changed && (fa != ia || matches!(op.k, K::Load))) as u64;
            if !bad.is_empty() {
                say!("FAIL index={} {} ## {}: {} A={:#x}->{:#x} (slot {}) B={:#x}->{:#x} (slot {}): {:?} -> {:?} interrupted by", i, ty.name(), ty.name(), bad, ia, fa, oa, ib, fb, ob, op, res);
                for h in 0..HD {
                    say!("FAIL+ {}{} {:?} -> {:?};", if HS[h].on_b { "B " } else { "A " }, if HS[h].raw { "raw" } else { "lib" }, HS[h].op, HR[h]);
                }
                exit(1);
            }
            if i == from + 5 || i % 997 == 0 {
                say!("SAMPLE {} A={:#x}->{:#x} B={:#x}: {:?} -> {:?}; in the handler: {} operations{}", ty.name(), ia, fa, ib, op, res, HD, if HD > 0 && !HS[0].on_b { ", first on A" } else { "" });
            }
            if n % 16 == 0 || n == count {
                say!("STAT+ cases={} distinct={} interrupted={}", n, nt, hit);
                OUT.flush();
            }
        }
    }
}
