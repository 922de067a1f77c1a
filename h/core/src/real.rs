//! The same operations on the real atomics.
use crate::op::*;
use core::sync::atomic::Ordering;
use portable_atomic as pa;

#[inline(always)]
pub fn ord(o: u8) -> Ordering {
    match o {
        0 => Ordering::Relaxed,
        1 => Ordering::Release,
        2 => Ordering::Acquire,
        3 => Ordering::AcqRel,
        _ => Ordering::SeqCst,
    }
}
const UNIT: Res = Res { k: Rk::Unit, v: 0 };
#[inline(always)]
fn val(v: u128) -> Res {
    Res { k: Rk::Val, v }
}
#[inline(always)]
fn res<T>(r: Result<T, T>, f: impl Fn(T) -> u128) -> Res {
    match r {
        Ok(v) => Res { k: Rk::Ok, v: f(v) },
        Err(v) => Res { k: Rk::Err, v: f(v) },
    }
}
#[inline(always)]
fn bit(b: bool) -> Res {
    Res { k: Rk::Bit, v: b as u128 }
}

macro_rules! int {
    ($f:ident, $lf:ident, $A:ident, $t:ty, $u:ty) => {
        #[inline(never)]
        pub fn $f(x: &pa::$A, op: &Op, ty: Ty) -> Res {
            let o = ord(op.o);
            let a = op.a as $u as $t;
            let b = op.b as $u as $t;
            let v = |r: $t| val(r as $u as u128);
            match op.k {
                K::Load => v(x.load(o)),
                K::Store => {
                    x.store(a, o);
                    UNIT
                }
                K::Swap => v(x.swap(a, o)),
                K::Cas => res(x.compare_exchange(a, b, o, ord(op.f)), |r| r as $u as u128),
                K::CasW => res(x.compare_exchange_weak(a, b, o, ord(op.f)), |r| r as $u as u128),
                K::Upd => res(
                    x.fetch_update(o, ord(op.f), |c| upd(ty, c as $u as u128, op.a, op.b).map(|n| n as $u as $t)),
                    |r| r as $u as u128,
                ),
                K::FAdd => v(x.fetch_add(a, o)),
                K::Add => {
                    x.add(a, o);
                    UNIT
                }
                K::FSub => v(x.fetch_sub(a, o)),
                K::Sub => {
                    x.sub(a, o);
                    UNIT
                }
                K::FAnd => v(x.fetch_and(a, o)),
                K::And => {
                    x.and(a, o);
                    UNIT
                }
                K::FNand => v(x.fetch_nand(a, o)),
                K::FOr => v(x.fetch_or(a, o)),
                K::Or => {
                    x.or(a, o);
                    UNIT
                }
                K::FXor => v(x.fetch_xor(a, o)),
                K::Xor => {
                    x.xor(a, o);
                    UNIT
                }
                K::FMax => v(x.fetch_max(a, o)),
                K::FMin => v(x.fetch_min(a, o)),
                K::BitSet => bit(x.bit_set(op.a as u32, o)),
                K::BitClear => bit(x.bit_clear(op.a as u32, o)),
                K::BitToggle => bit(x.bit_toggle(op.a as u32, o)),
                K::FNot => v(x.fetch_not(o)),
                K::Not => {
                    x.not(o);
                    UNIT
                }
                K::FNeg => v(x.fetch_neg(o)),
                K::Neg => {
                    x.neg(o);
                    UNIT
                }
                K::RawRead => v(unsafe { x.as_ptr().read() }),
                K::RawWrite => {
                    unsafe { x.as_ptr().write(a) };
                    UNIT
                }
                _ => unreachable!(),
            }
        }
    };
}
int!(i8_, lf_i8, AtomicI8, i8, u8);
int!(u8_, lf_u8, AtomicU8, u8, u8);
int!(i16_, lf_i16, AtomicI16, i16, u16);
int!(u16_, lf_u16, AtomicU16, u16, u16);
int!(i32_, lf_i32, AtomicI32, i32, u32);
int!(u32_, lf_u32, AtomicU32, u32, u32);
int!(i64_, lf_i64, AtomicI64, i64, u64);
int!(u64_, lf_u64, AtomicU64, u64, u64);
int!(isize_, lf_isize, AtomicIsize, isize, usize);
int!(usize_, lf_usize, AtomicUsize, usize, usize);
int!(i128_, lf_i128, AtomicI128, i128, u128);
int!(u128_, lf_u128, AtomicU128, u128, u128);

#[inline(never)]
pub fn bool_(x: &pa::AtomicBool, op: &Op, ty: Ty) -> Res {
    let o = ord(op.o);
    let a = op.a & 1 != 0;
    let b = op.b & 1 != 0;
    let v = |r: bool| val(r as u128);
    match op.k {
        K::Load => v(x.load(o)),
        K::Store => {
            x.store(a, o);
            UNIT
        }
        K::Swap => v(x.swap(a, o)),
        K::Cas => res(x.compare_exchange(a, b, o, ord(op.f)), |r| r as u128),
        K::CasW => res(x.compare_exchange_weak(a, b, o, ord(op.f)), |r| r as u128),
        K::Upd => res(x.fetch_update(o, ord(op.f), |c| upd(ty, c as u128, op.a, op.b).map(|n| n != 0)), |r| r as u128),
        K::FAnd => v(x.fetch_and(a, o)),
        K::And => {
            x.and(a, o);
            UNIT
        }
        K::FNand => v(x.fetch_nand(a, o)),
        K::FOr => v(x.fetch_or(a, o)),
        K::Or => {
            x.or(a, o);
            UNIT
        }
        K::FXor => v(x.fetch_xor(a, o)),
        K::Xor => {
            x.xor(a, o);
            UNIT
        }
        K::FNot => v(x.fetch_not(o)),
        K::Not => {
            x.not(o);
            UNIT
        }
        // raw accesses look at the byte, not at the bool
        K::RawRead => val(unsafe { x.as_ptr().cast::<u8>().read() } as u128),
        K::RawWrite => {
            unsafe { x.as_ptr().write(a) };
            UNIT
        }
        _ => unreachable!(),
    }
}

macro_rules! ptr {
    ($f:ident, $T:ty) => {
        #[inline(never)]
        pub fn $f(x: &pa::AtomicPtr<$T>, op: &Op, ty: Ty) -> Res {
            let o = ord(op.o);
            let p = |v: u128| core::ptr::without_provenance_mut::<$T>(v as usize);
            let u = |v: *mut $T| v.addr() as u128;
            let n = op.a as usize;
            match op.k {
                K::Load => val(u(x.load(o))),
                K::Store => {
                    x.store(p(op.a), o);
                    UNIT
                }
                K::Swap => val(u(x.swap(p(op.a), o))),
                K::Cas => res(x.compare_exchange(p(op.a), p(op.b), o, ord(op.f)), u),
                K::CasW => res(x.compare_exchange_weak(p(op.a), p(op.b), o, ord(op.f)), u),
                K::Upd => res(x.fetch_update(o, ord(op.f), |c| upd(ty, u(c), op.a, op.b).map(p)), u),
                K::PtrAdd => val(u(x.fetch_ptr_add(n, o))),
                K::PtrSub => val(u(x.fetch_ptr_sub(n, o))),
                K::ByteAdd => val(u(x.fetch_byte_add(n, o))),
                K::ByteSub => val(u(x.fetch_byte_sub(n, o))),
                K::FAnd => val(u(x.fetch_and(n, o))),
                K::FOr => val(u(x.fetch_or(n, o))),
                K::FXor => val(u(x.fetch_xor(n, o))),
                K::BitSet => bit(x.bit_set(op.a as u32, o)),
                K::BitClear => bit(x.bit_clear(op.a as u32, o)),
                K::BitToggle => bit(x.bit_toggle(op.a as u32, o)),
                K::RawRead => val(u(unsafe { x.as_ptr().read() })),
                K::RawWrite => {
                    unsafe { x.as_ptr().write(p(op.a)) };
                    UNIT
                }
                _ => unreachable!(),
            }
        }
    };
}
ptr!(ptr0_, ());
ptr!(ptr1_, u8);
ptr!(ptr24_, [u8; 24]);

macro_rules! float {
    ($f:ident, $A:ident, $t:ty, $u:ty) => {
        #[inline(never)]
        pub fn $f(x: &pa::$A, op: &Op, ty: Ty) -> Res {
            let o = ord(op.o);
            let fb = |v: u128| <$t>::from_bits(v as $u);
            let tb = |v: $t| v.to_bits() as u128;
            let a = fb(op.a);
            match op.k {
                K::Load => val(tb(x.load(o))),
                K::Store => {
                    x.store(a, o);
                    UNIT
                }
                K::Swap => val(tb(x.swap(a, o))),
                K::Cas => res(x.compare_exchange(a, fb(op.b), o, ord(op.f)), tb),
                K::CasW => res(x.compare_exchange_weak(a, fb(op.b), o, ord(op.f)), tb),
                K::Upd => res(x.fetch_update(o, ord(op.f), |c| upd(ty, tb(c), op.a, op.b).map(fb)), tb),
                K::FAdd => val(tb(x.fetch_add(a, o))),
                K::FSub => val(tb(x.fetch_sub(a, o))),
                K::FMax => val(tb(x.fetch_max(a, o))),
                K::FMin => val(tb(x.fetch_min(a, o))),
                K::FNeg => val(tb(x.fetch_neg(o))),
                K::FAbs => val(tb(x.fetch_abs(o))),
                // alternate between the two raw views
                K::RawRead => {
                    if op.o == 0 {
                        val(x.as_bits().load(Ordering::Relaxed) as u128)
                    } else {
                        val(unsafe { x.as_ptr().cast::<$u>().read() } as u128)
                    }
                }
                K::RawWrite => {
                    unsafe { x.as_ptr().cast::<$u>().write(op.a as $u) };
                    UNIT
                }
                _ => unreachable!(),
            }
        }
    };
}
float!(f32_, AtomicF32, f32, u32);
float!(f64_, AtomicF64, f64, u64);
#[cfg(portable_atomic_unstable_f16)]
float!(f16_, AtomicF16, f16, u16);
#[cfg(portable_atomic_unstable_f128)]
float!(f128_, AtomicF128, f128, u128);

/// GetMut / IntoInner / construction: `$f` gets exclusive access.
macro_rules! excl {
    ($A:ty, $p:expr, $op:expr, $from:expr, $to:expr) => {{
        let p = $p as *mut $A;
        match $op.k {
            K::GetMut => {
                let m = (*p).get_mut();
                let old = *m;
                *m = $from($op.a);
                val($to(old))
            }
            _ => {
                // move out, take the value, build a new one from it, move in
                let x = core::ptr::read(p);
                let v = x.into_inner();
                let y = if $op.a & 1 == 0 { <$A>::new(v) } else { <$A>::from(v) };
                core::ptr::write(p, y);
                val($to(v))
            }
        }
    }};
}

macro_rules! dispatch {
    ($ty:expr, $p:expr, $op:expr, $excl:ident) => {{
        let (ty, p, op) = ($ty, $p, $op);
        if op.k == K::GetMut || op.k == K::IntoInner {
            return match ty {
                Ty::Bool => $excl!(pa::AtomicBool, p, op, |a: u128| a & 1 != 0, |v: bool| v as u128),
                Ty::Ptr0 => $excl!(pa::AtomicPtr<()>, p, op, |a: u128| core::ptr::without_provenance_mut::<()>(a as usize), |v: *mut ()| v.addr() as u128),
                Ty::Ptr1 => $excl!(pa::AtomicPtr<u8>, p, op, |a: u128| core::ptr::without_provenance_mut::<u8>(a as usize), |v: *mut u8| v.addr() as u128),
                Ty::Ptr24 => $excl!(pa::AtomicPtr<[u8; 24]>, p, op, |a: u128| core::ptr::without_provenance_mut::<[u8; 24]>(a as usize), |v: *mut [u8; 24]| v.addr() as u128),
                Ty::I8 => $excl!(pa::AtomicI8, p, op, |a: u128| a as i8, |v: i8| v as u8 as u128),
                Ty::U8 => $excl!(pa::AtomicU8, p, op, |a: u128| a as u8, |v: u8| v as u128),
                Ty::I16 => $excl!(pa::AtomicI16, p, op, |a: u128| a as i16, |v: i16| v as u16 as u128),
                Ty::U16 => $excl!(pa::AtomicU16, p, op, |a: u128| a as u16, |v: u16| v as u128),
                Ty::I32 => $excl!(pa::AtomicI32, p, op, |a: u128| a as i32, |v: i32| v as u32 as u128),
                Ty::U32 => $excl!(pa::AtomicU32, p, op, |a: u128| a as u32, |v: u32| v as u128),
                Ty::I64 => $excl!(pa::AtomicI64, p, op, |a: u128| a as i64, |v: i64| v as u64 as u128),
                Ty::U64 => $excl!(pa::AtomicU64, p, op, |a: u128| a as u64, |v: u64| v as u128),
                Ty::Isize => $excl!(pa::AtomicIsize, p, op, |a: u128| a as isize, |v: isize| v as usize as u128),
                Ty::Usize => $excl!(pa::AtomicUsize, p, op, |a: u128| a as usize, |v: usize| v as u128),
                Ty::I128 => $excl!(pa::AtomicI128, p, op, |a: u128| a as i128, |v: i128| v as u128),
                Ty::U128 => $excl!(pa::AtomicU128, p, op, |a: u128| a, |v: u128| v),
                #[cfg(not(target_arch = "msp430"))]
                Ty::F32 => $excl!(pa::AtomicF32, p, op, |a: u128| f32::from_bits(a as u32), |v: f32| v.to_bits() as u128),
                #[cfg(not(target_arch = "msp430"))]
                Ty::F64 => $excl!(pa::AtomicF64, p, op, |a: u128| f64::from_bits(a as u64), |v: f64| v.to_bits() as u128),
                #[cfg(portable_atomic_unstable_f16)]
                Ty::F16 => $excl!(pa::AtomicF16, p, op, |a: u128| f16::from_bits(a as u16), |v: f16| v.to_bits() as u128),
                #[cfg(portable_atomic_unstable_f128)]
                Ty::F128 => $excl!(pa::AtomicF128, p, op, |a: u128| f128::from_bits(a), |v: f128| v.to_bits()),
                #[allow(unreachable_patterns)]
                _ => unreachable!(),
            };
        }
        match ty {
            Ty::Bool => bool_(pa::AtomicBool::from_ptr(p as *mut bool), op, ty),
            Ty::Ptr0 => ptr0_(pa::AtomicPtr::from_ptr(p as *mut *mut ()), op, ty),
            Ty::Ptr1 => ptr1_(pa::AtomicPtr::from_ptr(p as *mut *mut u8), op, ty),
            Ty::Ptr24 => ptr24_(pa::AtomicPtr::from_ptr(p as *mut *mut [u8; 24]), op, ty),
            Ty::I8 => i8_(pa::AtomicI8::from_ptr(p as *mut i8), op, ty),
            Ty::U8 => u8_(pa::AtomicU8::from_ptr(p as *mut u8), op, ty),
            Ty::I16 => i16_(pa::AtomicI16::from_ptr(p as *mut i16), op, ty),
            Ty::U16 => u16_(pa::AtomicU16::from_ptr(p as *mut u16), op, ty),
            Ty::I32 => i32_(pa::AtomicI32::from_ptr(p as *mut i32), op, ty),
            Ty::U32 => u32_(pa::AtomicU32::from_ptr(p as *mut u32), op, ty),
            Ty::I64 => i64_(pa::AtomicI64::from_ptr(p as *mut i64), op, ty),
            Ty::U64 => u64_(pa::AtomicU64::from_ptr(p as *mut u64), op, ty),
            Ty::Isize => isize_(pa::AtomicIsize::from_ptr(p as *mut isize), op, ty),
            Ty::Usize => usize_(pa::AtomicUsize::from_ptr(p as *mut usize), op, ty),
            Ty::I128 => i128_(pa::AtomicI128::from_ptr(p as *mut i128), op, ty),
            Ty::U128 => u128_(pa::AtomicU128::from_ptr(p as *mut u128), op, ty),
            #[cfg(not(target_arch = "msp430"))]
            Ty::F32 => f32_(pa::AtomicF32::from_ptr(p as *mut f32), op, ty),
            #[cfg(not(target_arch = "msp430"))]
            Ty::F64 => f64_(pa::AtomicF64::from_ptr(p as *mut f64), op, ty),
            #[cfg(portable_atomic_unstable_f16)]
            Ty::F16 => f16_(pa::AtomicF16::from_ptr(p as *mut f16), op, ty),
            #[cfg(portable_atomic_unstable_f128)]
            Ty::F128 => f128_(pa::AtomicF128::from_ptr(p as *mut f128), op, ty),
            #[allow(unreachable_patterns)]
            _ => unreachable!(),
        }
    }};
}

/// Applies `op` to the atomic of type `ty` at `p`.
///
/// # Safety
/// `p` is aligned for and valid as such an atomic; exclusive ops need exclusive access.
pub unsafe fn apply(ty: Ty, p: *mut u8, op: &Op) -> Res {
    dispatch!(ty, p, op, excl)
}

macro_rules! info {
    ($($t:ident => $A:ty),* $(,)?) => {
        /// (size, align, is_lock_free, is_always_lock_free)
        pub fn info(ty: Ty) -> (usize, usize, bool, bool) {
            match ty {
                $(Ty::$t => (core::mem::size_of::<$A>(), core::mem::align_of::<$A>(), <$A>::is_lock_free(), <$A>::is_always_lock_free()),)*
                #[cfg(portable_atomic_unstable_f16)]
                Ty::F16 => (core::mem::size_of::<pa::AtomicF16>(), core::mem::align_of::<pa::AtomicF16>(), pa::AtomicF16::is_lock_free(), pa::AtomicF16::is_always_lock_free()),
                #[cfg(portable_atomic_unstable_f128)]
                Ty::F128 => (core::mem::size_of::<pa::AtomicF128>(), core::mem::align_of::<pa::AtomicF128>(), pa::AtomicF128::is_lock_free(), pa::AtomicF128::is_always_lock_free()),
                #[allow(unreachable_patterns)]
                _ => unreachable!(),
            }
        }
    };
}
info! {
    Bool => pa::AtomicBool, Ptr0 => pa::AtomicPtr<()>, Ptr1 => pa::AtomicPtr<u8>, Ptr24 => pa::AtomicPtr<[u8; 24]>,
    I8 => pa::AtomicI8, U8 => pa::AtomicU8, I16 => pa::AtomicI16, U16 => pa::AtomicU16,
    I32 => pa::AtomicI32, U32 => pa::AtomicU32, I64 => pa::AtomicI64, U64 => pa::AtomicU64,
    Isize => pa::AtomicIsize, Usize => pa::AtomicUsize, I128 => pa::AtomicI128, U128 => pa::AtomicU128,
    F32 => pa::AtomicF32, F64 => pa::AtomicF64,
}

/// `n` stores of values whose four 32-bit parts are equal (128-bit types only).
///
/// # Safety
/// As `apply`.
#[inline(never)]
pub unsafe fn store_many(ty: Ty, p: *mut u8, n: u64, from: u32) {
    assert!(ty == Ty::U128 || ty == Ty::I128);
    let x = pa::AtomicU128::from_ptr(p as *mut u128);
    for i in 0..n {
        let w = from.wrapping_add(i as u32) as u64;
        let w = w | w << 32;
        x.store(w as u128 | (w as u128) << 64, Ordering::Relaxed);
    }
}

macro_rules! update {
    ($A:ty, $p:expr, $o:expr, $f:expr, $g:expr, $from:expr, $to:expr) => {
        res((*($p as *const $A)).fetch_update(ord($o), ord($f), |c| $g($to(c)).map($from)), $to)
    };
}
/// fetch_update with a closure on bit patterns.
///
/// # Safety
/// As `apply`.
pub unsafe fn update(ty: Ty, p: *mut u8, o: u8, f: u8, g: &mut dyn FnMut(u128) -> Option<u128>) -> Res {
    match ty {
        Ty::Bool => update!(pa::AtomicBool, p, o, f, g, |a: u128| a & 1 != 0, |v: bool| v as u128),
        Ty::Ptr0 => update!(pa::AtomicPtr<()>, p, o, f, g, |a: u128| core::ptr::without_provenance_mut::<()>(a as usize), |v: *mut ()| v.addr() as u128),
        Ty::Ptr1 => update!(pa::AtomicPtr<u8>, p, o, f, g, |a: u128| core::ptr::without_provenance_mut::<u8>(a as usize), |v: *mut u8| v.addr() as u128),
        Ty::Ptr24 => update!(pa::AtomicPtr<[u8; 24]>, p, o, f, g, |a: u128| core::ptr::without_provenance_mut::<[u8; 24]>(a as usize), |v: *mut [u8; 24]| v.addr() as u128),
        Ty::I8 => update!(pa::AtomicI8, p, o, f, g, |a: u128| a as i8, |v: i8| v as u8 as u128),
        Ty::U8 => update!(pa::AtomicU8, p, o, f, g, |a: u128| a as u8, |v: u8| v as u128),
        Ty::I16 => update!(pa::AtomicI16, p, o, f, g, |a: u128| a as i16, |v: i16| v as u16 as u128),
        Ty::U16 => update!(pa::AtomicU16, p, o, f, g, |a: u128| a as u16, |v: u16| v as u128),
        Ty::I32 => update!(pa::AtomicI32, p, o, f, g, |a: u128| a as i32, |v: i32| v as u32 as u128),
        Ty::U32 => update!(pa::AtomicU32, p, o, f, g, |a: u128| a as u32, |v: u32| v as u128),
        Ty::I64 => update!(pa::AtomicI64, p, o, f, g, |a: u128| a as i64, |v: i64| v as u64 as u128),
        Ty::U64 => update!(pa::AtomicU64, p, o, f, g, |a: u128| a as u64, |v: u64| v as u128),
        Ty::Isize => update!(pa::AtomicIsize, p, o, f, g, |a: u128| a as isize, |v: isize| v as usize as u128),
        Ty::Usize => update!(pa::AtomicUsize, p, o, f, g, |a: u128| a as usize, |v: usize| v as u128),
        Ty::I128 => update!(pa::AtomicI128, p, o, f, g, |a: u128| a as i128, |v: i128| v as u128),
        Ty::U128 => update!(pa::AtomicU128, p, o, f, g, |a: u128| a, |v: u128| v),
        #[cfg(not(target_arch = "msp430"))]
        Ty::F32 => update!(pa::AtomicF32, p, o, f, g, |a: u128| f32::from_bits(a as u32), |v: f32| v.to_bits() as u128),
        #[cfg(not(target_arch = "msp430"))]
        Ty::F64 => update!(pa::AtomicF64, p, o, f, g, |a: u128| f64::from_bits(a as u64), |v: f64| v.to_bits() as u128),
        #[cfg(portable_atomic_unstable_f16)]
        Ty::F16 => update!(pa::AtomicF16, p, o, f, g, |a: u128| f16::from_bits(a as u16), |v: f16| v.to_bits() as u128),
        #[cfg(portable_atomic_unstable_f128)]
        Ty::F128 => update!(pa::AtomicF128, p, o, f, g, |a: u128| f128::from_bits(a), |v: f128| v.to_bits()),
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    }
}
