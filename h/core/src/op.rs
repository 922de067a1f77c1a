//! Types, operations, results and the reference model.
use crate::rng::Rng;
use core::fmt;

macro_rules! names {
    ($(#[$m:meta])* $v:vis enum $N:ident { $($x:ident),* $(,)? }) => {
        $(#[$m])* #[repr(u8)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
        $v enum $N { $($x),* }
        impl $N {
            pub const ALL: &'static [$N] = &[$($N::$x),*];
            pub fn name(self) -> &'static str { match self { $($N::$x => stringify!($x)),* } }
            pub fn parse(s: &str) -> Option<$N> { match s { $(stringify!($x) => Some($N::$x),)* _ => None } }
        }
    };
}

names! {
    /// Atomic types. `Ptr0/1/24` are `AtomicPtr<T>` with `size_of::<T>()` 0, 1 and 24.
    pub enum Ty {
        Bool, Ptr0, Ptr1, Ptr24,
        I8, U8, I16, U16, I32, U32, I64, U64, Isize, Usize, I128, U128,
        F32, F64, F16, F128,
    }
}
names! {
    pub enum K {
        Load, Store, Swap, Cas, CasW, Upd,
        FAdd, Add, FSub, Sub, FAnd, And, FNand, FOr, Or, FXor, Xor,
        FMax, FMin, BitSet, BitClear, BitToggle, FNot, Not, FNeg, Neg,
        PtrAdd, PtrSub, ByteAdd, ByteSub, FAbs,
        // not concurrent: need &mut or raw access
        RawRead, RawWrite, GetMut, IntoInner,
    }
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Class {
    Bool,
    Ptr,
    Int,
    Float,
}

#[cfg(not(feature = "ptrvar"))]
pub fn ptr_bits() -> u32 {
    usize::BITS
}
/// Width of a pointer on the machine under test, where that is an emulated one.
#[cfg(feature = "ptrvar")]
pub static PTR_BITS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(32);
#[cfg(feature = "ptrvar")]
pub fn ptr_bits() -> u32 {
    PTR_BITS.load(core::sync::atomic::Ordering::Relaxed)
}
pub const HAS_F16: bool = cfg!(portable_atomic_unstable_f16);
pub const HAS_F128: bool = cfg!(portable_atomic_unstable_f128);

impl Ty {
    pub fn bits(self) -> u32 {
        match self {
            Ty::Bool | Ty::I8 | Ty::U8 => 8,
            Ty::I16 | Ty::U16 | Ty::F16 => 16,
            Ty::I32 | Ty::U32 | Ty::F32 => 32,
            Ty::I64 | Ty::U64 | Ty::F64 => 64,
            Ty::I128 | Ty::U128 | Ty::F128 => 128,
            Ty::Ptr0 | Ty::Ptr1 | Ty::Ptr24 | Ty::Isize | Ty::Usize => ptr_bits(),
        }
    }
    pub fn size(self) -> usize {
        (self.bits() / 8) as usize
    }
    pub fn class(self) -> Class {
        match self {
            Ty::Bool => Class::Bool,
            Ty::Ptr0 | Ty::Ptr1 | Ty::Ptr24 => Class::Ptr,
            Ty::F16 | Ty::F32 | Ty::F64 | Ty::F128 => Class::Float,
            _ => Class::Int,
        }
    }
    pub fn signed(self) -> bool {
        matches!(self, Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::Isize | Ty::I128)
    }
    pub fn mask(self) -> u128 {
        if self == Ty::Bool {
            1
        } else {
            mask(self.bits())
        }
    }
    pub fn stride(self) -> u128 {
        match self {
            Ty::Ptr0 => 0,
            Ty::Ptr24 => 24,
            _ => 1,
        }
    }
    pub fn exists(self) -> bool {
        match self {
            Ty::F16 => HAS_F16,
            Ty::F128 => HAS_F128,
            _ => true,
        }
    }
    /// Operations the type has (concurrent ones first, then those that need exclusive access).
    pub fn ops(self) -> &'static [K] {
        use K::*;
        match self.class() {
            Class::Bool => &[
                Load, Store, Swap, Cas, CasW, Upd, FAnd, And, FNand, FOr, Or, FXor, Xor, FNot, Not,
                RawRead, RawWrite, GetMut, IntoInner,
            ],
            Class::Ptr => &[
                Load, Store, Swap, Cas, CasW, Upd, PtrAdd, PtrSub, ByteAdd, ByteSub, FAnd, FOr, FXor,
                BitSet, BitClear, BitToggle, RawRead, RawWrite, GetMut, IntoInner,
            ],
            Class::Int => &[
                Load, Store, Swap, Cas, CasW, Upd, FAdd, Add, FSub, Sub, FAnd, And, FNand, FOr, Or,
                FXor, Xor, FMax, FMin, BitSet, BitClear, BitToggle, FNot, Not, FNeg, Neg, RawRead,
                RawWrite, GetMut, IntoInner,
            ],
            Class::Float => &[
                Load, Store, Swap, Cas, CasW, Upd, FAdd, FSub, FMax, FMin, FNeg, FAbs, RawRead,
                RawWrite, GetMut, IntoInner,
            ],
        }
    }
    pub fn conc_ops(self) -> &'static [K] {
        let o = self.ops();
        &o[..o.len() - 4]
    }
}
impl K {
    pub fn exclusive(self) -> bool {
        matches!(self, K::RawRead | K::RawWrite | K::GetMut | K::IntoInner)
    }
    pub fn is_cas(self) -> bool {
        matches!(self, K::Cas | K::CasW)
    }
    pub fn has_fail_order(self) -> bool {
        matches!(self, K::Cas | K::CasW | K::Upd)
    }
}
pub fn mask(bits: u32) -> u128 {
    if bits >= 128 {
        !0
    } else {
        (1u128 << bits) - 1
    }
}

pub const ORD: [&str; 5] = ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"];
pub const RLX: u8 = 0;
pub const REL: u8 = 1;
pub const ACQ: u8 = 2;
pub const AR: u8 = 3;
pub const SC: u8 = 4;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Op {
    pub k: K,
    pub o: u8,
    pub f: u8,
    pub a: u128,
    pub b: u128,
}
impl fmt::Debug for Op {
    fn fmt(&self, w: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(w, "{} o={} f={} a={:#x} b={:#x}", self.k.name(), ORD[self.o as usize], ORD[self.f as usize], self.a, self.b)
    }
}
pub fn ord_parse(s: &str) -> Option<u8> {
    ORD.iter().position(|x| *x == s).map(|x| x as u8)
}
pub fn hex(s: &str) -> Option<u128> {
    u128::from_str_radix(s.strip_prefix("0x")?, 16).ok()
}
impl Op {
    pub fn parse(s: &str) -> Option<Op> {
        let mut it = s.split_whitespace();
        let k = K::parse(it.next()?)?;
        let o = ord_parse(it.next()?.strip_prefix("o=")?)?;
        let f = ord_parse(it.next()?.strip_prefix("f=")?)?;
        let a = hex(it.next()?.strip_prefix("a=")?)?;
        let b = hex(it.next()?.strip_prefix("b=")?)?;
        Some(Op { k, o, f, a, b })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Rk {
    Unit,
    Val,
    Ok,
    Err,
    Bit,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Res {
    pub k: Rk,
    pub v: u128,
}
impl fmt::Debug for Res {
    fn fmt(&self, w: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.k {
            Rk::Unit => write!(w, "()"),
            Rk::Val => write!(w, "{:#x}", self.v),
            Rk::Ok => write!(w, "Ok({:#x})", self.v),
            Rk::Err => write!(w, "Err({:#x})", self.v),
            Rk::Bit => write!(w, "{}", self.v != 0),
        }
    }
}

/// What the stored value must be after an operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exp {
    Is(u128),
    /// Any NaN (arithmetic does not define the payload).
    Nan,
    /// Either of the two (max/min of zeros of different sign).
    Or(u128, u128),
    /// This value or any NaN (max/min with a signalling NaN).
    NanOr(u128),
}

fn sext(v: u128, bits: u32) -> i128 {
    let sh = 128 - bits;
    ((v << sh) as i128) >> sh
}
fn less(ty: Ty, a: u128, b: u128) -> bool {
    if ty.signed() {
        sext(a, ty.bits()) < sext(b, ty.bits())
    } else {
        a < b
    }
}
/// The closure of a fetch_update, on bit patterns.
pub fn upd(ty: Ty, cur: u128, a: u128, b: u128) -> Option<u128> {
    let m = ty.mask();
    match b & 3 {
        0 => None,
        1 => Some(cur.wrapping_add(a) & m),
        2 => Some(a & m),
        _ => Some((cur ^ a) & m),
    }
}

// ---- floats: plain operators of the value type, on bits
pub struct FFmt {
    pub bits: u32,
    pub mant: u32,
}
pub fn ffmt(ty: Ty) -> FFmt {
    match ty {
        Ty::F16 => FFmt { bits: 16, mant: 10 },
        Ty::F32 => FFmt { bits: 32, mant: 23 },
        Ty::F64 => FFmt { bits: 64, mant: 52 },
        _ => FFmt { bits: 128, mant: 112 },
    }
}
pub fn is_nan(ty: Ty, v: u128) -> bool {
    let f = ffmt(ty);
    let sign = 1u128 << (f.bits - 1);
    let inf = mask(f.bits - 1) & !mask(f.mant);
    (v & !sign & mask(f.bits)) > inf
}
fn f_sign(ty: Ty) -> u128 {
    1u128 << (ty.bits() - 1)
}
/// Order of two non-NaN floats by value, from their bits (independent of float comparisons).
fn f_less(ty: Ty, a: u128, b: u128) -> bool {
    let s = f_sign(ty);
    let key = |x: u128| -> i128 {
        // only used up to 127 magnitude bits
        let m = (x & (s - 1)) as i128;
        if x & s != 0 {
            -m
        } else {
            m
        }
    };
    key(a) < key(b)
}
fn f_minmax(ty: Ty, cur: u128, val: u128, max: bool) -> Exp {
    match (is_nan(ty, cur), is_nan(ty, val)) {
        (true, true) => Exp::Nan,
        (true, false) => if is_snan(ty, cur) { Exp::NanOr(val) } else { Exp::Is(val) },
        (false, true) => if is_snan(ty, val) { Exp::NanOr(cur) } else { Exp::Is(cur) },
        _ => {
            let z = f_sign(ty) - 1;
            if cur & z == 0 && val & z == 0 && cur != val {
                return Exp::Or(cur, val);
            }
            if f_less(ty, cur, val) == max {
                Exp::Is(val)
            } else {
                Exp::Is(cur)
            }
        }
    }
}
/// max/min of a number and a signalling NaN may give a quiet NaN on some targets.
pub fn is_snan(ty: Ty, v: u128) -> bool {
    let f = ffmt(ty);
    // MIPS (legacy encoding) has the meaning of the bit inverted: accept both there
    is_nan(ty, v) && (v >> (f.mant - 1) & 1 == 0 || cfg!(any(target_arch = "mips", target_arch = "mips64")))
}
fn f_arith(ty: Ty, cur: u128, val: u128, sub: bool) -> Exp {
    let r = match ty {
        Ty::F32 => {
            let (x, y) = (f32::from_bits(cur as u32), f32::from_bits(val as u32));
            (if sub { x - y } else { x + y }).to_bits() as u128
        }
        Ty::F64 => {
            let (x, y) = (f64::from_bits(cur as u64), f64::from_bits(val as u64));
            (if sub { x - y } else { x + y }).to_bits() as u128
        }
        #[cfg(portable_atomic_unstable_f16)]
        Ty::F16 => {
            let (x, y) = (f16::from_bits(cur as u16), f16::from_bits(val as u16));
            (if sub { x - y } else { x + y }).to_bits() as u128
        }
        #[cfg(portable_atomic_unstable_f128)]
        Ty::F128 => {
            let (x, y) = (f128::from_bits(cur), f128::from_bits(val));
            (if sub { x - y } else { x + y }).to_bits()
        }
        _ => unreachable!(),
    };
    if is_nan(ty, r) {
        Exp::Nan
    } else {
        Exp::Is(r)
    }
}

/// Reference semantics: given the current value and the observed result, the new value, or None
/// if the result is not one the documentation allows.
pub fn step(ty: Ty, cur: u128, op: &Op, r: Res) -> Option<Exp> {
    use K::*;
    let m = ty.mask();
    let bits = ty.bits();
    let a = op.a & m;
    let fl = ty.class() == Class::Float;
    // bool and/or/...: m == 1 makes the integer formulas the boolean ones
    let bitmask = 1u128.checked_shl((op.a as u32) % bits).unwrap_or(0);
    let new = match op.k {
        Load | RawRead => {
            return (r == Res { k: Rk::Val, v: cur }).then_some(Exp::Is(cur));
        }
        IntoInner => {
            return (r == Res { k: Rk::Val, v: cur }).then_some(Exp::Is(cur));
        }
        Store | RawWrite => {
            return (r.k == Rk::Unit).then_some(Exp::Is(a));
        }
        GetMut => return (r == Res { k: Rk::Val, v: cur }).then_some(Exp::Is(a)),
        Cas | CasW => {
            let b = op.b & m;
            return match r.k {
                Rk::Ok => (r.v == cur && cur == a).then_some(Exp::Is(b)),
                Rk::Err => (r.v == cur && (cur != a || op.k == CasW)).then_some(Exp::Is(cur)),
                _ => None,
            };
        }
        Upd => {
            return match (upd(ty, cur, op.a, op.b), r.k) {
                (Some(n), Rk::Ok) => (r.v == cur).then_some(Exp::Is(n)),
                (None, Rk::Err) => (r.v == cur).then_some(Exp::Is(cur)),
                _ => None,
            };
        }
        BitSet | BitClear | BitToggle => {
            let n = match op.k {
                BitSet => cur | bitmask,
                BitClear => cur & !bitmask,
                _ => cur ^ bitmask,
            };
            return (r == Res { k: Rk::Bit, v: (cur & bitmask != 0) as u128 }).then_some(Exp::Is(n));
        }
        Swap => Exp::Is(a),
        FAdd if fl => f_arith(ty, cur, a, false),
        FSub if fl => f_arith(ty, cur, a, true),
        FMax if fl => f_minmax(ty, cur, a, true),
        FMin if fl => f_minmax(ty, cur, a, false),
        FNeg if fl => Exp::Is(cur ^ f_sign(ty)),
        FAbs => Exp::Is(cur & !f_sign(ty)),
        FAdd | Add | ByteAdd => Exp::Is(cur.wrapping_add(a) & m),
        FSub | Sub | ByteSub => Exp::Is(cur.wrapping_sub(a) & m),
        PtrAdd => Exp::Is(cur.wrapping_add(a.wrapping_mul(ty.stride())) & m),
        PtrSub => Exp::Is(cur.wrapping_sub(a.wrapping_mul(ty.stride())) & m),
        FAnd | And => Exp::Is(cur & a),
        FNand => Exp::Is(!(cur & a) & m),
        FOr | Or => Exp::Is(cur | a),
        FXor | Xor => Exp::Is(cur ^ a),
        FNot | Not => Exp::Is(!cur & m),
        FNeg | Neg => Exp::Is(0u128.wrapping_sub(cur) & m),
        FMax => Exp::Is(if less(ty, cur, a) { a } else { cur }),
        FMin => Exp::Is(if less(ty, a, cur) { a } else { cur }),
    };
    let unit = matches!(op.k, Add | Sub | And | Or | Xor | Not | Neg);
    let good = if unit { r.k == Rk::Unit } else { r.k == Rk::Val && r.v == cur };
    good.then_some(new)
}
/// Does the stored value `v` satisfy the expectation?
pub fn meets(ty: Ty, e: Exp, v: u128) -> bool {
    match e {
        Exp::Is(x) => x == v,
        Exp::Nan => is_nan(ty, v),
        Exp::Or(x, y) => v == x || v == y,
        Exp::NanOr(x) => v == x || is_nan(ty, v),
    }
}

// ---- generators
pub fn gen_val(r: &mut Rng, ty: Ty, cur: u128) -> u128 {
    let w = ty.bits();
    let m = ty.mask();
    if ty == Ty::Bool {
        return r.below(2) as u128;
    }
    if ty.class() == Class::Float && r.chance(3, 4) {
        return gen_float(r, ty, cur);
    }
    let half = w / 2;
    let v = match r.below(16) {
        0 => 0,
        1 => 1,
        2 => m,
        3 => 1 << (w - 1),
        4 => (1 << (w - 1)) - 1,
        5 => mask(half),
        6 => 1 << half,
        7 => cur,
        8 => cur.wrapping_add(1),
        9 => cur.wrapping_sub(1),
        10 => cur ^ 1 << r.below(w as u64),
        11 => 1 << r.below(w as u64),
        12 => m & !(1 << r.below(w as u64)),
        13 => r.below(4) as u128,
        14 => (cur & mask(half)) | (r.u128() & !mask(half)),
        _ => r.u128(),
    };
    v & m
}
fn gen_float(r: &mut Rng, ty: Ty, cur: u128) -> u128 {
    let f = ffmt(ty);
    let s = f_sign(ty);
    let inf = mask(f.bits - 1) & !mask(f.mant);
    let v = match r.below(14) {
        0 => 0,
        1 => inf,
        2 => inf | 1,                   // signalling NaN
        3 => inf | 1 << (f.mant - 1),   // quiet NaN
        4 => inf | (r.u128() & mask(f.mant)).max(1),
        5 => 1,                         // smallest subnormal
        6 => mask(f.mant),              // largest subnormal
        7 => inf - 1,                   // largest finite
        8 => 1 << f.mant,               // smallest normal
        9 => cur,
        10 => cur ^ s,
        // near one, various magnitudes
        11 | 12 => {
            let bias = mask(f.bits - f.mant - 2);
            let e = bias.wrapping_add(r.below(12) as u128).wrapping_sub(6);
            e << f.mant | (r.u128() & mask(f.mant))
        }
        _ => r.u128(),
    };
    let v = if r.chance(1, 2) { v ^ s } else { v };
    v & mask(f.bits)
}
pub fn gen_orders(r: &mut Rng, k: K) -> (u8, u8) {
    match k {
        K::Load => (r.pick(&[RLX, ACQ, SC]), 0),
        K::Store => (r.pick(&[RLX, REL, SC]), 0),
        _ if k.has_fail_order() => (r.below(5) as u8, r.pick(&[RLX, ACQ, SC])),
        _ if k.exclusive() => (0, 0),
        _ => (r.below(5) as u8, 0),
    }
}
/// One operation, with arguments biased by the value `cur` the variable is believed to hold.
pub fn gen_op(r: &mut Rng, ty: Ty, cur: u128, ks: &[K]) -> Op {
    let k = r.pick(ks);
    let (o, f) = gen_orders(r, k);
    let (mut a, mut b) = (0, 0);
    match k {
        K::Load | K::RawRead | K::IntoInner | K::FNot | K::Not | K::FNeg | K::Neg | K::FAbs => {}
        K::Cas | K::CasW => {
            a = if r.chance(3, 5) {
                cur
            } else if r.chance(1, 2) {
                (cur ^ 1 << r.below(ty.bits() as u64)) & ty.mask()
            } else {
                gen_val(r, ty, cur)
            };
            b = gen_val(r, ty, cur);
        }
        K::Upd => {
            a = gen_val(r, ty, cur);
            b = r.below(4) as u128;
        }
        K::BitSet | K::BitClear | K::BitToggle => {
            a = if r.chance(7, 8) {
                r.below(ty.bits() as u64) as u128
            } else {
                r.u64() as u32 as u128
            };
        }
        _ => a = gen_val(r, ty, cur),
    }
    Op { k, o, f, a, b }
}
