//! Formatting, conversion, defaults and serialization of atomics against the plain values.
//! seed= stream= from= count= types=   |   replay='ty=U8 val=0x1 how=0 act=0 spec=3 w=5 p=2 lim=100 nest=0 aux=7'
#![cfg_attr(portable_atomic_unstable_f16, feature(f16))]
#![cfg_attr(portable_atomic_unstable_f128, feature(f128))]
#[path = "../rec.rs"]
mod rec;
#[path = "../specs.rs"]
mod specs;
use portable_atomic as pa;
use rec::*;
use serde::de::Deserialize;
use serde::ser::Serialize;
use specs::{DEBUG, POINTER};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::{self, Debug, Pointer, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::op::{self, Ty};
use vcore::rng::Rng;
use vhost::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Case {
    ty: Ty,
    val: u128,
    how: u64,
    act: u64,
    spec: u64,
    w: u64,
    p: u64,
    lim: u64,
    nest: u64,
    aux: u64,
}
impl fmt::Display for Case {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let c = self;
        write!(f, "ty={} val={:#x} how={} act={} spec={} w={} p={} lim={} nest={} aux={}", c.ty.name(), c.val, c.how, c.act, c.spec, c.w, c.p, c.lim, c.nest, c.aux)
    }
}
fn parse(s: &str) -> Case {
    let g = |k: &str| s.split_whitespace().find_map(|x| x.strip_prefix(k)?.strip_prefix('=')).unwrap_or_else(|| panic!("{k} missing"));
    let n = |k: &str| g(k).parse().unwrap();
    Case { ty: Ty::parse(g("ty")).unwrap(), val: op::hex(g("val")).unwrap(), how: n("how"), act: n("act"), spec: n("spec"), w: n("w"), p: n("p"), lim: n("lim"), nest: n("nest"), aux: n("aux") }
}
const ACTS: &[&str] = &["debug", "debug", "pointer", "serialize", "json out", "deserialize", "deserialize in place", "json in", "convert", "default"];

/// Takes `lim` bytes, then fails.
struct Sink {
    s: String,
    lim: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.s.len() + s.len() > self.lim {
            return Err(fmt::Error);
        }
        self.s.push_str(s);
        Ok(())
    }
}
#[derive(Debug)]
#[allow(dead_code)]
struct Named<'a> {
    first: &'a dyn Debug,
    b: (u8, &'a dyn Debug),
}
fn dbg(c: &Case, x: &dyn Debug) -> String {
    let mut o = Sink { s: String::new(), lim: c.lim as usize };
    let f = DEBUG[c.spec as usize % DEBUG.len()].1;
    let (w, p) = (c.w as usize, c.p as usize);
    let some = Some(x);
    let r = catch_unwind(AssertUnwindSafe(|| match c.nest {
        0 => f(&mut o, x, w, p),
        1 => f(&mut o, &some, w, p),
        2 => f(&mut o, &[x, x], w, p),
        3 => f(&mut o, &Named { first: x, b: (3, x) }, w, p),
        _ => f(&mut o, &&x, w, p),
    }));
    format!("{:?} {:?}", r.map_err(|_| "panic"), o.s)
}
fn pointer(c: &Case, x: &dyn Pointer) -> String {
    let mut o = Sink { s: String::new(), lim: c.lim as usize };
    let r = catch_unwind(AssertUnwindSafe(|| POINTER[c.spec as usize % POINTER.len()].1(&mut o, x, c.w as usize, c.p as usize)));
    format!("{:?} {:?}", r.map_err(|_| "panic"), o.s)
}
fn ser<T: Serialize>(c: &Case, x: &T) -> String {
    let log = RefCell::new(String::new());
    let r = |b: u64| Rec { log: &log, fail: c.aux & b != 0, human: c.aux & 4 != 0 };
    let a = match c.nest {
        0 | 1 => x.serialize(r(1)),
        2 => Some(x).serialize(r(1)),
        _ => (&x).serialize(r(2)),
    };
    format!("{a:?} calls {}", log.borrow())
}
fn json<T: Serialize>(c: &Case, x: &T) -> String {
    match c.nest {
        0 | 1 => format!("{:?}", serde_json::to_string(x).map_err(|e| e.to_string())),
        2 => format!("{:?}", serde_json::to_string(&[(x, Some(x))]).map_err(|e| e.to_string())),
        3 => format!("{:?}", serde_json::to_value(x).map_err(|e| e.to_string())),
        _ => format!("{:?}", serde_json::to_vec_pretty(&vec![x]).map_err(|e| e.to_string())),
    }
}
fn num(r: &mut Rng, bits: u32) -> u128 {
    op::gen_val(r, match bits { 8 => Ty::U8, 16 => Ty::U16, 32 => Ty::U32, 64 => Ty::U64, _ => Ty::U128 }, 0)
}
fn sx(v: u128, bits: u32) -> i128 {
    (v << (128 - bits)) as i128 >> (128 - bits)
}
fn token(r: &mut Rng, c: &Case, depth: u32) -> Tok {
    let b = r.pick(&[8, 16, 32, 64, 128]);
    match r.below(if depth < 2 { 22 } else { 18 }) {
        0 => Tok::Bool(c.val & 1 != 0),
        // the value itself, in its own width
        1 | 2 => Tok::U(c.ty.bits(), c.val),
        3 | 4 => Tok::I(c.ty.bits(), sx(c.val, c.ty.bits())),
        5 | 6 => Tok::U(b, num(r, b)),
        7 | 8 => Tok::I(b, sx(num(r, b), b)),
        9 => Tok::U(128, c.val),
        10 => Tok::I(64, sx(c.val, c.ty.bits()) as i64 as i128),
        11 => Tok::F32(f32::from_bits(c.val as u32)),
        12 => Tok::F64(f64::from_bits(c.val as u64)),
        13 => Tok::F64(r.below(300) as f64 - 3.0),
        14 => Tok::Char('7'),
        15 => Tok::Str(format!("{}", c.val)),
        16 => Tok::Unit,
        17 => r.pick(&[0u8, 1, 2]).pipe(|k| match k { 0 => Tok::None, 1 => Tok::Fail, _ => Tok::Bytes(vec![1, 2]) }),
        18 | 19 => Tok::Some(Box::new(token(r, c, depth + 1))),
        20 => Tok::Newtype(Box::new(token(r, c, depth + 1))),
        _ => Tok::Seq(vec![1, 2, 3]),
    }
}
trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl Pipe for u8 {}
fn text(r: &mut Rng, c: &Case) -> String {
    let b = c.ty.bits();
    let s = match r.below(16) {
        0 => format!("{}", c.val),
        1 | 2 => format!("{}", sx(c.val, b)),
        3 => format!("{}", op::mask(b)),
        4 => if b < 128 { format!("{}", op::mask(b) + 1) } else { "340282366920938463463374607431768211456".into() },
        5 => format!("{}", sx(1 << (b - 1), b)),
        6 => if b < 128 { format!("{}", sx(1 << (b - 1), b) - 1) } else { "-170141183460469231731687303715884105729".into() },
        7 => format!("{:?}", f64::from_bits(c.val as u64)),
        8 => format!("{:?}", f32::from_bits(c.val as u32)),
        9 => format!("{}.0", c.val as u32),
        10 => format!("{}e{}", c.val as u8, r.below(400)),
        11 => r.pick(&["null", "true", "false", "", "-", "-0", "-0.0", "[]", "{}", "\"1\"", "1 2", "01", "+1", "1.", ".5", "0x1", "NaN", "Infinity", "[1]", "1e5000"]).into(),
        12 => format!("\"{}\"", c.val),
        13 => format!("{}", r.u128()),
        _ => format!("{}", num(r, b)),
    };
    match r.below(6) {
        0 => format!(" {s}\n"),
        1 => format!("{s} x"),
        _ => s,
    }
}
trait Bits {
    fn b(&self) -> u128;
}
/// The atomic types, built and taken apart through the public API.
trait At: Sized + Debug + Default {
    type P: Copy + Bits + Debug;
    fn plain(v: u128) -> Self::P;
    fn plain_default() -> Self::P;
    fn make(p: Self::P, how: u64) -> Self;
    fn take(self, how: u64) -> Self::P;
}
macro_rules! at {
    ($A:ty, $P:ty, $from:expr, $to:expr, $d:expr) => {
        impl Bits for $P {
            fn b(&self) -> u128 {
                $to(*self)
            }
        }
        impl Bits for $A {
            fn b(&self) -> u128 {
                $to(self.load(std::sync::atomic::Ordering::SeqCst))
            }
        }
        impl At for $A {
            type P = $P;
            fn plain(v: u128) -> $P {
                $from(v)
            }
            fn plain_default() -> $P {
                $d
            }
            fn make(p: $P, how: u64) -> $A {
                use std::sync::atomic::Ordering::*;
                match how % 8 {
                    0 => <$A>::new(p),
                    1 => <$A>::from(p),
                    2 => p.into(),
                    3 => {
                        let a = <$A>::default();
                        a.store(p, Relaxed);
                        a
                    }
                    4 => {
                        let a = <$A>::default();
                        a.swap(p, SeqCst);
                        a
                    }
                    5 => {
                        let mut a = <$A>::new(<$A>::plain_default());
                        *a.get_mut() = p;
                        a
                    }
                    6 => {
                        // one constructed by new may move
                        let b = Box::new(<$A>::new(p));
                        let v = vec![*b];
                        v.into_iter().next().unwrap()
                    }
                    _ => {
                        let a = <$A>::default();
                        let _ = a.fetch_update(AcqRel, Acquire, |_| Some(p));
                        a
                    }
                }
            }
            fn take(mut self, how: u64) -> $P {
                use std::sync::atomic::Ordering::*;
                match how % 6 {
                    0 => self.into_inner(),
                    1 => self.load(Relaxed),
                    2 => *self.get_mut(),
                    3 => self.swap(<$A>::plain_default(), AcqRel),
                    4 => unsafe { *self.as_ptr() },
                    _ => unsafe { <$A>::from_ptr(self.as_ptr()).load(Acquire) },
                }
            }
        }
    };
}
macro_rules! at_int {
    ($($A:ident $t:ty, $u:ty);* $(;)?) => { $(at!(pa::$A, $t, |v: u128| v as $u as $t, |v: $t| v as $u as u128, 0);)* };
}
at_int!(AtomicI8 i8, u8; AtomicU8 u8, u8; AtomicI16 i16, u16; AtomicU16 u16, u16; AtomicI32 i32, u32; AtomicU32 u32, u32; AtomicI64 i64, u64; AtomicU64 u64, u64;
    AtomicIsize isize, usize; AtomicUsize usize, usize; AtomicI128 i128, u128; AtomicU128 u128, u128);
at!(pa::AtomicBool, bool, |v: u128| v & 1 != 0, |v: bool| v as u128, false);
at!(pa::AtomicPtr<()>, *mut (), |v: u128| v as usize as *mut (), |v: *mut ()| v as usize as u128, std::ptr::null_mut());
at!(pa::AtomicPtr<u8>, *mut u8, |v: u128| v as usize as *mut u8, |v: *mut u8| v as usize as u128, std::ptr::null_mut());
at!(pa::AtomicPtr<[u8; 24]>, *mut [u8; 24], |v: u128| v as usize as *mut [u8; 24], |v: *mut [u8; 24]| v as usize as u128, std::ptr::null_mut());
at!(pa::AtomicF32, f32, |v: u128| f32::from_bits(v as u32), |v: f32| v.to_bits() as u128, 0.0);
at!(pa::AtomicF64, f64, |v: u128| f64::from_bits(v as u64), |v: f64| v.to_bits() as u128, 0.0);
#[cfg(portable_atomic_unstable_f16)]
at!(pa::AtomicF16, f16, |v: u128| f16::from_bits(v as u16), |v: f16| v.to_bits() as u128, 0.0);
#[cfg(portable_atomic_unstable_f128)]
at!(pa::AtomicF128, f128, |v: u128| f128::from_bits(v), |v: f128| v.to_bits(), 0.0);

type Two = (String, String);
fn basic<A: At + Bits>(c: &Case) -> Two {
    let p = A::plain(c.val);
    match c.act {
        0 | 1 => (dbg(c, &A::make(p, c.how)), dbg(c, &p)),
        9 => (format!("{:x} {:x}", A::default().b(), A::default().take(c.aux).b()), format!("{:x} {0:x}", A::plain_default().b())),
        _ => (format!("{:x} {:x}", A::make(p, c.how).b(), A::make(p, c.how).take(c.aux).b()), format!("{:x} {0:x}", p.b())),
    }
}
fn with_pointer<A: At + Bits + Pointer>(c: &Case) -> Two
where
    A::P: Pointer,
{
    if c.act == 2 {
        let p = A::plain(c.val);
        return (pointer(c, &A::make(p, c.how)), pointer(c, &p));
    }
    basic::<A>(c)
}
fn with_serde<A: At + Bits + Serialize + for<'a> Deserialize<'a>>(c: &Case) -> Two
where
    A::P: Serialize + for<'a> Deserialize<'a>,
{
    let p = A::plain(c.val);
    let mut r = Rng::new(c.aux, 77, c.spec);
    fn show<T: Bits, X: fmt::Display>(x: Result<T, X>) -> String {
        match x {
            Ok(v) => format!("Ok {:x}", v.b()),
            Err(e) => format!("Err {e}"),
        }
    }
    match c.act {
        3 => (ser(c, &A::make(p, c.how)), ser(c, &p)),
        4 => (json(c, &A::make(p, c.how)), json(c, &p)),
        5 | 6 => {
            let t = token(&mut r, c, 0);
            let (l1, l2) = (RefCell::new(String::new()), RefCell::new(String::new()));
            let human = c.aux & 4 != 0;
            let f = |l| Feed { log: l, tok: t.clone(), human };
            let (a, b) = if c.act == 5 {
                if c.nest == 2 {
                    (show(Option::<A>::deserialize(f(&l1)).map(|x| x.unwrap_or_default())), show(Option::<A::P>::deserialize(f(&l2)).map(|x| x.unwrap_or(A::plain_default()))))
                } else {
                    (show(A::deserialize(f(&l1))), show(A::P::deserialize(f(&l2))))
                }
            } else {
                let (mut x, mut y) = (A::make(p, c.how), p);
                let (ra, rb) = (A::deserialize_in_place(f(&l1), &mut x), A::P::deserialize_in_place(f(&l2), &mut y));
                (format!("{ra:?} {:x}", x.b()), format!("{rb:?} {:x}", y.b()))
            };
            (format!("{t:?}: {a} calls {}", l1.borrow()), format!("{t:?}: {b} calls {}", l2.borrow()))
        }
        7 => {
            let t = text(&mut r, c);
            let (a, b) = match c.nest {
                2 => {
                    let t = format!("[{t},{t}]");
                    (show(serde_json::from_str::<[A; 2]>(&t).map(|[_, x]| x)), show(serde_json::from_str::<[A::P; 2]>(&t).map(|[_, x]| x)))
                }
                3 => (show(serde_json::from_slice::<A>(t.as_bytes())), show(serde_json::from_slice::<A::P>(t.as_bytes()))),
                _ => (show(serde_json::from_str::<A>(&t)), show(serde_json::from_str::<A::P>(&t))),
            };
            (format!("{t:?}: {a}"), format!("{t:?}: {b}"))
        }
        _ => basic::<A>(c),
    }
}
fn run(c: &Case) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| match c.ty {
        Ty::Bool => with_serde::<pa::AtomicBool>(c),
        Ty::Ptr0 => with_pointer::<pa::AtomicPtr<()>>(c),
        Ty::Ptr1 => with_pointer::<pa::AtomicPtr<u8>>(c),
        Ty::Ptr24 => with_pointer::<pa::AtomicPtr<[u8; 24]>>(c),
        Ty::I8 => with_serde::<pa::AtomicI8>(c),
        Ty::U8 => with_serde::<pa::AtomicU8>(c),
        Ty::I16 => with_serde::<pa::AtomicI16>(c),
        Ty::U16 => with_serde::<pa::AtomicU16>(c),
        Ty::I32 => with_serde::<pa::AtomicI32>(c),
        Ty::U32 => with_serde::<pa::AtomicU32>(c),
        Ty::I64 => with_serde::<pa::AtomicI64>(c),
        Ty::U64 => with_serde::<pa::AtomicU64>(c),
        Ty::Isize => with_serde::<pa::AtomicIsize>(c),
        Ty::Usize => with_serde::<pa::AtomicUsize>(c),
        Ty::I128 => with_serde::<pa::AtomicI128>(c),
        Ty::U128 => with_serde::<pa::AtomicU128>(c),
        Ty::F32 => with_serde::<pa::AtomicF32>(c),
        Ty::F64 => with_serde::<pa::AtomicF64>(c),
        #[cfg(portable_atomic_unstable_f16)]
        Ty::F16 => basic::<pa::AtomicF16>(c),
        #[cfg(portable_atomic_unstable_f128)]
        Ty::F128 => basic::<pa::AtomicF128>(c),
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    }));
    match r {
        Ok((a, b)) if a == b => Ok(()),
        Ok((a, b)) => Err(format!("{}: the atomic gives {a} but the plain value {b}{}", ACTS[c.act as usize], if c.act < 2 { format!(" for {{:{}}} width {} precision {}", DEBUG[c.spec as usize % DEBUG.len()].0, c.w, c.p) } else { String::new() })),
        Err(_) => Err(format!("{}: panics", ACTS[c.act as usize])),
    }
}
fn gen(seed: u64, stream: u64, i: u64, tys: &[Ty]) -> Case {
    let mut r = Rng::new(seed, stream, i);
    let ty = tys[(i % tys.len() as u64) as usize];
    let val = op::gen_val(&mut r, ty, 0);
    Case {
        ty,
        val,
        how: r.below(8),
        act: r.below(ACTS.len() as u64),
        spec: r.below(DEBUG.len() as u64),
        w: r.below(60),
        p: if r.chance(1, 20) { r.below(400) } else { r.below(20) },
        lim: if r.chance(1, 4) { r.below(40) } else { 100_000 },
        nest: r.below(5),
        aux: r.u64() >> 40,
    }
}
/// Sets fields to zero one by one while the case still fails.
fn shrink(mut c: Case) -> Case {
    loop {
        let mut cands = vec![];
        for v in [0, 1, c.val & 0xff, c.val >> 1, c.val & (c.val.wrapping_sub(1))] {
            cands.push(Case { val: v, ..c });
        }
        cands.extend([Case { how: 0, ..c }, Case { spec: 0, ..c }, Case { spec: c.spec / 2, ..c }, Case { w: 0, ..c }, Case { p: 0, ..c }, Case { lim: 100_000, ..c }, Case { nest: 0, ..c }, Case { aux: 0, ..c }, Case { aux: c.aux & 7, ..c }]);
        let better = |x: &Case| (x.val, x.how + x.spec + x.w + x.p + x.nest + x.aux, 100_000 - x.lim) < (c.val, c.how + c.spec + c.w + c.p + c.nest + c.aux, 100_000 - c.lim);
        match cands.into_iter().find(|x| better(x) && run(x).is_err()) {
            Some(x) => c = x,
            None => return c,
        }
    }
}
fn main() {
    let a = Args::get();
    install_crash_handler();
    std::panic::set_hook(Box::new(|_| ()));
    if let Some(r) = std::env::args().find_map(|x| x.strip_prefix("replay=").map(str::to_string)) {
        let c = parse(&r);
        match run(&c) {
            Ok(()) => println!("PASS"),
            Err(e) => {
                println!("FAIL index=0 {c} ## {}: {e}", c.ty.name());
                std::process::exit(1);
            }
        }
        return;
    }
    let tys = a.tys(Ty::ALL);
    let from = a.u("from", 0);
    let (mut n, mut set) = (0u64, HashSet::new());
    let mut acts = [0u64; 10];
    for i in from..from + a.u("count", 1000) {
        tick(i);
        let c = gen(a.u("seed", 1), a.u("stream", 0), i, &tys);
        if let Err(_) = run(&c) {
            let m = shrink(c);
            println!("FAIL index={i} {m} ## {}: {}", m.ty.name(), run(&m).unwrap_err());
            std::process::exit(1);
        }
        n += 1;
        acts[c.act as usize] += 1;
        if c.val != 0 {
            set.insert(c);
        }
        if i == from + 5 {
            println!("SAMPLE {c}");
        }
    }
    println!("STAT cases={n} distinct={} debug={} pointer={} serialize={} deserialize={} convert={}", set.len(), acts[0] + acts[1], acts[2], acts[3] + acts[4], acts[5] + acts[6] + acts[7], acts[8] + acts[9]);
}
