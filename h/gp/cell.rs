//! Plain memory with the atomics' methods: what a single thread must see.
use core::cell::UnsafeCell;
use core::sync::atomic::Ordering;

macro_rules! base {
    ($A:ident, $t:ty, $al:literal $(, $g:ident)?) => {
        #[repr(C, align($al))]
        pub struct $A$(<$g>)?(UnsafeCell<$t>);
        unsafe impl$(<$g>)? Sync for $A$(<$g>)? {}
        impl$(<$g>)? $A$(<$g>)? {
            #[inline(always)]
            pub const fn new(v: $t) -> Self {
                Self(UnsafeCell::new(v))
            }
            #[inline(always)]
            fn g(&self) -> $t {
                unsafe { *self.0.get() }
            }
            #[inline(always)]
            fn p(&self, f: impl FnOnce($t) -> $t) -> $t {
                let v = self.g();
                unsafe { *self.0.get() = f(v) };
                v
            }
            #[inline(always)]
            pub fn load(&self, _: Ordering) -> $t {
                self.g()
            }
            #[inline(always)]
            pub fn store(&self, v: $t, _: Ordering) {
                self.p(|_| v);
            }
            #[inline(always)]
            pub fn swap(&self, v: $t, _: Ordering) -> $t {
                self.p(|_| v)
            }
            #[inline(always)]
            pub fn fetch_update(&self, _: Ordering, _: Ordering, mut f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                let v = self.g();
                match f(v) {
                    Some(n) => {
                        self.p(|_| n);
                        Ok(v)
                    }
                    None => Err(v),
                }
            }
            #[inline(always)]
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            #[inline(always)]
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            #[inline(always)]
            pub const fn as_ptr(&self) -> *mut $t {
                self.0.get()
            }
            #[inline(always)]
            pub unsafe fn from_ptr<'a>(p: *mut $t) -> &'a Self {
                &*(p as *mut Self)
            }
        }
    };
}
macro_rules! cas {
    ($A:ident, $t:ty, $eq:expr $(, $g:ident)?) => {
        impl$(<$g>)? $A$(<$g>)? {
            #[inline(always)]
            pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                let v = self.g();
                if $eq(v, a) {
                    Ok(self.p(|_| b))
                } else {
                    Err(v)
                }
            }
            #[inline(always)]
            pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(a, b, o, f)
            }
        }
    };
}
macro_rules! two {
    ($t:ty, $(($f:ident, $n:ident, $e:expr)),*) => {
        $(#[inline(always)]
        pub fn $f(&self, v: $t, _: Ordering) -> $t {
            self.p(|c| $e(c, v))
        }
        #[inline(always)]
        pub fn $n(&self, v: $t, _: Ordering) {
            self.p(|c| $e(c, v));
        })*
    };
}
macro_rules! int {
    ($A:ident, $t:ty, $al:literal) => {
        base!($A, $t, $al);
        cas!($A, $t, |x: $t, y: $t| x == y);
        impl $A {
            two!($t, (fetch_add, add, |c: $t, v| c.wrapping_add(v)), (fetch_sub, sub, |c: $t, v| c.wrapping_sub(v)), (fetch_and, and, |c: $t, v| c & v),
                (fetch_or, or, |c: $t, v| c | v), (fetch_xor, xor, |c: $t, v| c ^ v));
            #[inline(always)]
            pub fn fetch_nand(&self, v: $t, _: Ordering) -> $t {
                self.p(|c| !(c & v))
            }
            #[inline(always)]
            pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
                self.p(|c| if c > v { c } else { v })
            }
            #[inline(always)]
            pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
                self.p(|c| if c < v { c } else { v })
            }
            #[inline(always)]
            pub fn fetch_not(&self, _: Ordering) -> $t {
                self.p(|c| !c)
            }
            #[inline(always)]
            pub fn not(&self, _: Ordering) {
                self.p(|c| !c);
            }
            #[inline(always)]
            pub fn fetch_neg(&self, _: Ordering) -> $t {
                self.p(|c| (0 as $t).wrapping_sub(c))
            }
            #[inline(always)]
            pub fn neg(&self, _: Ordering) {
                self.p(|c| (0 as $t).wrapping_sub(c));
            }
            #[inline(always)]
            fn bit(b: u32) -> $t {
                (1 as $t) << (b & (<$t>::BITS - 1))
            }
            #[inline(always)]
            pub fn bit_set(&self, b: u32, _: Ordering) -> bool {
                self.p(|c| c | Self::bit(b)) & Self::bit(b) != 0
            }
            #[inline(always)]
            pub fn bit_clear(&self, b: u32, _: Ordering) -> bool {
                self.p(|c| c & !Self::bit(b)) & Self::bit(b) != 0
            }
            #[inline(always)]
            pub fn bit_toggle(&self, b: u32, _: Ordering) -> bool {
                self.p(|c| c ^ Self::bit(b)) & Self::bit(b) != 0
            }
        }
    };
}
int!(AtomicI8, i8, 1);
int!(AtomicU8, u8, 1);
int!(AtomicI16, i16, 2);
int!(AtomicU16, u16, 2);
int!(AtomicI32, i32, 4);
int!(AtomicU32, u32, 4);
int!(AtomicI64, i64, 8);
int!(AtomicU64, u64, 8);
int!(AtomicI128, i128, 16);
int!(AtomicU128, u128, 16);
#[cfg(target_pointer_width = "64")]
int!(AtomicIsize, isize, 8);
#[cfg(target_pointer_width = "64")]
int!(AtomicUsize, usize, 8);
#[cfg(target_pointer_width = "32")]
int!(AtomicIsize, isize, 4);
#[cfg(target_pointer_width = "32")]
int!(AtomicUsize, usize, 4);
#[cfg(target_pointer_width = "16")]
int!(AtomicIsize, isize, 2);
#[cfg(target_pointer_width = "16")]
int!(AtomicUsize, usize, 2);

base!(AtomicBool, bool, 1);
cas!(AtomicBool, bool, |x: bool, y: bool| x == y);
impl AtomicBool {
    two!(bool, (fetch_and, and, |c: bool, v| c & v), (fetch_or, or, |c: bool, v| c | v), (fetch_xor, xor, |c: bool, v| c ^ v));
    #[inline(always)]
    pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool {
        self.p(|c| !(c & v))
    }
    #[inline(always)]
    pub fn fetch_not(&self, _: Ordering) -> bool {
        self.p(|c| !c)
    }
    #[inline(always)]
    pub fn not(&self, _: Ordering) {
        self.p(|c| !c);
    }
}

#[cfg(target_pointer_width = "64")]
base!(AtomicPtr, *mut T, 8, T);
#[cfg(target_pointer_width = "32")]
base!(AtomicPtr, *mut T, 4, T);
#[cfg(target_pointer_width = "16")]
base!(AtomicPtr, *mut T, 2, T);
cas!(AtomicPtr, *mut T, |x: *mut T, y: *mut T| x == y, T);
impl<T> AtomicPtr<T> {
    #[inline(always)]
    fn u(&self, f: impl FnOnce(usize) -> usize) -> *mut T {
        self.p(|c| core::ptr::without_provenance_mut(f(c.addr())))
    }
    #[inline(always)]
    pub fn fetch_ptr_add(&self, n: usize, _: Ordering) -> *mut T {
        self.u(|c| c.wrapping_add(n.wrapping_mul(core::mem::size_of::<T>())))
    }
    #[inline(always)]
    pub fn fetch_ptr_sub(&self, n: usize, _: Ordering) -> *mut T {
        self.u(|c| c.wrapping_sub(n.wrapping_mul(core::mem::size_of::<T>())))
    }
    #[inline(always)]
    pub fn fetch_byte_add(&self, n: usize, _: Ordering) -> *mut T {
        self.u(|c| c.wrapping_add(n))
    }
    #[inline(always)]
    pub fn fetch_byte_sub(&self, n: usize, _: Ordering) -> *mut T {
        self.u(|c| c.wrapping_sub(n))
    }
    #[inline(always)]
    pub fn fetch_or(&self, n: usize, _: Ordering) -> *mut T {
        self.u(|c| c | n)
    }
    #[inline(always)]
    pub fn fetch_and(&self, n: usize, _: Ordering) -> *mut T {
        self.u(|c| c & n)
    }
    #[inline(always)]
    pub fn fetch_xor(&self, n: usize, _: Ordering) -> *mut T {
        self.u(|c| c ^ n)
    }
    #[inline(always)]
    fn bit(b: u32) -> usize {
        1 << (b & (usize::BITS - 1))
    }
    #[inline(always)]
    pub fn bit_set(&self, b: u32, _: Ordering) -> bool {
        self.u(|c| c | Self::bit(b)).addr() & Self::bit(b) != 0
    }
    #[inline(always)]
    pub fn bit_clear(&self, b: u32, _: Ordering) -> bool {
        self.u(|c| c & !Self::bit(b)).addr() & Self::bit(b) != 0
    }
    #[inline(always)]
    pub fn bit_toggle(&self, b: u32, _: Ordering) -> bool {
        self.u(|c| c ^ Self::bit(b)).addr() & Self::bit(b) != 0
    }
}

macro_rules! float {
    ($A:ident, $t:ty, $al:literal) => {
        base!($A, $t, $al);
        cas!($A, $t, |x: $t, y: $t| x.to_bits() == y.to_bits());
        impl $A {
            #[inline(always)]
            pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                self.p(|c| c + v)
            }
            #[inline(always)]
            pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                self.p(|c| c - v)
            }
            #[inline(always)]
            pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
                self.p(|c| if c > v { c } else { v })
            }
            #[inline(always)]
            pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
                self.p(|c| if c < v { c } else { v })
            }
            #[inline(always)]
            pub fn fetch_neg(&self, _: Ordering) -> $t {
                self.p(|c| -c)
            }
            #[inline(always)]
            pub fn fetch_abs(&self, _: Ordering) -> $t {
                self.p(|c| <$t>::from_bits(c.to_bits() << 1 >> 1))
            }
        }
    };
}
#[cfg(not(target_arch = "msp430"))]
float!(AtomicF32, f32, 4);
#[cfg(not(target_arch = "msp430"))]
float!(AtomicF64, f64, 8);
