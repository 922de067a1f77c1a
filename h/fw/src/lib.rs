//! Firmware for the instruction-level emulators: one entry that makes one operation.
#![no_std]
#![cfg_attr(all(feature = "gp", target_arch = "msp430"), feature(asm_experimental_arch))]
use vcore::op::*;
use vcore::real;

/// Layout of a request, in bytes: 0 type, 1 kind, 2 order, 3 failure order, 4 result kind, 5 done,
/// 8..24 first argument, 24..40 second, 40..56 result.
pub const REQ: usize = 56;

unsafe fn get(p: *const u8) -> u128 {
    let mut b = [0u8; 16];
    for i in 0..16 {
        b[i] = p.add(i).read_volatile();
    }
    u128::from_ne_bytes(b)
}

fn has(ty: Ty) -> bool {
    !(cfg!(target_arch = "msp430") && matches!(ty, Ty::F32 | Ty::F64)) && ty.exists()
}

/// # Safety
/// `req` is a request, `var` a variable of its type.
#[no_mangle]
pub unsafe extern "C" fn vop(req: *mut u8, var: *mut u8) {
    let ty = Ty::ALL[req.read_volatile() as usize];
    let op = Op {
        k: K::ALL[req.add(1).read_volatile() as usize],
        o: req.add(2).read_volatile(),
        f: req.add(3).read_volatile(),
        a: get(req.add(8)),
        b: get(req.add(24)),
    };
    if !has(ty) {
        req.add(5).write_volatile(2);
        return;
    }
    let r = real::apply(ty, var, &op);
    let b = r.v.to_ne_bytes();
    for i in 0..16 {
        req.add(40 + i).write_volatile(b[i]);
    }
    req.add(4).write_volatile(r.k as u8);
    req.add(5).write_volatile(1);
}

/// What the emulator watches for.
#[no_mangle]
#[inline(never)]
pub extern "C" fn vpanic() -> ! {
    loop {
        unsafe { core::ptr::addr_of_mut!(SPIN).write_volatile(1) };
    }
}
static mut SPIN: u8 = 0;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    vpanic()
}

#[cfg(feature = "cs")]
mod cs {
    /// Interrupts enabled; sections entered; sections left; mistakes; depth
    #[no_mangle]
    pub static mut vcs: [u32; 5] = [1, 0, 0, 0, 0];
    struct Cs;
    critical_section::set_impl!(Cs);
    unsafe impl critical_section::Impl for Cs {
        unsafe fn acquire() -> u32 {
            let p = core::ptr::addr_of_mut!(vcs) as *mut u32;
            let was = p.read_volatile();
            p.write_volatile(0);
            p.add(1).write_volatile(p.add(1).read_volatile().wrapping_add(1));
            let d = p.add(4).read_volatile();
            p.add(4).write_volatile(d + 1);
            // the state tells the depth, so that a state given back to the wrong section shows
            was | (d + 1) << 8
        }
        unsafe fn release(s: u32) {
            let p = core::ptr::addr_of_mut!(vcs) as *mut u32;
            let d = p.add(4).read_volatile();
            if d == 0 || s >> 8 != d || p.read_volatile() != 0 {
                p.add(3).write_volatile(1);
            }
            p.add(4).write_volatile(d.wrapping_sub(1));
            p.add(2).write_volatile(p.add(2).read_volatile().wrapping_add(1));
            p.write_volatile(s & 1);
        }
    }
}

/// What the compiler calls here and no library brings.
#[cfg(target_arch = "msp430")]
mod rt {
    #[no_mangle]
    pub extern "C" fn __mspabi_mpyi(mut a: u16, mut b: u16) -> u16 {
        let mut r = 0u16;
        while b != 0 {
            if b & 1 != 0 {
                r = r.wrapping_add(a);
            }
            a = a.wrapping_add(a);
            b >>= 1;
        }
        r
    }
    // two halves, so that the shifts themselves do not call these functions
    #[repr(C)]
    pub union W {
        w: u32,
        h: [u16; 2],
    }
    #[no_mangle]
    pub extern "C" fn __mspabi_slll(a: u32, mut n: u16) -> u32 {
        let mut x = W { w: a };
        unsafe {
            while n != 0 {
                x.h[1] = x.h[1].wrapping_add(x.h[1]) | (x.h[0] & 0x8000 != 0) as u16;
                x.h[0] = x.h[0].wrapping_add(x.h[0]);
                n -= 1;
            }
            x.w
        }
    }
    #[no_mangle]
    pub extern "C" fn __mspabi_srll(a: u32, mut n: u16) -> u32 {
        let mut x = W { w: a };
        unsafe {
            while n != 0 {
                x.h[0] = x.h[0] >> 1 | if x.h[1] & 1 != 0 { 0x8000 } else { 0 };
                x.h[1] >>= 1;
                n -= 1;
            }
            x.w
        }
    }
}

/// The compiler makes multiplications of loops that add.
#[cfg(all(feature = "gp", target_arch = "avr"))]
mod rtm {
    #[no_mangle]
    pub extern "C" fn __mulsi3(mut a: u32, mut b: u32) -> u32 {
        let mut r = 0u32;
        while b != 0 {
            if b & 1 != 0 {
                r = r.wrapping_add(a);
            }
            a = a.wrapping_add(a);
            b >>= 1;
        }
        r
    }
}
#[cfg(all(feature = "gp", target_arch = "msp430"))]
mod rtm {
    use super::rt::__mspabi_srll;
    #[no_mangle]
    pub extern "C" fn __mspabi_mpyl(mut a: u32, mut b: u32) -> u32 {
        let mut r = 0u32;
        while b != 0 {
            if b & 1 != 0 {
                r = r.wrapping_add(a);
            }
            a = a.wrapping_add(a);
            b = __mspabi_srll(b, 1);
        }
        r
    }
    // its own convention: r8-r11 and r12-r15 to r12-r15
    core::arch::global_asm!(
        ".globl __mspabi_mpyll",
        "__mspabi_mpyll:",
        "push r4", "push r5", "push r6", "push r7", "push r8", "push r9", "push r10",
        "mov #0, r4", "mov #0, r5", "mov #0, r6", "mov #0, r7",
        "2:",
        "bit #1, r12", "jz 3f",
        "add r8, r4", "addc r9, r5", "addc r10, r6", "addc r11, r7",
        "3:",
        "add r8, r8", "addc r9, r9", "addc r10, r10", "addc r11, r11",
        "bic #1, r2", "rrc r15", "rrc r14", "rrc r13", "rrc r12",
        "tst r12", "jnz 2b", "tst r13", "jnz 2b", "tst r14", "jnz 2b", "tst r15", "jnz 2b",
        "mov r4, r12", "mov r5, r13", "mov r6, r14", "mov r7, r15",
        "pop r10", "pop r9", "pop r8", "pop r7", "pop r6", "pop r5", "pop r4",
        "ret",
    );
}

/// Generated programs with inlined operations.
#[cfg(feature = "gp")]
#[path = "../../gp/mods.rs"]
mod gpm;
#[cfg(feature = "gp")]
mod gp {
    use super::gpm::{plain, real};
    /// Request, in bytes: 0 program, 1 what (0 on the atomics, 1 on plain memory, 2/3 a description of these),
    /// 2 done, 8..72 arguments, 72..136 memory, 144.. trail or description.
    ///
    /// # Safety
    /// `req` is a request with room for the trail, `var` a structure.
    #[no_mangle]
    pub unsafe extern "C" fn vgp(req: *mut u8, var: *mut u8) {
        let k = req.read_volatile() as usize;
        let a = &*(req.add(8) as *const [u64; 8]);
        let m = &mut *(req.add(72) as *mut [u64; 8]);
        let t = req.add(144);
        match req.add(1).read_volatile() {
            0 => real::PROGS[k](&mut *(var as *mut real::S), a, m, &mut *(t as *mut [u128; real::NT])),
            1 => plain::PROGS[k](&mut *(var as *mut plain::S), a, m, &mut *(t as *mut [u128; plain::NT])),
            w => {
                let w = w == 2;
                let f = if w { real::FIELDS } else { plain::FIELDS };
                let (s, al) = if w { (real::SIZE, real::ALIGN) } else { (plain::SIZE, plain::ALIGN) };
                let t = t as *mut u16;
                for (i, v) in [real::NT, real::PROGS.len(), s, al, f.len()].iter().enumerate() {
                    t.add(i).write_volatile(*v as u16);
                }
                for (i, (o, n, k)) in f.iter().enumerate() {
                    t.add(8 + 3 * i).write_volatile(*o as u16);
                    t.add(9 + 3 * i).write_volatile(*n as u16);
                    t.add(10 + 3 * i).write_volatile(*k as u16);
                }
            }
        }
        req.add(2).write_volatile(1);
    }
}
