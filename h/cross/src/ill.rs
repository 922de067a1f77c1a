//! Instructions that qemu does not know (FEAT_LRCPC3, FEAT_LSE128), carried out by a SIGILL handler when the CPU model of this run is
//! supposed to have them (`ill=` of the input: 1 FEAT_LRCPC3, 2 FEAT_LSE128); without that, they end the program like anywhere else.
use crate::*;
use core::ptr::{read_volatile as rv, write_volatile as wv};

static mut HAS: u64 = 0;
/// ldiapp, stilp, swpp, ldclrp, ldsetp
pub static mut DONE: [u64; 5] = [0; 5];

#[repr(C)]
struct Sa {
    h: usize,
    flags: usize,
    restorer: usize,
    mask: u64,
}

pub fn install(a: &Args) {
    unsafe {
        HAS = a.u("ill", 0);
        if HAS != 0 {
            let s = Sa { h: on_ill as *const () as usize, flags: 4, restorer: 0, mask: !0 };
            sys(SIGACTION, 4, core::ptr::addr_of!(s) as usize, 0, 8);
        }
    }
}
extern "C" fn on_ill(_: i32, _: *mut u8, uc: *mut u8) {
    unsafe {
        let reg = |r: u32| uc.add(184 + 8 * r as usize) as *mut u64;
        let get = |r: u32| if r == 31 { 0 } else { rv(reg(r)) };
        let set = |r: u32, v: u64| {
            if r != 31 {
                wv(reg(r), v)
            }
        };
        let pc = uc.add(440) as *mut u64;
        let i = rv(rv(pc) as *const u32).to_le();
        let (rt, rn, r2) = (i & 31, i >> 5 & 31, i >> 16 & 31);
        let at = rv(reg(rn)) as *mut u64;
        let kind = match i {
            i if i & 0xffe0_fc00 == 0xd940_1800 => 0,
            i if i & 0xffe0_fc00 == 0xd900_1800 => 1,
            i if i & 0xff20_fc00 == 0x1920_8000 => 2,
            i if i & 0xff20_fc00 == 0x1920_1000 => 3,
            i if i & 0xff20_fc00 == 0x1920_3000 => 4,
            _ => 9,
        };
        let need = match kind {
            0 | 1 => 1,
            2..=4 => 2,
            _ => {
                say!("\nCRASH signal=4 instruction={:08x}", i);
                exit(71)
            }
        };
        if HAS & need == 0 {
            say!("\nCRASH signal=4 instruction={:08x} (not in this CPU model)", i);
            exit(71)
        }
        if at as usize & 15 != 0 {
            say!("\nCRASH signal=7 unaligned, instruction={:08x}", i);
            exit(71)
        }
        DONE[kind] += 1;
        let old = (rv(at), rv(at.add(1)));
        let arg = (get(rt), get(r2));
        match kind {
            0 => {}
            1 | 2 => {
                wv(at, arg.0);
                wv(at.add(1), arg.1);
            }
            3 => {
                wv(at, old.0 & !arg.0);
                wv(at.add(1), old.1 & !arg.1);
            }
            _ => {
                wv(at, old.0 | arg.0);
                wv(at.add(1), old.1 | arg.1);
            }
        }
        if kind != 1 {
            set(rt, old.0);
            set(r2, old.1);
        }
        wv(pc, rv(pc) + 4);
    }
}
