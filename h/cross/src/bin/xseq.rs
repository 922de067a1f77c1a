//! The sequence harness for libc-free targets; command on standard input.
#![no_std]
#![no_main]
use vcore::{op::Ty, seq};
use vcross::*;
entry!(main);
static mut TYS: [Ty; 32] = [Ty::Bool; 32];
static mut SEEN: seq::Seen = seq::Seen::new();
// as large as pages get
#[repr(align(65536))]
struct Room([u8; 3 << 16]);
static mut ROOM: Room = Room([0; 3 << 16]);
fn pages() {
    #[cfg(any(target_arch = "aarch64", target_arch = "riscv64", target_arch = "riscv32", target_arch = "loongarch64"))]
    const MPROTECT: usize = 226;
    #[cfg(target_arch = "x86_64")]
    const MPROTECT: usize = 10;
    #[cfg(target_arch = "mips")]
    const MPROTECT: usize = 4125;
    #[cfg(target_arch = "mips64")]
    const MPROTECT: usize = 5010;
    #[cfg(any(target_arch = "x86", target_arch = "arm", target_arch = "powerpc", target_arch = "powerpc64", target_arch = "s390x", target_arch = "sparc64"))]
    const MPROTECT: usize = 125;
    unsafe {
        let p = core::ptr::addr_of_mut!(ROOM) as *mut u8;
        let ok = sys(MPROTECT, p as usize, 1 << 16, 0, 0) == 0 && sys(MPROTECT, p as usize + (2 << 16), 1 << 16, 0, 0) == 0;
        say!("INFO pages guarded={}", ok as u8);
        if ok {
            seq::PAGES = (p.add(1 << 16), p.add(2 << 16));
        }
    }
}
fn main() {
    let a = Args(input());
    model(&a);
    let foot = a.s("mode") == Some("foot");
    if foot || a.s("replay").is_some() {
        pages();
    }
    if a.s("replay").is_some() {
        let Some(c) = seq::parse(a.body().lines().next().unwrap_or("")) else {
            say!("bad case");
            exit(3)
        };
        let mut st = Default::default();
        match seq::run(&c, &mut st) {
            Ok(()) => say!("PASS"),
            Err(f) => {
                let mut o = OUT;
                say!("FAIL");
                seq::describe(&mut o, &c, &f);
                exit(1)
            }
        }
        return;
    }
    let tys = a.tys(unsafe { &mut *core::ptr::addr_of_mut!(TYS) });
    if a.s("show").is_some() {
        let (s, t, i) = (a.u("seed", 1), a.u("stream", 0), a.u("show", 0));
        say!("{}", if foot { seq::gen_foot(s, t, i, tys) } else { seq::gen_case(s, t, i, tys, true) });
        return;
    }
    let loud = a.s("loud").is_some();
    let p = |i: u64| {
        if loud {
            say!("AT {}", i);
            OUT.flush();
        }
    };
    for t in [Ty::I32, Ty::I64, Ty::I128] {
        let (_, _, lf, alf) = vcore::real::info(t);
        say!("INFO {} lock_free={} always={}", t.name(), lf, alf);
    }
    let mut o = OUT;
    let bad = seq::drive(&mut o, a.u("seed", 1), a.u("stream", 0), a.u("from", 0), a.u("count", 1000), tys, foot, a.u("samples", 0), unsafe { &mut *core::ptr::addr_of_mut!(SEEN) }, Some(&p));
    exit(bad as i32)
}
