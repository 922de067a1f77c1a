//! Orderings that must panic, and those that must not, one forked process each. seed= stream= from= count= types=
#![no_std]
#![no_main]
use core::ptr::addr_of_mut;
use vcore::op::*;
use vcore::ord::*;
use vcross::*;
entry!(main);
#[repr(align(64))]
struct Mem([u8; 64]);
static mut MEM: Mem = Mem([0; 64]);
static mut TYS: [Ty; 32] = [Ty::Bool; 32];
static mut CUR: (usize, u128) = (0, 0);
unsafe fn var() -> *mut u8 {
    (addr_of_mut!(MEM) as *mut u8).add(16)
}
fn on_panic() -> ! {
    unsafe {
        let (sz, init) = CUR;
        sys(EXIT, if peek(var(), sz) == init { 40 } else { 41 }, 0, 0, 0);
    }
    loop {}
}
/// How the child ended: exit code, or 256 + signal.
unsafe fn one(c: &Case) -> usize {
    let pid = fork();
    if pid < 0 {
        say!("ERROR fork {}", pid);
        exit(3);
    }
    if pid == 0 {
        alarm(20);
        ON_PANIC = Some(on_panic);
        let p = var();
        CUR = (c.ty.size(), c.init);
        poke(p, c.ty.size(), c.init);
        run(c, p);
        sys(EXIT, 42, 0, 0, 0);
    }
    #[cfg(target_arch = "riscv32")]
    {
        // no wait4 here
        let mut si = [0i32; 32];
        core::arch::asm!("ecall", in("a7") 95, inlateout("a0") 1 => _, in("a1") pid, in("a2") si.as_mut_ptr(), in("a3") 4, in("a4") 0);
        return if si[2] == 1 { si[5] as usize } else { 256 + si[5] as usize };
    }
    #[allow(unreachable_code)]
    let mut st = 0u32;
    while sys(WAIT4, pid as usize, addr_of_mut!(st) as usize, 0, 0) == -4 {}
    if st & 0x7f == 0 {
        (st >> 8 & 0xff) as usize
    } else {
        256 + (st & 0x7f) as usize
    }
}
fn why(c: &Case, r: usize) -> Option<&'static str> {
    match (r, c.bad) {
        (40, true) | (42, false) => None,
        (42, _) => Some("does not panic"),
        (40, _) => Some("panics although the orderings are allowed"),
        (41, _) => Some("panics, but has changed the value"),
        (270, _) => Some("does not return"),
        _ => Some("the program dies"),
    }
}
fn main() {
    let a = Args(input());
    unsafe {
        model(&a);
        if a.s("replay").is_some() {
            let Some(c) = parse(a.body().lines().next().unwrap_or("")) else {
                say!("bad case");
                exit(3)
            };
            if let Some(w) = why(&c, one(&c)) {
                say!("FAIL {:?} ## {}", c, w);
                exit(1);
            }
            say!("PASS");
            return;
        }
        let tys = a.tys(&mut *addr_of_mut!(TYS));
        let (mut n, mut must, mut kinds) = (0u64, 0u64, 0u64);
        let mut k = Kinds([0; 128]);
        for i in a.u("from", 0)..a.u("from", 0) + a.u("count", 1000) {
            let c = gen(a.u("seed", 1), a.u("stream", 0), i, tys);
            if let Some(w) = why(&c, one(&c)) {
                say!("FAIL index={} {:?} ## {} {:?}: {}", i, c, c.ty.name(), c.op, w);
                exit(1);
            }
            n += 1;
            if c.bad {
                must += 1;
                kinds += k.add(&c) as u64;
            }
            if i % 499 == 7 {
                say!("SAMPLE {:?} {}", c, if c.bad { "panicked" } else { "did not panic" });
            }
        }
        say!("STAT cases={} distinct={} must_panic={}", n, kinds, must);
    }
}
