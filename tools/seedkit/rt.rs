// Minimal platform layer for static, libc-free Linux programs (run under qemu-user).
use core::arch::asm;
use core::fmt;

#[cfg(any(target_arch = "aarch64", target_arch = "riscv64", target_arch = "riscv32", target_arch = "loongarch64"))]
mod nr {
    pub const READ: usize = 63;
    pub const WRITE: usize = 64;
    pub const EXIT: usize = 94;
    pub const SIGACTION: usize = 134;
}
#[cfg(any(target_arch = "arm", target_arch = "x86"))]
mod nr {
    pub const READ: usize = 3;
    pub const WRITE: usize = 4;
    pub const EXIT: usize = 1;
    pub const SIGACTION: usize = 174;
}
#[cfg(any(target_arch = "powerpc64", target_arch = "powerpc"))]
mod nr {
    pub const READ: usize = 3;
    pub const WRITE: usize = 4;
    pub const EXIT: usize = 1;
    pub const SIGACTION: usize = 173;
}
#[cfg(target_arch = "s390x")]
mod nr {
    pub const READ: usize = 3;
    pub const WRITE: usize = 4;
    pub const EXIT: usize = 1;
    pub const SIGACTION: usize = 174;
}
#[cfg(target_arch = "x86_64")]
mod nr {
    pub const READ: usize = 0;
    pub const WRITE: usize = 1;
    pub const EXIT: usize = 60;
    pub const SIGACTION: usize = 13;
}
#[cfg(target_arch = "mips")]
mod nr {
    pub const READ: usize = 4003;
    pub const WRITE: usize = 4004;
    pub const EXIT: usize = 4001;
    pub const SIGACTION: usize = 4194;
}
#[cfg(target_arch = "mips64")]
mod nr {
    pub const READ: usize = 5000;
    pub const WRITE: usize = 5001;
    pub const EXIT: usize = 5058;
    pub const SIGACTION: usize = 5013;
}
#[cfg(target_arch = "sparc64")]
mod nr {
    pub const READ: usize = 3;
    pub const WRITE: usize = 4;
    pub const EXIT: usize = 1;
    pub const SIGACTION: usize = 102;
}
pub use nr::SIGACTION;

/// Raw system call.
///
/// # Safety
/// As the system call.
#[inline(never)]
pub unsafe fn sys(n: usize, a: usize, b: usize, c: usize, d: usize) -> isize {
    let r: isize;
    #[cfg(target_arch = "aarch64")]
    asm!("svc 0", in("x8") n, inlateout("x0") a => r, in("x1") b, in("x2") c, in("x3") d, options(nostack));
    #[cfg(any(target_arch = "riscv64", target_arch = "riscv32"))]
    asm!("ecall", in("a7") n, inlateout("a0") a => r, in("a1") b, in("a2") c, in("a3") d, options(nostack));
    #[cfg(target_arch = "loongarch64")]
    asm!("syscall 0", in("$a7") n, inlateout("$a0") a => r, in("$a1") b, in("$a2") c, in("$a3") d,
        lateout("$t0") _, lateout("$t1") _, lateout("$t2") _, lateout("$t3") _, lateout("$t4") _, lateout("$t5") _, lateout("$t6") _, lateout("$t7") _, lateout("$t8") _, options(nostack));
    #[cfg(target_arch = "arm")]
    asm!("mov {t}, r7", "mov r7, {n}", "svc 0", "mov r7, {t}", t = out(reg) _, n = in(reg) n, inlateout("r0") a => r, in("r1") b, in("r2") c, in("r3") d);
    #[cfg(target_arch = "x86_64")]
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, out("rcx") _, out("r11") _, options(nostack));
    #[cfg(target_arch = "x86")]
    asm!("push esi", "mov esi, {d:e}", "int 0x80", "pop esi", d = inout(reg) d => _, inlateout("eax") n as isize => r, in("ecx") b, in("edx") c, in("ebx") a);
    #[cfg(any(target_arch = "powerpc64", target_arch = "powerpc"))]
    asm!("sc", "bns 2f", "neg 3, 3", "2:", inlateout("r0") n => _, inlateout("r3") a => r, inlateout("r4") b => _, inlateout("r5") c => _, inlateout("r6") d => _,
        lateout("r7") _, lateout("r8") _, lateout("r9") _, lateout("r10") _, lateout("r11") _, lateout("r12") _, lateout("cr0") _, lateout("ctr") _, lateout("xer") _, options(nostack));
    #[cfg(target_arch = "s390x")]
    asm!("svc 0", in("r1") n, inlateout("r2") a => r, in("r3") b, in("r4") c, in("r5") d, options(nostack));
    #[cfg(any(target_arch = "mips", target_arch = "mips64"))]
    asm!("syscall", inlateout("$2") n => r, in("$4") a, in("$5") b, in("$6") c, inlateout("$7") d => _,
        lateout("$3") _, lateout("$8") _, lateout("$9") _, lateout("$10") _, lateout("$11") _, lateout("$12") _, lateout("$13") _, lateout("$14") _, lateout("$15") _, lateout("$24") _, lateout("$25") _, options(nostack));
    #[cfg(target_arch = "sparc64")]
    asm!("t 0x6d", in("g1") n, inlateout("o0") a => r, in("o1") b, in("o2") c, in("o3") d, options(nostack));
    r
}

pub fn write(b: &[u8]) {
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { sys(nr::WRITE, 1, b.as_ptr() as usize + i, b.len() - i, 0) };
        if n <= 0 {
            break;
        }
        i += n as usize;
    }
}
pub fn exit(c: i32) -> ! {
    OUT.flush();
    unsafe { sys(nr::EXIT, c as usize, 0, 0, 0) };
    loop {}
}

static mut BUF: [u8; 4096] = [0; 4096];
static mut LEN: usize = 0;
#[derive(Clone, Copy)]
pub struct Out;
pub static OUT: Out = Out;
impl Out {
    pub fn flush(&self) {
        unsafe {
            write(&BUF[..LEN]);
            LEN = 0;
        }
    }
}
impl fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &b in s.as_bytes() {
            unsafe {
                if LEN == BUF.len() {
                    self.flush();
                }
                BUF[LEN] = b;
                LEN += 1;
            }
        }
        Ok(())
    }
}
#[macro_export]
macro_rules! say {
    ($($t:tt)*) => {{
        use core::fmt::Write;
        let mut o = $crate::rt::OUT;
        let _ = write!(o, $($t)*);
        let _ = o.write_str("\n");
    }};
}

// What the "C library" reports; the harness sets these from its input before the first operation.
pub static mut HWCAP: usize = 0;
pub static mut HWCAP2: usize = 0x8000_0000;
#[no_mangle]
unsafe extern "C" fn getauxval(t: usize) -> usize {
    match t {
        16 => HWCAP,
        26 => HWCAP2,
        _ => 0,
    }
}
#[cfg(all(target_arch = "powerpc64", target_endian = "big"))]
#[no_mangle]
unsafe extern "C" fn dlsym(_: usize, _: usize) -> *const () {
    getauxval as *const ()
}

#[panic_handler]
fn panic(i: &core::panic::PanicInfo<'_>) -> ! {
    say!("\nCRASH panic={}", i);
    exit(70)
}

#[macro_export]
macro_rules! entry {
    ($main:path) => {
        #[cfg(target_arch = "x86_64")]
        core::arch::global_asm!(".globl _start", "_start: and rsp, -16", "call vstart", "ud2");
        #[cfg(target_arch = "x86")]
        core::arch::global_asm!(".globl _start", "_start: and esp, -16", "call vstart", "ud2");
        #[cfg(target_arch = "s390x")]
        core::arch::global_asm!(".globl _start", "_start: aghi %r15, -160", "brasl %r14, vstart");
        #[cfg(any(target_arch = "x86_64", target_arch = "x86", target_arch = "s390x", target_arch = "mips", target_arch = "mips64"))]
        #[no_mangle]
        extern "C" fn vstart() -> ! {
            $main();
            $crate::rt::exit(0)
        }
        #[cfg(not(any(target_arch = "x86_64", target_arch = "x86", target_arch = "s390x", target_arch = "mips", target_arch = "mips64")))]
        #[no_mangle]
        extern "C" fn _start() -> ! {
            $main();
            $crate::rt::exit(0)
        }
    };
}

// The macro below cannot hold this: MIPS assembly needs a feature gate in the using crate.
#[cfg(target_arch = "mips")]
core::arch::global_asm!(".set noreorder", ".globl __start", "__start:", "lui $25, %hi(vstart)", "addiu $25, $25, %lo(vstart)", "lui $28, %hi(_gp)", "addiu $28, $28, %lo(_gp)", "jr $25", "nop");
#[cfg(target_arch = "mips64")]
core::arch::global_asm!(".set noreorder", ".globl __start", "__start:",
    "lui $25, %highest(vstart)", "daddiu $25, $25, %higher(vstart)", "dsll $25, $25, 16", "daddiu $25, $25, %hi(vstart)", "dsll $25, $25, 16", "daddiu $25, $25, %lo(vstart)",
    "jr $25", "nop");
