//! Runs a static RISC-V Linux program on a generated machine: lnx [model words] [qemu's log options] program
//! Model words: zacas=0|1 (the machine has it), probe=0|1 (the kernel has riscv_hwprobe), known=N (keys up to N), ima=BITS, ext=BITS (values of keys 3 and 4).
//! The log options -one-insn-per-tb, -d, -D and -dfilter write what qemu's -d exec,cpu would to standard error.
use std::io::{BufWriter, Write};
use vemu::riscv::Rv;
use vemu::{Cpu, Elf, Mem};

extern "C" {
    fn fork() -> i32;
    fn wait4(p: i32, st: *mut i32, o: i32, ru: *mut u8) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn raise(s: i32) -> i32;
}
const SIZE: usize = 4 << 20;

fn main() {
    let mut it = std::env::args().skip(1);
    let mut words = std::collections::HashMap::new();
    let (mut filter, mut bin, mut logging): (Vec<(u64, u64)>, _, bool) = (vec![], String::new(), false);
    while let Some(a) = it.next() {
        match a.as_str() {
            "-one-insn-per-tb" => {}
            "-d" => logging = it.next().is_some(),
            "-D" => {
                it.next();
            }
            "-dfilter" => {
                let h = |s: &str| u64::from_str_radix(s.trim_start_matches("0x"), 16).expect("dfilter");
                filter = it.next().unwrap().split(',').map(|r| r.split_once('+').map(|(a, n)| (h(a), h(a) + h(n))).expect("dfilter")).collect();
            }
            _ => match a.split_once('=') {
                Some((k, v)) => {
                    words.insert(k.to_string(), v.parse::<u64>().expect("number"));
                }
                None => bin = a,
            },
        }
    }
    let w = |k: &str, d: u64| words.get(k).copied().unwrap_or(d);
    let e = Elf::load(&bin);
    assert_eq!(e.machine, 243);
    let mut m = Mem::new(SIZE);
    for (a, d) in &e.segs {
        m.d[*a as usize..*a as usize + d.len()].copy_from_slice(d);
    }
    let mut c = Rv::new(e.class64, false);
    c.fd = true;
    c.zacas = w("zacas", 0) == 1;
    c.zabha = w("zabha", 0) == 1;
    c.pc = e.syms["_start"];
    c.x[2] = SIZE as u64 - 4096;
    let mut log = BufWriter::with_capacity(1 << 16, std::io::stderr());
    let die = |s: i32, c: &Rv, why: String, log: &mut BufWriter<std::io::Stderr>| -> ! {
        let _ = log.flush();
        let t = format!("\nCRASH signal={s} pc={:x} {why}\n", c.pc);
        unsafe {
            write(1, t.as_ptr(), t.len());
            raise(9);
            _exit(99)
        }
    };
    let trap = |c: &Rv, why: String, log: &mut BufWriter<std::io::Stderr>| {
        if why.starts_with("unknown") {
            die(4, c, why, log)
        } else {
            die(11, c, why, log)
        }
    };
    loop {
        if logging && filter.iter().any(|(a, b)| c.pc >= *a && c.pc < *b) {
            let _ = writeln!(log, "Trace 0: 0x0 [00000000/{:016x}/0/0] x", c.pc);
            for i in 0..32 {
                let _ = write!(log, " x{}/r {:x}{}", i, c.x[i], if i % 4 == 3 { "\n" } else { "" });
            }
        }
        let before = c.pc;
        if let Err(e) = c.step(&mut m) {
            trap(&c, e, &mut log);
        }
        if let Some((a, why)) = m.fault {
            c.pc = before;
            trap(&c, format!("{why} {a:#x}"), &mut log);
        }
        if !c.ecall {
            continue;
        }
        c.ecall = false;
        let a: Vec<u64> = (10..16).map(|r| if c.w64 { c.x[r] } else { c.x[r] as u32 as u64 }).collect();
        let ok = |p: u64, n: u64| p >= 0x1000 && p + n <= SIZE as u64;
        let r: i64 = unsafe {
            match c.x[17] {
                63 if ok(a[1], a[2]) => read(a[0] as i32, m.d.as_mut_ptr().add(a[1] as usize), a[2] as usize) as i64,
                64 if ok(a[1], a[2]) => {
                    let _ = log.flush();
                    write(a[0] as i32, m.d.as_ptr().add(a[1] as usize), a[2] as usize) as i64
                }
                94 | 93 => {
                    let t = format!("MACHINE amocas={}\n", c.amocas);
                    write(1, t.as_ptr(), t.len());
                    let _ = log.flush();
                    _exit(a[0] as i32)
                }
                103 => {
                    alarm(m.peek(a[1] as u32 + if c.w64 { 16 } else { 8 }, 4) as u32);
                    0
                }
                134 => 0,
                220 => {
                    let _ = log.flush();
                    fork() as i64
                }
                95 => {
                    // waitid, by id, with the code and status of siginfo_t
                    let mut st = 0i32;
                    let r = wait4(a[1] as i32, &mut st, 0, std::ptr::null_mut());
                    if a[2] != 0 {
                        let (code, v) = if st & 0x7f == 0 { (1, st >> 8 & 0xff) } else { (2, st & 0x7f) };
                        m.w32(a[2] as u32 + 8, code as u32);
                        m.w32(a[2] as u32 + 20, v as u32);
                    }
                    if r < 0 {
                        -10
                    } else {
                        0
                    }
                }
                260 => {
                    let mut st = 0i32;
                    let r = wait4(a[0] as i32, &mut st, a[2] as i32, std::ptr::null_mut());
                    if a[1] != 0 {
                        m.w32(a[1] as u32, st as u32);
                    }
                    r as i64
                }
                258 => {
                    if w("probe", 1) == 0 {
                        -38
                    } else if a[4] != 0 || (a[2] == 0) != (a[3] == 0) {
                        -22
                    } else if !ok(a[0], a[1].saturating_mul(16)) || a[0] & 7 != 0 {
                        -14
                    } else {
                        for i in 0..a[1] {
                            let p = (a[0] + 16 * i) as u32;
                            let k = m.r64(p);
                            if k > w("known", 13) {
                                m.w64(p, !0);
                                m.w64(p + 8, 0);
                            } else {
                                let v = match k {
                                    3 => w("ima", 1),
                                    4 => w("ext", 0),
                                    _ => w("rest", 0) >> k,
                                };
                                m.w64(p + 8, v);
                            }
                        }
                        0
                    }
                }
                _ => -38,
            }
        };
        c.x[10] = if c.w64 { r as u64 } else { r as i32 as i64 as u64 };
    }
}
