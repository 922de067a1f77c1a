//! Readers suspended at every point inside a load while the writer makes exactly as many stores as
//! bring a narrow stamp of the internal lock back to the value the readers have seen.
//! writes=<stores> steps=<suspension points> stride=<instructions between them>
#[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
fn main() {}
#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
fn main() {
    use std::ptr::addr_of_mut;
    use vcore::op::*;
    use vcore::real;
    use vhost::tf::{self, Outcome, Seg};
    use vhost::*;
    const MAXR: usize = tf::MAXCTX - 1;
    #[repr(align(64))]
    struct A([u8; 64]);
    static mut VAR: A = A([0; 64]);
    static mut RES: [[u128; 2]; MAXR] = [[0; 2]; MAXR];
    static mut WRITES: u64 = 0;
    static mut READERS: usize = 0;
    const LOAD: Op = Op { k: K::Load, o: SC, f: 0, a: 0, b: 0 };
    fn body(id: usize) {
        unsafe {
            let p = addr_of_mut!(VAR) as *mut u8;
            if id < READERS {
                RES[id][0] = real::apply(Ty::U128, p, &LOAD).v;
                RES[id][1] = 1;
            } else {
                real::store_many(Ty::U128, p, WRITES, 1);
            }
        }
    }
    let a = Args::get();
    install_crash_handler();
    tf::install();
    tf::patience(u32::MAX);
    let r = a.u("steps", 120).min(MAXR as u64) as usize;
    let stride = a.u("stride", 1) as u32;
    let failed;
    unsafe {
        WRITES = a.u("writes", 1 << 31);
        READERS = r;
        real::apply(Ty::U128, addr_of_mut!(VAR) as *mut u8, &LOAD);
        // how long a load is
        READERS = 1;
        let total = tf::run(1, body, &[Seg { tid: 0, steps: 3000 }], 100, 0, 100_000, false).steps[0] as u32;
        READERS = r;
        let s0 = total.saturating_sub(1 + stride * r as u32).max(1);
        let mut split = a.u("split", 0);
        let plan = |split: u64| {
            let mut segs: Vec<Seg> = (0..r).map(|i| Seg { tid: i as u8, steps: s0 + stride * i as u32 }).collect();
            let mut rng = vcore::rng::Rng::new(split, 7, 0);
            for i in 0..r {
                if split != 0 {
                    // suspended a second time, some stores later
                    segs[i].steps = s0 + rng.below((stride * r as u32) as u64) as u32;
                    segs.push(Seg { tid: r as u8, steps: 1 + rng.below(150) as u32 });
                    segs.push(Seg { tid: i as u8, steps: 1 + rng.below(16) as u32 });
                }
            }
            segs.push(Seg { tid: r as u8, steps: tf::WHOLE });
            segs
        };
        // A reader that is suspended while it holds the lock stops the writer for good: such
        // schedules are of no use here.
        while split != 0 {
            let pid = libc::fork();
            if pid == 0 {
                let t = libc::itimerval { it_interval: std::mem::zeroed(), it_value: libc::timeval { tv_sec: 0, tv_usec: 700_000 } };
                libc::setitimer(libc::ITIMER_REAL, &t, std::ptr::null_mut());
                tf::arm_timer();
                WRITES = 20_000;
                tf::run(r + 1, body, &plan(split), 100, 0, 10_000_000, false);
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if libc::WIFEXITED(st) {
                break;
            }
            split += 1000;
            if split > 100_000 {
                println!("no usable schedule");
                std::process::exit(3);
            }
        }
        let segs = plan(split);
        let at: Vec<u32> = segs[..r].iter().map(|s| s.steps).collect();
        let rep = tf::run(r + 1, body, &segs, 100, 0, 10_000_000, false);
        let (mut bad, mut inside) = (false, 0);
        if rep.outcome != Outcome::Done {
            println!("FAIL index=0 wrap ## no progress: {:?}", rep.outcome);
            bad = true;
        }
        for i in 0..r {
            let v = RES[i][0];
            let w = v & 0xffff_ffff;
            inside += (rep.steps[i] > at[i] as u64 + 2) as u64;
            if !bad && (RES[i][1] != 1 || v != w * 0x1_0000_0001_0000_0001_0000_0001u128) {
                println!("FAIL index={i} wrap steps={r} stride={stride} split={split} writes={} ## load suspended after {} instructions during {} stores returns {v:#x}, which nobody stored", WRITES, at[i], WRITES);
                bad = true;
            }
        }
        failed = bad;
        println!("STAT cases={r} distinct={inside} stores={}", WRITES);
    }
    std::process::exit(failed as i32);
}
