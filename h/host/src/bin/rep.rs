//! Lock-freedom reports in fresh processes. seed= stream= from= count= | replay='rep seed stream index'
use std::ptr::addr_of_mut;
use vcore::op::Ty;
use vcore::rep::*;
use vcore::rng::Rng;
use vhost::*;
const NT: usize = 3;
static mut CELLS: [Cell; NT] = [Cell([0; 16]), Cell([0; 16]), Cell([0; 16])];
static mut SEEN: [Seen; NT] = [Seen::NEW; NT];
static mut ID: (u64, u64, u64) = (0, 0, 0);
fn body(t: usize) {
    unsafe { run(ID.0, ID.1, ID.2, t as u64, &mut *addr_of_mut!(CELLS[t]), &mut *addr_of_mut!(SEEN[t])) }
}
/// In this process: None or what is wrong; how many queries came after an operation.
fn one(seed: u64, stream: u64, i: u64) -> (Option<String>, u32) {
    unsafe {
        ID = (seed, stream, i);
        let mut r = Rng::new(seed, stream, i * 8 + 7);
        let nt = 1 + r.below(NT as u64) as usize;
        #[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
        {
            use vhost::tf::*;
            let mut segs = vec![];
            for _ in 0..r.below(30) {
                segs.push(Seg { tid: r.below(nt as u64) as u8, steps: 1 + r.below(400) as u32 });
            }
            arm_timer();
            let rep = vhost::tf::run(nt, body, &segs, 20 + r.below(200) as u32, 0, 2_000_000, false);
            if rep.outcome != Outcome::Done {
                return (Some(format!("no progress {:?}", rep.outcome)), 0);
            }
        }
        #[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
        {
            let h: Vec<_> = (0..nt).map(|t| std::thread::spawn(move || body(t))).collect();
            h.into_iter().for_each(|h| h.join().unwrap());
        }
        let mut all = Seen::NEW;
        for t in 0..nt {
            let s = SEEN[t];
            all.merge(&s);
        }
        for t in Ty::ALL.iter().filter(|t| t.exists()) {
            let (_, _, lf, al) = vcore::real::info(*t);
            all.note(*t, lf, al);
        }
        all.widths();
        (all.bad.map(|(t, w)| format!("{}: {w}", t.name())), all.again)
    }
}
fn forked(seed: u64, stream: u64, i: u64) -> (Option<String>, u32) {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        if pid == 0 {
            let (f, n) = one(seed, stream, i);
            let s = format!("{n} {}", f.unwrap_or_default());
            libc::write(fds[1], s.as_ptr().cast(), s.len());
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut b = [0u8; 512];
        let n = libc::read(fds[0], b.as_mut_ptr().cast(), 512).max(0) as usize;
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let s = String::from_utf8_lossy(&b[..n]).to_string();
        if st != 0 {
            return (Some(format!("the program dies (status {st:#x})")), 0);
        }
        let (n, f) = s.split_once(' ').unwrap();
        ((!f.is_empty()).then(|| f.to_string()), n.parse().unwrap())
    }
}
fn main() {
    let a = Args::get();
    #[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
    vhost::tf::install();
    if let Some(r) = a.s("replay") {
        let w: Vec<u64> = r.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
        match forked(w[0], w[1], w[2]).0 {
            None => println!("PASS"),
            Some(f) => {
                println!("FAIL {f}");
                std::process::exit(1)
            }
        }
        return;
    }
    let (seed, stream, from, count) = (a.u("seed", 1), a.u("stream", 0), a.u("from", 0), a.u("count", 100));
    let (mut n, mut nt) = (0, 0);
    let mut bad = false;
    for i in from..from + count {
        let (f, again) = forked(seed, stream, i);
        n += 1;
        nt += (again >= 2) as u64;
        if let Some(f) = f {
            println!("FAIL index={i} rep {seed} {stream} {i} ## {f}");
            bad = true;
            break;
        }
    }
    let info: Vec<String> = [Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::I128].iter().map(|t| { let x = vcore::real::info(*t); format!("{}={}/{}", t.name(), x.2, x.3) }).collect();
    println!("INFO reports {}", info.join(" "));
    println!("STAT cases={n} distinct={nt}");
    std::process::exit(bad as i32);
}
