//! seed= stream= from= count= types= mode=value|foot samples=   |   replay='case ...'
use vcore::op::Ty;
use vcore::seq;
use vhost::*;
fn main() {
    let a = Args::get();
    install_crash_handler();
    let foot = a.s("mode") == Some("foot");
    unsafe {
        let n = 4096;
        let p = libc::mmap(std::ptr::null_mut(), 3 * n, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        assert!(p as isize != -1 && libc::mprotect(p.add(n) as *mut _, n, libc::PROT_READ | libc::PROT_WRITE) == 0);
        seq::PAGES = (p.add(n), p.add(2 * n));
    }
    if let Some(r) = a.s("replay") {
        let r = if a.s("replay2").is_some() { r } else { r };
        let c = seq::parse(&std::env::args().find(|x| x.starts_with("replay=")).unwrap()["replay=".len()..]).unwrap_or_else(|| panic!("bad case {r}"));
        let mut st = Default::default();
        match seq::run(&c, &mut st) {
            Ok(()) => println!("PASS"),
            Err(f) => {
                print!("FAIL ");
                seq::describe(&mut Out, &c, &f);
                println!();
                std::process::exit(1)
            }
        }
        return;
    }
    let tys = a.tys(Ty::ALL);
    let (seed, stream) = (a.u("seed", 1), a.u("stream", 0));
    if let Some(i) = a.s("show") {
        let i = i.parse().unwrap();
        println!("{}", if foot { seq::gen_foot(seed, stream, i, &tys) } else { seq::gen_case(seed, stream, i, &tys, true) });
        return;
    }
    let mut seen = Box::new(seq::Seen::new());
    let bad = seq::drive(&mut Out, seed, stream, a.u("from", 0), a.u("count", 1000), &tys, foot, a.u("samples", 0), &mut seen, Some(&tick));
    std::process::exit(bad as i32);
}
