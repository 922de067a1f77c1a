//! Orderings that must panic, and those that must not. seed= stream= from= count= types= | show= | replay='ord ...'
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::op::*;
use vcore::ord::*;
use vhost::*;
#[repr(align(64))]
struct Mem([u8; 64]);
fn one(c: &Case, m: &mut Mem, after: &Op) -> Option<String> {
    let sz = c.ty.size();
    let p = m.0.as_mut_ptr().wrapping_add(16);
    unsafe {
        m.0.fill(0x3c);
        poke(p, sz, c.init);
        let r = catch_unwind(AssertUnwindSafe(|| run(c, p)));
        let now = peek(p, sz);
        match (r, c.bad) {
            (Ok(r), true) => return Some(format!("does not panic (returns {r:?}, leaves {now:#x})")),
            (Err(_), false) => return Some("panics although the orderings are allowed".into()),
            (Err(_), true) if now != c.init => return Some(format!("panics, but has changed the value to {now:#x}")),
            _ => {}
        }
        // it still works
        let cur = now;
        let r = vcore::real::apply(c.ty, p, after);
        let fin = peek(p, sz);
        match step(c.ty, cur, after, r) {
            Some(e) if meets(c.ty, e, fin) => {}
            _ => return Some(format!("afterwards {after:?} on {cur:#x} gives {r:?} and leaves {fin:#x}")),
        }
        if m.0[..16].iter().chain(&m.0[16 + sz..]).any(|b| *b != 0x3c) {
            return Some("a byte next to the variable changed".into());
        }
        None
    }
}
fn main() {
    let a = Args::get();
    install_crash_handler();
    std::panic::set_hook(Box::new(|_| ()));
    let mut m = Mem([0; 64]);
    let tys = a.tys(Ty::ALL);
    let (seed, stream) = (a.u("seed", 1), a.u("stream", 0));
    let go = |c: &Case, i: u64, m: &mut Mem| {
        tick(i);
        unsafe { libc::alarm(20) };
        let mut r = vcore::rng::Rng::new(seed, stream ^ 0x55, i);
        let after = gen_op(&mut r, c.ty, c.init, c.ty.conc_ops());
        one(c, m, &after)
    };
    if a.s("replay").is_some() {
        let s = std::env::args().find(|x| x.starts_with("replay=")).unwrap();
        let c = parse(&s["replay=".len()..]).expect("case");
        for i in 0..20 {
            if let Some(d) = go(&c, i, &mut m) {
                println!("FAIL {c:?} ## {d}");
                std::process::exit(1);
            }
        }
        println!("PASS");
        return;
    }
    let (mut n, mut must, mut kinds) = (0u64, 0u64, 0u64);
    let mut k = Kinds([0; 128]);
    for i in a.u("from", 0)..a.u("from", 0) + a.u("count", 1000) {
        let c = gen(seed, stream, i, &tys);
        if a.s("loud").is_some() {
            println!("AT {i} {c:?}");
        }
        if let Some(d) = go(&c, i, &mut m) {
            println!("FAIL index={i} {c:?} ## {} {:?}: {d}", c.ty.name(), c.op);
            std::process::exit(1);
        }
        n += 1;
        if c.bad {
            must += 1;
            kinds += k.add(&c) as u64;
        }
        if i % 4999 == 7 {
            println!("SAMPLE {c:?} {}", if c.bad { "panicked" } else { "did not panic" });
        }
    }
    println!("STAT cases={n} distinct={kinds} must_panic={must}");
}
