//! fetch_update with scripted closures. seed= stream= from= count= types= [drop=1,2,..]
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::fu::*;
use vcore::op::Ty;
use vhost::*;
#[repr(align(64))]
struct Mem([u8; REGION]);
fn main() {
    let a = Args::get();
    install_crash_handler();
    std::panic::set_hook(Box::new(|_| ()));
    let tys = a.tys(Ty::ALL);
    let drop: Vec<usize> = a.s("drop").map_or(vec![], |s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    let (seed, stream, from) = (a.u("seed", 1), a.u("stream", 0), a.u("from", 0));
    let mut mem = Box::new(Mem([0; REGION]));
    let m = mem.0.as_mut_ptr();
    let mut set = std::collections::HashSet::new();
    let (mut n, mut nt, mut calls, mut retries, mut nested, mut panics) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    for i in from..from + a.u("count", 1000) {
        tick(i);
        unsafe { libc::alarm(10) };
        let c = gen(seed, stream, i, &tys, true, &|k| drop.contains(&k));
        if a.s("show").is_some() {
            println!("CASE {c}");
        }
        let mut x = unsafe { Ctx::new(&c, m) };
        for t in 0..c.top.len() {
            let was = x.panics;
            let r = catch_unwind(AssertUnwindSafe(|| x.update(c.top[t])));
            if r.is_err() && x.panics == was {
                x.err = Some("panics though no closure did");
            } else if r.is_ok() && x.panics != was {
                x.err = Some("a closure's panic is swallowed");
            }
            x.settle(t, m);
            if let Some(e) = x.err {
                println!("FAIL index={i} fu ## {}: {e}: {c}", c.ty[0].name());
                std::process::exit(1);
            }
        }
        n += 1;
        if x.retries + x.nested > 0 && x.calls > 4 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            format!("{c}").hash(&mut h);
            nt += set.insert(h.finish()) as u64;
        }
        calls += x.calls;
        retries += x.retries;
        nested += x.nested;
        panics += x.panics;
        if i == from + 3 {
            println!("SAMPLE {c}");
        }
    }
    println!("STAT cases={n} distinct={nt} closure_calls={calls} retries={retries} nested={nested} panics={panics}");
}
