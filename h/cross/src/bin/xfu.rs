//! fetch_update with scripted closures (none that panic). seed= stream= from= count= types= [drop=1,2,..]
#![no_std]
#![no_main]
use core::ptr::addr_of_mut;
use vcore::fu::*;
use vcore::op::Ty;
use vcross::*;
entry!(main);
#[repr(align(64))]
struct Mem([u8; REGION]);
static mut MEM: Mem = Mem([0; REGION]);
static mut TYS: [Ty; 32] = [Ty::Bool; 32];
fn main() {
    let a = Args(input());
    unsafe {
        model(&a);
        let tys = a.tys(&mut *addr_of_mut!(TYS));
        let drop = a.s("drop").unwrap_or("");
        let from = a.u("from", 0);
        let m = addr_of_mut!(MEM) as *mut u8;
        let (mut n, mut nt, mut calls, mut retries, mut nested) = (0u64, 0u64, 0u64, 0u64, 0u64);
        for i in from..from + a.u("count", 1000) {
            if a.s("loud").is_some() {
                say!("AT {}", i);
                OUT.flush();
            }
            if i % 16 == 0 {
                alarm(60);
            }
            let c = gen(a.u("seed", 1), a.u("stream", 0), i, tys, false, &|k| drop.split(',').any(|x| x.parse() == Ok(k)));
            let mut x = Ctx::new(&c, m);
            for t in 0..c.top.len() {
                x.update(c.top[t]);
                x.settle(t, m);
                if let Some(e) = x.err {
                    say!("FAIL index={} fu ## {}: {}: {}", i, c.ty[0].name(), e, c);
                    exit(1);
                }
            }
            n += 1;
            nt += (x.retries + x.nested > 0 && x.calls > 4) as u64;
            calls += x.calls;
            retries += x.retries;
            nested += x.nested;
            if i == from + 3 {
                say!("SAMPLE {}", c);
            }
        }
        say!("STAT cases={} distinct={} closure_calls={} retries={} nested={}", n, nt, calls, retries, nested);
    }
}
