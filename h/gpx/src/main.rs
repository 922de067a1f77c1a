//! seed= from= count= first= progs= [loud=1]
#![no_std]
#![no_main]
#[path = "../../gp/lib.rs"]
mod gp;
use vcross::*;
entry!(main);
fn main() {
    let a = Args(input());
    model(&a);
    let mut o = OUT;
    let ok = gp::drive(a.u("seed", 1), a.u("from", 0), a.u("count", 1), a.u("first", 0) as usize, a.u("progs", 1 << 20) as usize, a.s("loud").is_some(), &mut o, &mut |_| OUT.flush());
    exit(!ok as i32)
}
