//! Lock-freedom reports, one case per process. seed= stream= from=
#![no_std]
#![no_main]
use vcore::{op::Ty, rep::*};
use vcross::*;
entry!(main);
static mut CELL: Cell = Cell([0; 16]);
static mut SEEN: Seen = Seen::NEW;
fn main() {
    let a = Args(input());
    unsafe {
        model(&a);
        let s = &mut *core::ptr::addr_of_mut!(SEEN);
        run(a.u("seed", 1), a.u("stream", 0), a.u("from", 0), 0, &mut *core::ptr::addr_of_mut!(CELL), s);
        for t in Ty::ALL.iter().filter(|t| t.exists()) {
            let (_, _, lf, al) = vcore::real::info(*t);
            s.note(*t, lf, al);
        }
        s.widths();
        for t in [Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::I128] {
            let (_, _, lf, al) = vcore::real::info(t);
            say!("INFO {} {}/{}", t.name(), lf, al);
        }
        if let Some((t, w)) = s.bad {
            say!("FAIL index=0 rep seed={} stream={} from={} ## {}: {}", a.u("seed", 1), a.u("stream", 0), a.u("from", 0), t.name(), w);
            exit(1);
        }
        say!("STAT cases=1 distinct={}", (s.again >= 2) as u8);
    }
}
