//! Generated sequences of lock-freedom queries mixed with operations, in a fresh process (C09, C15).
use crate::op::*;
use crate::real;
use crate::rng::Rng;

/// What one thread has seen: per type, the reports so far (0 none, 1 false, 2 true).
#[derive(Clone, Copy)]
pub struct Seen {
    pub lf: [u8; 20],
    pub always: [u8; 20],
    pub again: u32,
    pub bad: Option<(Ty, &'static str)>,
}
impl Seen {
    pub const NEW: Seen = Seen { lf: [0; 20], always: [0; 20], again: 0, bad: None };
    pub fn note(&mut self, t: Ty, lf: bool, al: bool) {
        let i = t as usize;
        for (slot, v, what) in [(&mut self.lf[i], lf, "is_lock_free() changed"), (&mut self.always[i], al, "is_always_lock_free() changed")] {
            let v = 1 + v as u8;
            if *slot != 0 && *slot != v {
                self.bad = Some((t, what));
            }
            *slot = v;
        }
        if al && !lf {
            self.bad = Some((t, "is_always_lock_free() but not is_lock_free()"));
        }
    }
    pub fn merge(&mut self, o: &Seen) {
        for t in Ty::ALL.iter().filter(|t| t.exists()) {
            let i = *t as usize;
            if o.lf[i] != 0 {
                self.note(*t, o.lf[i] == 2, o.always[i] == 2);
            }
        }
        self.again += o.again;
        self.bad = self.bad.or(o.bad);
    }
    /// Types of one width must agree (bool and pointers go by their width, too).
    pub fn widths(&mut self) {
        for a in Ty::ALL.iter().filter(|t| t.exists()) {
            for b in Ty::ALL.iter().filter(|t| t.exists()) {
                let (i, j) = (*a as usize, *b as usize);
                if a.bits() == b.bits() && self.lf[i] != 0 && self.lf[j] != 0 && (self.lf[i] != self.lf[j] || self.always[i] != self.always[j]) {
                    self.bad = Some((*b, "reports differ from another type of the same width"));
                }
            }
        }
    }
}
#[repr(align(16))]
pub struct Cell(pub [u8; 16]);
/// The actions of thread `tid` of case `index`.
pub fn run(seed: u64, stream: u64, index: u64, tid: u64, cell: &mut Cell, s: &mut Seen) {
    let mut r = Rng::new(seed, stream, index * 8 + tid);
    let wide = [Ty::I128, Ty::U128, Ty::U64, Ty::I64, if HAS_F128 { Ty::F128 } else { Ty::F64 }];
    let mut opd = 0u32;
    for _ in 0..4 + r.below(20) {
        let t = if r.chance(2, 3) { r.pick(&wide) } else { r.pick(Ty::ALL) };
        if !t.exists() {
            continue;
        }
        if r.chance(1, 4) {
            let op = gen_op(&mut r, t, 0, t.conc_ops());
            if t == Ty::Bool {
                cell.0 = [0; 16];
            }
            unsafe { real::apply(t, cell.0.as_mut_ptr(), &op) };
            opd += 1;
        } else {
            let (_, _, lf, al) = real::info(t);
            s.again += (s.lf[t as usize] != 0 && opd > 0) as u32;
            s.note(t, lf, al);
        }
    }
}
