//! Linearizability of small histories against the reference model.
use vcore::op::*;

#[derive(Clone, Copy)]
pub struct Ev {
    pub tid: usize,
    pub op: Op,
    pub res: Res,
    pub inv: u64,
    pub ret: u64,
}

/// Is there an order of `evs` (each thread's in its program order) that respects real time, gives every result, and ends with `fin`?
pub fn linearizable(ty: Ty, init: u128, evs: &[Ev], fin: u128) -> bool {
    assert!(evs.len() <= 32);
    let mut seen = std::collections::HashSet::new();
    go(ty, evs, 0, init, fin, &mut seen)
}
fn go(ty: Ty, evs: &[Ev], done: u32, cur: u128, fin: u128, seen: &mut std::collections::HashSet<(u32, u128)>) -> bool {
    if done.count_ones() as usize == evs.len() {
        return cur == fin;
    }
    if !seen.insert((done, cur)) {
        return false;
    }
    // the earliest return among those not done bounds which may come next
    let first_ret = evs.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.ret).min().unwrap();
    for (i, e) in evs.iter().enumerate() {
        if done >> i & 1 != 0 || e.inv > first_ret {
            continue;
        }
        // program order (the clock may stand still within a thread)
        if evs[..i].iter().enumerate().any(|(j, x)| x.tid == e.tid && done >> j & 1 == 0) {
            continue;
        }
        let next: Vec<u128> = match step(ty, cur, &e.op, e.res) {
            Some(Exp::Is(x)) => vec![x],
            // where the stored value is not determined: everything anyone has seen afterwards
            Some(x) => {
                let mut v: Vec<u128> = evs.iter().flat_map(|e| [e.res.v, e.op.a & ty.mask()]).chain([fin, cur]).filter(|v| meets(ty, x, *v)).collect();
                if let Exp::Or(a, b) = x {
                    v.extend([a, b]);
                }
                if let Exp::NanOr(a) = x {
                    v.push(a);
                }
                if matches!(x, Exp::Nan | Exp::NanOr(_)) {
                    // a NaN that was gone before anyone could see which
                    v.push(some_nan(ty));
                }
                v.sort();
                v.dedup();
                v
            }
            None => vec![],
        };
        for n in next {
            if go(ty, evs, done | 1 << i, n, fin, seen) {
                return true;
            }
        }
    }
    false
}
fn some_nan(ty: Ty) -> u128 {
    // all ones is a NaN in every format
    ty.mask()
}
