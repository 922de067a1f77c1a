//! Generates the cases the program in h/miri runs under Miri, and judges what it printed.
//! gen  seed= stream= from= count= types= modes= bits= be=0|1   cases on stdout; STAT and SAMPLE lines on stderr
//! judge … res=FILE                                            FAIL/LAST/STAT lines
//! text … (from=, count=1)                                     the case as text
use std::collections::{HashMap, HashSet};
use std::io::Write;
use vcore::mir::{self, Head, OpR, ResR};
use vcore::op::*;
use vcore::rng::Rng;

struct Case {
    kind: u8,
    tys: Vec<Ty>,
    init: Vec<u128>,
    th: Vec<Vec<(usize, Op)>>,
    flags: u8,
    one: bool,
    rounds: u8,
    off: Vec<u8>,
    room: Vec<u8>,
}
struct Par {
    seed: u64,
    stream: u64,
    tys: Vec<Ty>,
    kinds: Vec<u8>,
    be: bool,
    rounds: u8,
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let m: HashMap<String, String> = a[1..].iter().filter_map(|x| x.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
    let u = |k: &str, d: u64| m.get(k).map_or(d, |x| x.parse().unwrap());
    PTR_BITS.store(u("bits", 64) as u32, std::sync::atomic::Ordering::Relaxed);
    let p = Par {
        seed: u("seed", 1),
        stream: u("stream", 0),
        tys: m.get("types").map_or("Bool,Ptr1,I8,U16,I32,U64,U128", |x| x).split(',').map(|t| Ty::parse(t).unwrap()).collect(),
        kinds: m.get("modes").map_or("seq,sc,lit,coh,pass", |x| x).split(',').map(|k| mir::KINDS.iter().position(|x| *x == k).unwrap() as u8).collect(),
        be: u("be", 0) == 1,
        rounds: u("rounds", 8) as u8,
    };
    let (from, count, times) = (u("from", 0), u("count", 10), u("times", 1));
    match a[0].as_str() {
        "gen" => {
            let mut out = vec![];
            let mut seen = HashSet::new();
            for i in from..from + count {
                let c = make(&p, i);
                if nontrivial(&c) {
                    seen.insert(text(&c));
                }
                for _ in 0..times {
                    put(&c, i, p.be, &mut out);
                }
            }
            std::io::stdout().write_all(&out).unwrap();
            eprintln!("STAT cases={} distinct={}", count * times, seen.len());
            eprintln!("SAMPLE {}", text(&make(&p, from)));
        }
        "text" => println!("TEXT {}", text(&make(&p, from))),
        "judge" => judge(&p, &std::fs::read(&m["res"]).unwrap()),
        x => panic!("{x}"),
    }
}
fn nontrivial(c: &Case) -> bool {
    if c.kind == mir::SEQ || c.kind == mir::PASS {
        return true;
    }
    let w = |t: usize, v: usize| c.th[t].iter().any(|x| x.0 == v && x.1.k != K::Load);
    (0..c.tys.len()).any(|v| (0..c.th.len()).any(|a| w(a, v) && (0..c.th.len()).any(|b| b != a && c.th[b].iter().any(|x| x.0 == v))))
}
fn text(c: &Case) -> String {
    format!(
        "{}{}{} x{} {}: {}",
        mir::KINDS[c.kind as usize],
        if c.flags & 1 != 0 { " fences" } else { "" },
        if c.flags & 2 != 0 { " relay" } else { "" },
        c.rounds,
        c.tys.iter().enumerate().map(|(i, t)| format!("{} {:#x} at {}/{}", t.name(), c.init[i], c.off[i], c.room[i])).collect::<Vec<_>>().join(", "),
        c.th.iter().map(|t| t.iter().map(|(v, o)| format!("{v}:{o:?}")).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join(" || ")
    )
}
fn bytes<T>(x: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) }
}
fn put(c: &Case, index: u64, be: bool, out: &mut Vec<u8>) {
    let s = |v: u128| if be { v.swap_bytes() } else { v };
    let mut h = Head { kind: c.kind, nv: c.tys.len() as u8, nt: c.th.len() as u8, flags: c.flags, one: c.one as u8, rounds: c.rounds, index: if be { index.swap_bytes() } else { index }, ..Head::default() };
    for v in 0..c.tys.len() {
        h.ty[v] = c.tys[v] as u8;
        h.off[v] = c.off[v];
        h.room[v] = c.room[v];
        h.init[v] = s(c.init[v]);
    }
    for t in 0..c.th.len() {
        h.n[t] = c.th[t].len() as u8;
    }
    out.extend_from_slice(bytes(&h));
    for (v, o) in c.th.iter().flatten() {
        out.extend_from_slice(bytes(&OpR { a: s(o.a), b: s(o.b), var: *v as u8, k: o.k as u8, o: o.o, f: o.f, pad: [0; 12] }));
    }
}
fn make(p: &Par, i: u64) -> Case {
    let mut r = Rng::new(p.seed, p.stream, i);
    let r = &mut r;
    let mut kind = r.pick(&p.kinds);
    let mut c = match kind {
        mir::SEQ => seq(p, r),
        mir::PASS => pass(p, r),
        mir::LIT => {
            kind = mir::SC;
            litmus(p, r)
        }
        k => history(p, r, k),
    };
    c.kind = kind;
    place(&mut c, r);
    if kind != mir::SEQ {
        c.rounds = p.rounds;
    }
    c
}
/// Memory of exactly the variable's size, among bytes that are not initialised, or all variables in one allocation.
fn place(c: &mut Case, r: &mut Rng) {
    c.one = c.tys.len() > 1 && r.chance(1, 2);
    let mut o = 0;
    for t in &c.tys {
        let n = t.size();
        if c.one {
            o = (o + n - 1) / n * n;
            c.off.push(o as u8);
            c.room.push(64);
            o += n;
        } else if r.chance(1, 2) {
            c.off.push(0);
            c.room.push(n as u8);
        } else {
            c.off.push((r.below((64 / n) as u64) as usize * n) as u8);
            c.room.push(64);
        }
    }
}
fn blank(tys: Vec<Ty>, init: Vec<u128>, th: Vec<Vec<(usize, Op)>>) -> Case {
    Case { kind: 0, tys, init, th, flags: 0, one: false, rounds: 1, off: vec![], room: vec![] }
}
fn ops(ty: Ty) -> Vec<K> {
    let no = ty == Ty::F16 || ty == Ty::F128;
    ty.ops().iter().copied().filter(|k| !no || !matches!(k, K::FAdd | K::FSub | K::FMax | K::FMin)).collect()
}
fn conc(ty: Ty) -> Vec<K> {
    ty.conc_ops().iter().copied().filter(|k| ty.class() != Class::Float || matches!(k, K::Load | K::Store | K::Swap | K::Cas | K::CasW | K::Upd | K::FNeg | K::FAbs)).collect()
}
fn seq(p: &Par, r: &mut Rng) -> Case {
    let ty = r.pick(&p.tys);
    let v0 = gen_val(r, ty, 0);
    let ks = ops(ty);
    let mut cur = v0;
    let mut th = vec![];
    for _ in 0..3 + r.below(8) {
        let op = gen_op(r, ty, cur, &ks);
        cur = vcore::seq::predict(ty, cur, &op);
        th.push((0, op));
    }
    blank(vec![ty], vec![v0], vec![th])
}
fn history(p: &Par, r: &mut Rng, kind: u8) -> Case {
    let sc = kind == mir::SC;
    let nv = if sc { 2 } else { 1 + r.below(2) as usize };
    let tys: Vec<Ty> = (0..nv).map(|_| r.pick(&p.tys)).collect();
    let v0: Vec<u128> = tys.iter().map(|t| if r.chance(1, 2) { 0 } else { gen_val(r, *t, 0) }).collect();
    let nt = 2 + r.chance(1, 3) as usize;
    let th = (0..nt)
        .map(|_| {
            (0..1 + r.below(if sc { 3 } else { 4 }))
                .map(|_| {
                    let v = r.below(nv as u64) as usize;
                    let ks = conc(tys[v]);
                    // loads and stores show reorderings best
                    let k = if r.chance(1, 2) { r.pick(&[K::Load, K::Store]) } else { r.pick(&ks) };
                    let mut op = gen_op(r, tys[v], v0[v], &[k]);
                    if sc {
                        all_sc(&mut op);
                    }
                    (v, op)
                })
                .collect()
        })
        .collect();
    blank(tys, v0, th)
}
fn all_sc(op: &mut Op) {
    op.o = SC;
    if op.k.has_fail_order() {
        op.f = SC;
    }
}
/// Shapes in which the order of two SeqCst operations on different variables shows.
fn litmus(p: &Par, r: &mut Rng) -> Case {
    let tys = vec![r.pick(&p.tys), r.pick(&p.tys)];
    let w = |r: &mut Rng, v: usize| -> (usize, Op) {
        let ks: Vec<K> = conc(tys[v]).into_iter().filter(|k| !matches!(k, K::Load)).collect();
        let k = if r.chance(1, 2) { K::Store } else { r.pick(&ks) };
        let mut op = gen_op(r, tys[v], 0, &[k]);
        if op.a == 0 && !op.k.is_cas() && !matches!(k, K::BitSet | K::BitClear | K::BitToggle) {
            op.a = 1;
        }
        if op.k.is_cas() {
            op.a = 0;
            op.b = op.b.max(1);
        }
        if op.k == K::Upd {
            op.b = 3;
        }
        all_sc(&mut op);
        (v, op)
    };
    let l = |r: &mut Rng, v: usize| -> (usize, Op) {
        let k = if r.chance(3, 4) { K::Load } else { r.pick(&[K::Cas, K::CasW, K::Upd]) };
        // compare-exchanges that fail, closures that decline
        let mut op = Op { k, o: SC, f: SC, a: 0, b: 0 };
        if k.is_cas() {
            op.a = tys[v].mask() ^ (tys[v].mask() >> 1 & 2);
            op.b = op.a;
            if tys[v] == Ty::Bool {
                op.k = K::Load;
            }
        }
        if op.k == K::Load {
            op.f = 0;
            op.a = 0;
        }
        (v, op)
    };
    let th = match r.below(6) {
        0..=3 => vec![vec![w(r, 0), l(r, 1)], vec![w(r, 1), l(r, 0)]],
        4 => vec![vec![w(r, 0)], vec![w(r, 1)], vec![l(r, 0), l(r, 1)], vec![l(r, 1), l(r, 0)]],
        _ => vec![vec![w(r, 0), w(r, 1)], vec![w(r, 1), l(r, 0)]],
    };
    blank(tys.clone(), vec![0, 0], th)
}
/// Thread 0 writes data (its second and third operation) and sets bit 0 of a variable (the first); thread 1, having
/// seen the bit, looks at the data if the orderings say it may. Thread 2, if any, is between them.
fn pass(p: &Par, r: &mut Rng) -> Case {
    let ty = r.pick(&p.tys);
    let class = ty.class();
    let dty = r.pick(&p.tys);
    let fence = r.chance(1, 5);
    let set = match class {
        Class::Int => vec![K::Store, K::Swap, K::Cas, K::Upd, K::FAdd, K::Add, K::FXor, K::Xor, K::FOr, K::Or, K::BitSet, K::BitToggle, K::FMax],
        Class::Ptr => vec![K::Store, K::Swap, K::Cas, K::Upd, K::ByteAdd, K::FXor, K::FOr, K::BitSet],
        Class::Bool => vec![K::Store, K::Swap, K::Cas, K::Upd, K::FOr, K::Or, K::FXor, K::FNot, K::Not],
        Class::Float => vec![K::Store, K::Swap, K::Cas, K::Upd],
    };
    let see = match class {
        Class::Int => vec![K::Load, K::Load, K::Swap, K::Cas, K::CasW, K::Upd, K::FAdd, K::FXor, K::FOr, K::FAnd, K::FMax, K::FMin, K::BitSet, K::BitClear, K::FNot, K::FNeg],
        Class::Ptr => vec![K::Load, K::Load, K::Swap, K::Cas, K::CasW, K::Upd, K::ByteAdd, K::FXor, K::FOr, K::FAnd, K::BitClear],
        Class::Bool => vec![K::Load, K::Load, K::Swap, K::Cas, K::CasW, K::Upd, K::FOr, K::FAnd, K::FNot, K::FXor],
        Class::Float => vec![K::Load, K::Load, K::Swap, K::Cas, K::CasW, K::Upd, K::FNeg, K::FAbs],
    };
    let relay = class == Class::Int && r.chance(1, 3);
    let k = r.pick(&set);
    let mut w = Op { k, o: 0, f: 0, a: 1, b: 1 };
    w.o = if fence { RLX } else if k == K::Store { r.pick(&[REL, SC]) } else { r.pick(&[REL, AR, SC]) };
    match k {
        K::Cas => w.a = 0,
        K::BitSet | K::BitToggle => w.a = 0,
        K::Upd => w.b = 3,
        _ => {}
    }
    if k.has_fail_order() {
        w.f = r.pick(&[RLX, ACQ, SC]);
    }
    let reads = (0..1 + r.below(3))
        .map(|_| {
            let k = r.pick(&see);
            let mut op = gen_op(r, ty, 1, &[k]);
            match k {
                // bit 0 stays what it is
                K::FAdd | K::ByteAdd | K::FXor | K::FOr => op.a = if ty == Ty::Bool { 0 } else { 4 },
                K::BitSet | K::BitClear => op.a = 0,
                K::Upd => op.b = r.below(2) as u128 * 3,
                _ => {}
            }
            if fence {
                (op.o, op.f) = (RLX, RLX);
            } else if r.chance(4, 5) {
                op.o = if k == K::Load { r.pick(&[ACQ, SC]) } else { r.pick(&[ACQ, AR, SC, RLX, REL]) };
                if k.has_fail_order() {
                    op.f = r.pick(&[ACQ, SC]);
                }
            }
            (0, op)
        })
        .collect();
    let mid = Op { k: r.pick(&[K::FXor, K::FOr, K::FAdd, K::Or, K::Xor, K::Add, K::Upd]), o: r.pick(&[RLX, ACQ, REL]), f: 0, a: 2, b: 3 };
    let put = Op { k: K::Store, o: RLX, f: 0, a: gen_val(r, dty, 0), b: 0 };
    let look = Op { k: K::Load, o: RLX, f: 0, a: 0, b: 0 };
    let mut th = vec![vec![(0, w), (1, put), (1, look)], reads];
    if relay {
        th.push(vec![(0, mid)]);
    }
    let mut c = blank(vec![ty, dty], vec![0, 0], th);
    c.flags = fence as u8 | (relay as u8) << 1;
    c
}

// ---- judge
type Ev = (usize, Op, Res);
struct Search<'a> {
    ths: &'a [Vec<Ev>],
    tys: &'a [Ty],
    fin: &'a [u128],
    only: Option<usize>,
    budget: u32,
    seen: HashSet<(Vec<usize>, Vec<u128>)>,
}
/// One order of all operations that respects each thread's order and explains every result.
fn explain(s: &mut Search, pos: &mut Vec<usize>, cur: &mut Vec<u128>) -> bool {
    if s.budget == 0 {
        return true;
    }
    s.budget -= 1;
    for t in 0..s.ths.len() {
        while pos[t] < s.ths[t].len() && s.only.is_some_and(|o| s.ths[t][pos[t]].0 != o) {
            pos[t] += 1;
        }
    }
    if (0..s.ths.len()).all(|t| pos[t] == s.ths[t].len()) {
        return (0..s.tys.len()).all(|v| s.only.is_some_and(|o| o != v) || cur[v] == s.fin[v]);
    }
    if !s.seen.insert((pos.clone(), cur.clone())) {
        return false;
    }
    for t in 0..s.ths.len() {
        if pos[t] == s.ths[t].len() {
            continue;
        }
        let (v, op, res) = &s.ths[t][pos[t]];
        if let Some(Exp::Is(n)) = step(s.tys[*v], cur[*v], op, *res) {
            let (sp, sc) = (pos.clone(), cur[*v]);
            pos[t] += 1;
            cur[*v] = n;
            if explain(s, pos, cur) {
                return true;
            }
            *pos = sp;
            cur[*v] = sc;
        }
    }
    false
}
fn rk(x: u8) -> Rk {
    [Rk::Unit, Rk::Val, Rk::Ok, Rk::Err, Rk::Bit][x as usize]
}
fn judge(p: &Par, data: &[u8]) {
    let sz = std::mem::size_of::<ResR>();
    let recs: Vec<ResR> = data
        .chunks_exact(sz)
        .map(|b| {
            let mut x = ResR::default();
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), &mut x as *mut ResR as *mut u8, sz) };
            if p.be {
                (x.v, x.now) = (x.v.swap_bytes(), x.now.swap_bytes());
            }
            x
        })
        .collect();
    let (mut n, mut open, mut last, mut ended) = (0, 0, None, false);
    let mut i = 0;
    while i < recs.len() {
        if recs[i].k == mir::END {
            ended = true;
            i += 1;
            continue;
        }
        assert!(recs[i].k == mir::START, "record {i}: {:#x}", recs[i].k);
        let index = recs[i].v as u64;
        i += 1;
        let at = i;
        while i < recs.len() && recs[i].k < 0xf0 || i < recs.len() && matches!(recs[i].k, mir::BAD | mir::FINAL) {
            i += 1;
        }
        let c = make(p, index);
        let rs = &recs[at..i];
        let nops: usize = if c.kind == mir::PASS { 0 } else { c.th.iter().map(|t| t.len()).sum() };
        let bad = rs.iter().find(|x| x.k == mir::BAD);
        let want = c.rounds as usize * (nops + if matches!(c.kind, mir::SC | mir::COH) { c.tys.len() } else { 0 });
        if bad.is_none() && rs.len() < want {
            last = Some(index);
            continue;
        }
        n += 1;
        if let Some(d) = verdict(&c, rs, &mut open) {
            println!("FAIL index={index} {} ## {d}", text(&c));
            return;
        }
    }
    if let (Some(l), false) = (last, ended) {
        println!("LAST index={l} {}", text(&make(p, l)));
    }
    println!("STAT cases={n} undecided={open} ended={}", ended as u8);
}
fn verdict(c: &Case, rs: &[ResR], open: &mut u64) -> Option<String> {
    if let Some(b) = rs.iter().find(|x| x.k == mir::BAD) {
        return Some(format!("the bit is seen but the data are {} and {:#x}, not 7 and {:#x}", b.v, b.now, c.th[0][1].1.a));
    }
    match c.kind {
        mir::SEQ => {
            let ty = c.tys[0];
            let mut cur = c.init[0];
            for (i, ((_, op), x)) in c.th[0].iter().zip(rs).enumerate() {
                let q = Res { k: rk(x.k), v: x.v };
                match step(ty, cur, op, q) {
                    None => return Some(format!("operation {} on {:#x} returned {:?}", i + 1, cur, q)),
                    Some(e) if !meets(ty, e, x.now) => return Some(format!("operation {} on {:#x} returned {:?} and left {:#x}, not {:?}", i + 1, cur, q, x.now, e)),
                    _ => {}
                }
                cur = x.now;
            }
            None
        }
        mir::PASS => None,
        _ => {
            let n = c.rounds as usize;
            let mut ths: Vec<Vec<Vec<Ev>>> = vec![vec![vec![]; c.th.len()]; n];
            let mut fin: Vec<u128> = vec![];
            let mut done = vec![0; c.th.len()];
            for x in rs {
                if x.k == mir::FINAL {
                    fin.push(x.v);
                } else {
                    let t = x.thread as usize;
                    let (round, i) = (done[t] / c.th[t].len(), done[t] % c.th[t].len());
                    done[t] += 1;
                    let (v, op) = c.th[t][i];
                    ths[round][t].push((v, op, Res { k: rk(x.k), v: x.v }));
                }
            }
            let sc = c.kind == mir::SC;
            let all: Vec<Option<usize>> = if sc { vec![None] } else { (0..c.tys.len()).map(Some).collect() };
            for (ths, fin) in ths.iter().zip(fin.chunks(c.tys.len())) {
                for only in &all {
                    let mut s = Search { ths, tys: &c.tys, fin, only: *only, budget: 300_000, seen: HashSet::new() };
                    let good = explain(&mut s, &mut vec![0; ths.len()], &mut c.init.clone());
                    if s.budget == 0 {
                        *open += 1;
                    } else if !good {
                        let what = if sc { "no order of these SeqCst operations explains" } else { "no order of the operations on one variable explains" };
                        return Some(format!("{what} {} final {:x?}", ths.iter().map(|t| t.iter().map(|(v, o, q)| format!("{v}:{} -> {q:?}", o.k.name())).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join(" || "), fin));
                    }
                }
            }
            None
        }
    }
}
