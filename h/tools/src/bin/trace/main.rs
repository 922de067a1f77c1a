//! Runs the `xtr` guest under qemu's instruction log and decides, from the accesses and fences executed by each
//! generated pair of operations, whether the orderings they were asked for are enforced by the architecture's rules.
//! trace arch= bits= bin= qemu=<cmd,arg> objdump= input=<words> [lse2=1] [avx=1] [reqs=order,lock,single,foot] [show=1]
mod dec;
use dec::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};

#[derive(Clone, Debug)]
struct Ev {
    pc: u64,
    act: Act,
    seq: u32,
}
struct Img {
    ins: HashMap<u64, Insn>,
    ranges: Vec<(u64, u64)>,
    lo: u64,
    hi: u64,
}

fn load(objdump: &str, bin: &str, cpu: &Cpu, mcpu: &str) -> Img {
    let b = std::fs::read(bin).expect("read bin");
    let be = b[5] == 2;
    let rd = |o: usize, n: usize| -> u64 {
        let mut v = 0u64;
        for i in 0..n {
            v = v << 8 | b[o + if be { i } else { n - 1 - i }] as u64;
        }
        v
    };
    let (phoff, phsz, phn) = if b[4] == 2 { (rd(32, 8), rd(54, 2), rd(56, 2)) } else { (rd(28, 4), rd(42, 2), rd(44, 2)) };
    let (mut lo, mut hi) = (u64::MAX, 0);
    for i in 0..phn {
        let p = (phoff + i * phsz) as usize;
        if rd(p, 4) != 1 {
            continue;
        }
        let (va, msz) = if b[4] == 2 { (rd(p + 16, 8), rd(p + 40, 8)) } else { (rd(p + 8, 4), rd(p + 20, 4)) };
        lo = lo.min(va);
        hi = hi.max(va + msz);
    }
    let o = Command::new(objdump).args(["-d", "--no-show-raw-insn", "--x86-asm-syntax=intel", &if mcpu.is_empty() { "--mattr=".to_string() } else { format!("--mcpu={mcpu}") }, bin]).output().expect("objdump");
    let t = String::from_utf8_lossy(&o.stdout);
    let mut ins = HashMap::new();
    let mut ranges: Vec<(u64, u64)> = vec![];
    let (mut inc, mut lock): (bool, Option<u64>) = (false, None);
    for l in t.lines() {
        let l = l.trim_start();
        if l.ends_with(">:") {
            let Some((_, n)) = l.split_once('<') else { continue };
            let n = n.trim_end_matches(">:");
            if !n.starts_with(".L") {
                const YES: [&str; 3] = ["trgate", "15portable_atomic", "5vcore4real"];
                const NO: [&str; 8] = ["4core3fmt", "4core3str", "6memchr", "6vcross", "5vcore3rng", "5vcore2op", "5vcore3seq", "3xtr"];
                const WHOLE: [&str; 8] = ["main", "_start", "vstart", "memcpy", "memset", "memmove", "memcmp", "bcmp"];
                let has = |l: &[&str]| l.iter().any(|x| n.contains(x));
                inc = has(&YES) || !has(&NO) && !WHOLE.contains(&n) && !(n.contains("5vcore") && (n.contains("3rng") || n.contains("2op") || n.contains("3seq")));
            }
            continue;
        }
        let Some((a, r)) = l.split_once(':') else { continue };
        let Ok(pc) = u64::from_str_radix(a, 16) else { continue };
        let r = r.trim_start();
        let (mn, ops) = match r.find(char::is_whitespace) {
            Some(k) => (&r[..k], r[k..].trim()),
            None => (r, ""),
        };
        if mn == "lock" && ops.is_empty() {
            lock = Some(pc);
            continue;
        }
        let (mut mn, mut ops) = (mn.to_string(), ops.to_string());
        if mn == "lock" {
            lock = Some(pc);
            let (a, b) = match ops.find(char::is_whitespace) {
                Some(k) => (ops[..k].to_string(), ops[k..].trim().to_string()),
                None => (ops.clone(), String::new()),
            };
            mn = a;
            ops = b;
        }
        if cpu.arch != Arch::X86 {
            if let Some(k) = ops.find(" <") {
                ops.truncate(k);
            }
            if let Some(k) = ops.find(" @") {
                ops.truncate(k);
            }
        }
        let at = lock.unwrap_or(pc);
        ins.insert(at, Insn { mn, ops, lock: lock.is_some() });
        lock = None;
        if inc {
            match ranges.last_mut() {
                Some(x) if x.1 + 16 >= at => x.1 = pc + 16,
                _ => ranges.push((at, pc + 16)),
            }
        }
    }
    Img { ins, ranges, lo, hi }
}

struct Case {
    idx: u64,
    evs: Vec<Ev>,
}
#[derive(Debug, Clone)]
struct OpI {
    ty: String,
    a: u64,
    n: u64,
    k: String,
    o: String,
    f: String,
    ok: bool,
    keep: bool,
    res: String,
    text: String,
}
fn parse_op(s: &str) -> Option<OpI> {
    let w: Vec<&str> = s.split_whitespace().collect();
    let g = |p: &str| w.iter().find_map(|x| x.strip_prefix(p)).unwrap_or("").to_string();
    let res = s.split(" -> ").nth(1)?.to_string();
    Some(OpI { ty: w[0].into(), a: u64::from_str_radix(w[1], 16).ok()?, n: w[2].parse().ok()?, k: w[3].into(), o: g("o="), f: g("f="), ok: !res.starts_with("Err"), keep: g("keep=") == "1", res, text: s.to_string() })
}

/// One access in the order graph.
#[derive(Clone, Copy, Debug)]
struct Nd {
    c: Acc,
    ev: usize,
    pc: u64,
    seq: u32,
}
struct Graph {
    n: usize,
    m: Vec<Vec<u64>>,
    words: usize,
}
impl Graph {
    fn new(n: usize) -> Graph {
        let words = n.div_ceil(64);
        Graph { n, m: vec![vec![0; words]; n], words }
    }
    fn set(&mut self, i: usize, j: usize) {
        self.m[i][j / 64] |= 1 << (j % 64);
    }
    fn has(&self, i: usize, j: usize) -> bool {
        self.m[i][j / 64] >> (j % 64) & 1 == 1
    }
    /// all edges go forward, so one backward pass closes it
    fn close(&mut self) {
        for i in (0..self.n).rev() {
            for j in i + 1..self.n {
                if self.has(i, j) {
                    let (a, b) = self.m.split_at_mut(j);
                    for w in 0..self.words {
                        a[i][w] |= b[0][w];
                    }
                }
            }
        }
    }
}

struct Cfg {
    cpu: Cpu,
    order: bool,
    lock: bool,
    single: bool,
    foot: bool,
    lo: u64,
    hi: u64,
    /// what is_lock_free() said, by type
    free: HashMap<String, bool>,
}
struct Out {
    skipped: bool,
    edges: usize,
    lockmode: bool,
    fails: Vec<String>,
    pic: String,
}

fn over(c: &Acc, a: u64, n: u64) -> bool {
    c.a < a + n && a < c.a + c.n
}

fn judge(cf: &Cfg, cs: &Case, mk: u64, ops: &[OpI; 2]) -> Out {
    let mut out = Out { skipped: false, edges: 0, lockmode: false, fails: vec![], pic: String::new() };
    let img = |a: u64| a >= cf.lo && a < cf.hi;
    let inmk = |a: u64| a >= mk && a < mk + 28;
    let invar = |c: &Acc| ops.iter().any(|o| over(c, o.a & !15, 32.min(o.n + 16) & !15));
    let of = |c: &Acc, o: &OpI| over(c, o.a, o.n);
    // locks: what the sections write by atomic instructions besides the variables (with the word next to it)
    let mut locks: BTreeSet<u64> = BTreeSet::new();
    let mut lw: Vec<(u64, u64)> = vec![];
    for e in &cs.evs {
        if let Act::A(c) = e.act {
            if c.k & W != 0 && (c.amo || c.ex) && img(c.a) && !inmk(c.a) && !invar(&c) && locks.insert(c.a) {
                lw.push((c.a.saturating_sub(c.n), 3 * c.n));
            }
        }
    }
    let islock = |c: &Acc| lw.iter().any(|(a, n)| over(c, *a, *n));
    // nodes: interesting accesses and all fences
    let mut nd: Vec<Nd> = vec![];
    for (x, e) in cs.evs.iter().enumerate() {
        match e.act {
            Act::A(c) => {
                if inmk(c.a) || invar(&c) || islock(&c) || c.full {
                    nd.push(Nd { c, ev: x, pc: e.pc, seq: e.seq });
                }
            }
            Act::Unknown(a) => {
                let c = Acc { k: RW, a: a & !15, n: 32, sca: false, acq: false, rel: false, rcsc: false, amo: false, ex: false, full: false };
                if inmk(a) || invar(&c) || islock(&c) {
                    out.pic = format!("undecoded at {:x}", e.pc);
                    out.skipped = true;
                    return out;
                }
            }
            _ => {}
        }
    }
    if nd.len() > 1500 {
        out.skipped = true;
        return out;
    }
    // graph: accesses, then fences in one program order
    #[derive(Clone, Copy)]
    enum G {
        N(usize),
        F(u8, u8),
        I,
        B,
    }
    let mut g: Vec<G> = vec![];
    {
        let mut k = 0;
        for (x, e) in cs.evs.iter().enumerate() {
            match e.act {
                Act::A(_) => {
                    if k < nd.len() && nd[k].ev == x {
                        g.push(G::N(k));
                        k += 1;
                    }
                }
                Act::F(p, s) => g.push(G::F(p, s)),
                Act::Isync => g.push(G::I),
                Act::Branch => {
                    if !matches!(g.last(), Some(G::B)) {
                        g.push(G::B)
                    }
                }
                Act::Unknown(_) => {}
            }
        }
    }
    let n = g.len();
    let mut gr = Graph::new(n);
    let mut pos = vec![0; nd.len()];
    let arch = cf.cpu.arch;
    let tso = matches!(arch, Arch::X86 | Arch::S390);
    for i in 0..n {
        if let G::N(x) = g[i] {
            pos[x] = i;
        }
    }
    for i in 0..n {
        let mut br = false;
        for j in i + 1..n {
            let e = match (g[i], g[j]) {
                (G::N(x), G::N(y)) => {
                    let (a, b) = (&nd[x].c, &nd[y].c);
                    let one = nd[x].seq == nd[y].seq;
                    if one {
                        // within one instruction: the read part first
                        a.k == R && b.k == W && (a.amo || a.a == b.a)
                    } else if a.full || b.full {
                        true
                    } else if tso {
                        !(a.k == W && b.k == R)
                    } else {
                        let pair = a.ex && b.ex && a.k == R && b.k == W && a.a == b.a;
                        let aa = match arch {
                            // the read of an acquiring instruction
                            Arch::A64 | Arch::Arm => a.k == R && a.acq,
                            _ => a.acq,
                        };
                        let rr = match arch {
                            Arch::A64 | Arch::Arm => b.k == W && b.rel,
                            _ => b.rel,
                        };
                        // release then acquire
                        let la = match arch {
                            Arch::A64 => a.k == W && a.rel && b.k == R && b.acq,
                            Arch::Rv => a.rcsc && b.rcsc,
                            _ => false,
                        };
                        pair || aa || rr || la
                    }
                }
                (G::N(x), G::F(p, _)) => nd[x].c.k & p != 0,
                (G::F(_, s), G::N(y)) => nd[y].c.k & s != 0,
                (G::F(p, s), G::F(p2, s2)) => p == RW && s == RW || p2 == RW && s2 == RW,
                (G::N(x), G::I) => nd[x].c.k == R && br && arch == Arch::Ppc,
                (G::I, G::N(_)) => arch == Arch::Ppc,
                _ => false,
            };
            if matches!(g[j], G::B) {
                br = true;
            }
            if e {
                gr.set(i, j);
            }
        }
    }
    gr.close();
    let ord = |x: usize, y: usize| x == y || gr.has(pos[x], pos[y]);
    // markers
    let mark = |w: u64, k: u8| nd.iter().position(|q| q.c.k == k && q.c.a == mk + 4 * w);
    let m: Vec<Option<usize>> = (0..7).map(|w| mark(w, if w % 2 == 0 { W } else { R })).collect();
    if m.iter().take(5).any(|x| x.is_none()) {
        out.skipped = true;
        return out;
    }
    let m: Vec<usize> = m.into_iter().map(|x| x.unwrap_or(0)).collect();
    let mut sem: [Vec<usize>; 2] = [vec![], vec![]];
    let eff = |o: &OpI| if o.ok { o.o.clone() } else { o.f.clone() };
    let nm = |x: usize| format!("{} at {:x}", if nd[x].c.k == R { "read" } else { "write" }, nd[x].pc);
    for (w, o) in ops.iter().enumerate() {
        let (lo, hi) = if w == 0 { (m[1], m[2]) } else { (m[3], m[4]) };
        let before: Vec<usize> = m[..=2 * w + 1].to_vec();
        let after: Vec<usize> = m[2 * w + 2..].iter().copied().filter(|x| *x > lo).collect();
        let inop: Vec<usize> = (lo + 1..hi).collect();
        let vr: Vec<usize> = inop.iter().copied().filter(|x| nd[*x].c.k == R && of(&nd[*x].c, o)).collect();
        let vw: Vec<usize> = inop.iter().copied().filter(|x| nd[*x].c.k == W && of(&nd[*x].c, o)).collect();
        let lk: Vec<usize> = inop.iter().copied().filter(|x| islock(&nd[*x].c)).collect();
        let ef = eff(o);
        let acq = matches!(ef.as_str(), "Acquire" | "AcqRel" | "SeqCst") && o.k != "Store";
        let rel = matches!(ef.as_str(), "Release" | "AcqRel" | "SeqCst") && o.k != "Load" && o.ok;
        let needr = o.k != "Store";
        // one that changes nothing may be left unwritten
        let needw = o.k != "Load" && o.ok && !(vw.is_empty() && o.keep);
        let lab = format!("operation {} ({} {} o={} f={} -> {})", w + 1, o.ty, o.k, o.o, o.f, o.res);
        macro_rules! bad {
            ($($t:tt)*) => { out.fails.push(format!("{}: {}", lab, format!($($t)*))) };
        }
        if cf.foot {
            // what the operation reads and writes around the variables
            for e in &cs.evs[nd[lo].ev + 1..nd[hi].ev] {
                let Act::A(c) = e.act else { continue };
                let Some(p) = ops.iter().position(|p| over(&c, p.a & !63, 64)) else { continue };
                out.edges += 1;
                let inside = o.a <= c.a && c.a + c.n <= o.a + o.n;
                // the word around a small variable: read, or replaced as one
                let word = of(&c, o) && c.a & !15 == o.a & !15 && (c.a + c.n - 1) & !15 == o.a & !15;
                if !inside && !(word && (c.k == R || c.ex || c.amo || c.full)) {
                    bad!("{} {} bytes at {}{:#x} of {} ({:x})", if c.k == R { "reads" } else { "writes" }, c.n, if c.a < ops[p].a { "-" } else { "+" }, c.a.abs_diff(ops[p].a), if p == w { "the variable" } else { "another variable" }, e.pc);
                }
            }
        }
        if needr && vr.is_empty() {
            if o.n > 0 {
                bad!("no instruction reads the variable");
            }
            continue;
        }
        if needw && vw.is_empty() {
            bad!("no instruction writes the variable");
            continue;
        }
        if cf.single && cf.free.get(&o.ty).is_some_and(|f| *f != lk.is_empty()) {
            out.edges += 1;
            bad!("is_lock_free() is {}, but the operation {}", lk.is_empty() == false, if lk.is_empty() { "takes no lock" } else { "takes a lock" });
        }
        if lk.is_empty() {
            // no lock: the last access instruction decides
            let lastof = |v: &Vec<usize>| -> Vec<usize> {
                match v.last() {
                    Some(l) => v.iter().copied().filter(|x| nd[*x].seq == nd[*l].seq).collect(),
                    None => vec![],
                }
            };
            let (lr, lwr) = (lastof(&vr), lastof(&vw));
            if cf.single {
                for (v, need, what) in [(&lr, needr, "read"), (&lwr, needw, "written")] {
                    if !need {
                        continue;
                    }
                    out.edges += 1;
                    let q = &nd[v[0]].c;
                    let whole = v.len() == 1 && q.a <= o.a && o.a + o.n <= q.a + q.n;
                    let mut fine = whole && q.sca;
                    // a pair of exclusive loads is one access only if the store succeeds
                    if fine && arch == Arch::A64 && q.ex && q.k == R && q.n == 16 {
                        fine = vw.iter().any(|x| nd[*x].seq > nd[v[0]].seq && nd[*x].c.ex && nd[*x].c.a == q.a && nd[*x].c.n == q.n);
                    }
                    if !fine {
                        bad!("the value is {} by an access that is not one indivisible access of the whole variable ({})", what, nm(v[0]));
                    }
                }
                if needr && needw && !lr.is_empty() {
                    let (a, b) = (lr[0], lwr[0]);
                    let (x, y) = (&nd[a].c, &nd[b].c);
                    let one = nd[a].seq == nd[b].seq && x.amo && y.amo;
                    let pair = x.ex && y.ex && x.a == y.a && x.n == y.n && a < b && !(a + 1..b).any(|z| nd[z].c.k == W && of(&nd[z].c, o));
                    if !(one || pair) {
                        bad!("the value is read and written by different instructions that are not one atomic step ({}, {})", nm(a), nm(b));
                    }
                }
            }
            if cf.order {
                if acq {
                    for r in &lr {
                        for a in &after {
                            out.edges += 1;
                            if !ord(*r, *a) {
                                bad!("must be acquire ({}), but nothing keeps a later {} after its {}", ef, if nd[*a].c.k == R { "load" } else { "store" }, nm(*r));
                                break;
                            }
                        }
                    }
                }
                if rel {
                    for x in &lwr {
                        for b in &before {
                            out.edges += 1;
                            if !ord(*b, *x) {
                                bad!("must be release ({}), but nothing keeps an earlier {} before its {}", ef, if nd[*b].c.k == R { "load" } else { "store" }, nm(*x));
                                break;
                            }
                        }
                    }
                }
            }
            // the place of a successful read-modify-write in the order is that of its write
            if needw {
                sem[w].extend(&lwr);
            } else if needr {
                sem[w].extend(&lr);
            }
        } else {
            out.lockmode = true;
            if needw {
                sem[w].extend(&vw);
            } else if needr {
                sem[w].extend(&vr);
            }
            if cf.order {
                if acq {
                    out.edges += 1;
                    let t = |a: usize| after.iter().all(|x| ord(a, *x));
                    if !(vr.iter().all(|r| t(*r)) || lk.iter().any(|a| nd[*a].c.k == R && t(*a) && vr.iter().all(|r| ord(*a, *r)))) {
                        bad!("must be acquire ({}), but nothing keeps later accesses after its reads or after its reads of the lock", ef);
                    }
                }
                if rel {
                    out.edges += 1;
                    let t = |u: usize| before.iter().all(|x| ord(*x, u));
                    if !(vw.iter().all(|x| t(*x)) || lk.iter().any(|u| nd[*u].c.k == W && t(*u) && vw.iter().all(|x| ord(*x, *u)))) {
                        bad!("must be release ({}), but nothing keeps earlier accesses before its writes or before its release of the lock", ef);
                    }
                }
            }
            if cf.lock {
                // the word that is taken by a read-modify-write
                let rmw: Vec<(usize, usize)> = lk
                    .iter()
                    .copied()
                    .filter(|x| nd[*x].c.k == W)
                    .filter_map(|b| {
                        let y = &nd[b].c;
                        if y.amo {
                            lk.iter().copied().find(|a| nd[*a].seq == nd[b].seq && nd[*a].c.k == R).map(|a| (a, b))
                        } else if y.ex {
                            lk.iter().copied().filter(|a| *a < b && nd[*a].c.k == R && nd[*a].c.ex && nd[*a].c.a == y.a).last().map(|a| (a, b))
                        } else {
                            None
                        }
                    })
                    .collect();
                let word = rmw.first().map(|x| nd[x.0].c.a);
                let mut all: Vec<usize> = vr.iter().chain(&vw).copied().collect();
                all.sort();
                for e in all {
                    let wrs: Vec<usize> = lk.iter().copied().filter(|x| nd[*x].c.k == W && Some(nd[*x].c.a) == word).collect();
                    let nb = wrs.iter().filter(|x| **x < e).count();
                    out.edges += 2;
                    if nb % 2 == 1 {
                        let l = wrs[nb - 1];
                        let Some((a, _)) = rmw.iter().find(|x| x.1 == l) else {
                            bad!("the lock is taken by a plain store ({})", nm(l));
                            break;
                        };
                        if !ord(*a, e) {
                            bad!("locked, but nothing keeps its {} of the variable after the lock is taken ({})", nm(e), nm(*a));
                            break;
                        }
                        if nd[e].c.k == W && !ord(l, e) {
                            bad!("locked, but nothing keeps its {} of the variable after the write that takes the lock ({}), so an optimistic reader may miss it", nm(e), nm(l));
                            break;
                        }
                        match wrs.get(nb) {
                            None => {
                                bad!("the lock is not released");
                                break;
                            }
                            Some(u) => {
                                if !ord(e, *u) {
                                    bad!("locked, but nothing keeps its {} of the variable before the lock's release ({})", nm(e), nm(*u));
                                    break;
                                }
                            }
                        }
                    } else if nd[e].c.k == W {
                        bad!("the variable is written outside the lock ({})", nm(e));
                        break;
                    } else {
                        let p: Vec<usize> = lk.iter().copied().filter(|x| nd[*x].c.k == R && *x < e).collect();
                        let q: Vec<usize> = lk.iter().copied().filter(|x| nd[*x].c.k == R && *x > e).collect();
                        if p.is_empty() || q.is_empty() {
                            bad!("the variable is read outside the lock ({}) without looking at the lock before and after", nm(e));
                            break;
                        }
                        if !p.iter().any(|x| ord(*x, e)) {
                            bad!("optimistic, but nothing keeps its {} of the variable after its first read of the lock", nm(e));
                            break;
                        }
                        if !q.iter().any(|x| ord(e, *x)) {
                            bad!("optimistic, but nothing keeps its {} of the variable before its second read of the lock", nm(e));
                            break;
                        }
                        // two words: they are read in order, both times
                        let words: HashSet<u64> = p.iter().map(|x| nd[*x].c.a).collect();
                        if words.len() == 2 {
                            let (h, l) = (p[p.len() - 2], p[p.len() - 1]);
                            if nd[h].c.a != nd[l].c.a && !ord(h, l) {
                                bad!("optimistic, but nothing orders the reads of the two words of the lock ({}, {})", nm(h), nm(l));
                                break;
                            }
                            if q.len() >= 2 && nd[q[0]].c.a != nd[q[1]].c.a && !ord(q[0], q[1]) {
                                bad!("optimistic, but nothing orders the second reads of the two words of the lock ({}, {})", nm(q[0]), nm(q[1]));
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    // the compiler's own failed SeqCst compare-exchange on PowerPC has no barrier before it (see DESIGN.md)
    // taking the lock by a read-modify-write that is a full barrier already makes the operation visible (as pending) before
    // anything later: whoever looks at the variable then waits for it
    let taken = |w: usize| {
        let (lo, hi) = if w == 0 { (m[1], m[2]) } else { (m[3], m[4]) };
        let t = (lo + 1..hi).find(|x| islock(&nd[*x].c) && nd[*x].c.k == W && nd[*x].c.full);
        t.is_some_and(|t| sem[w].iter().all(|x| nd[*x].c.k == W && *x > t))
    };
    let theirs = arch == Arch::Ppc && !ops[1].ok && ops[1].n * 8 <= cf.cpu.bits as u64;
    if cf.order && ops.iter().all(|o| eff(o) == "SeqCst") && !theirs && !taken(0) {
        'o: for x in &sem[0] {
            for y in &sem[1] {
                out.edges += 1;
                if !ord(*x, *y) {
                    out.fails.push(format!(
                        "both SeqCst ({} {} -> {}; {} {} -> {}), but nothing keeps the first one's {} before the second one's {}",
                        ops[0].ty, ops[0].k, ops[0].res, ops[1].ty, ops[1].k, ops[1].res, nm(*x), nm(*y)
                    ));
                    break 'o;
                }
            }
        }
    }
    let mut p = String::new();
    for e in &g {
        match e {
            G::N(x) => {
                let c = &nd[*x].c;
                let w = if inmk(c.a) {
                    format!("m{}", (c.a - mk) / 4)
                } else if of(c, &ops[0]) {
                    "A".into()
                } else if of(c, &ops[1]) {
                    "B".into()
                } else if islock(c) {
                    format!("L{:x}", c.a & 0xfff)
                } else {
                    "?".into()
                };
                p += &format!(" {}{}{}{}{}", if c.k == R { "R" } else { "W" }, if c.acq { "a" } else { "" }, if c.rel { "l" } else { "" }, if c.full { "!" } else if c.amo { "*" } else if c.ex { "x" } else { "" }, format!(":{}", w));
            }
            G::F(a, b) => p += &format!(" F{}{}", a, b),
            G::I => p += " I",
            G::B => {}
        }
        if p.ends_with(":m4") {
            break;
        }
    }
    out.pic = p;
    out
}

fn main() {
    let arg: HashMap<String, String> = std::env::args().skip(1).filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
    let s = |k: &str| arg.get(k).cloned().unwrap_or_default();
    let arch = match s("arch").as_str() {
        "a64" => Arch::A64,
        "arm" => Arch::Arm,
        "rv" => Arch::Rv,
        "ppc" => Arch::Ppc,
        "s390" => Arch::S390,
        "mips" => Arch::Mips,
        "la" => Arch::La,
        "x86" => Arch::X86,
        x => panic!("arch {x}"),
    };
    let cpu = Cpu { arch, bits: s("bits").parse().expect("bits"), lse2: s("lse2") == "1", avx: s("avx") == "1" };
    let img = load(&s("objdump"), &s("bin"), &cpu, &s("mcpu"));
    // executed, but not known to the CPU the program is for: (number of the case, address)
    let mcpu = !s("mcpu").is_empty();
    let mut beyond: Vec<(usize, u64)> = vec![];
    let rq = s("reqs");
    let has = |x: &str| rq.is_empty() || rq.split(',').any(|y| y == x);
    let mut df: Vec<String> = img.ranges.iter().map(|(a, b)| format!("0x{:x}+0x{:x}", a, b - a)).collect();
    if arch == Arch::Arm {
        df.push("0xffff0000+0x1000".into());
    }
    let q = s("qemu");
    let q: Vec<&str> = q.split(',').collect();
    // -cpu models may hold commas: qemu=prog|-cpu|x,y
    let q: Vec<String> = if s("qemu").contains('|') { s("qemu").split('|').map(|x| x.to_string()).collect() } else { q.iter().map(|x| x.to_string()).collect() };
    let mut ch = Command::new(&q[0])
        .args(&q[1..])
        .args(["-one-insn-per-tb", "-d", "exec,cpu,nochain", "-D", "/dev/stderr", "-dfilter", &df.join(",")])
        .arg(s("bin"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("qemu");
    ch.stdin.take().unwrap().write_all((s("input") + "\n").as_bytes()).unwrap();
    let mut so = ch.stdout.take().unwrap();
    let th = std::thread::spawn(move || {
        let mut v = String::new();
        let _ = so.read_to_string(&mut v);
        v
    });
    let sp = symbol(&s("bin"), &s("objdump"));
    let mut rd = BufReader::with_capacity(1 << 20, ch.stderr.take().unwrap());
    let mut cases: Vec<Case> = vec![];
    let mut cur: Option<Case> = None;
    let (mut prev, mut this): (Option<(u64, Vec<u8>)>, Option<(u64, Vec<u8>)>) = (None, None);
    let mut line: Vec<u8> = vec![];
    let mut seq = 0u32;
    let mut last: Option<(u64, Vec<u8>)> = None;
    let mut acts: Vec<Act> = vec![];
    let mut handle = |blk: &(u64, Vec<u8>), nx: Option<&(u64, Vec<u8>)>, cur: &mut Option<Case>, cases: &mut Vec<Case>| {
        let pc = blk.0;
        if let Some(l) = &last {
            if l.0 == pc && l.1 == blk.1 {
                return;
            }
        }
        let ku = arch == Arch::Arm && pc >= 0xffff0000 && pc < 0xffff1000;
        let ins = img.ins.get(&pc);
        if mcpu && ins.is_some_and(|i| i.mn == "<unknown>") && cur.is_some() && beyond.len() < 4 {
            beyond.push((cases.len(), pc));
        }
        if !ku && ins.map_or(true, |i| !cpu.matters(i)) {
            last = None;
            return;
        }
        seq += 1;
        let d = String::from_utf8_lossy(&blk.1);
        let g = cpu.regs(&d);
        let next = || nx.map(|n| cpu.regs(&String::from_utf8_lossy(&n.1)));
        acts.clear();
        if ku {
            Cpu::kuser(pc, &g, &next, &mut acts);
        } else {
            cpu.decode(pc, ins.unwrap(), &g, &next, &mut acts);
        }
        let stack = cpu.mask(g.r[cpu.sp()]);
        for a in &acts {
            if let Act::A(c) = a {
                // the stack is private; a locked instruction there is still a barrier
                let onstack = c.a >= stack.wrapping_sub(1 << 16) && c.a < stack.wrapping_add(1 << 20) && !(c.a >= img.lo && c.a < img.hi);
                if onstack || !(c.a >= img.lo && c.a < img.hi) {
                    if c.full && c.k == W {
                        if let Some(x) = cur {
                            x.evs.push(Ev { pc, act: Act::F(RW, RW), seq });
                        }
                    }
                    continue;
                }
                if c.k == W && c.a == sp {
                    if let Some(x) = cur.take() {
                        cases.push(x);
                    }
                    *cur = Some(Case { idx: 0, evs: vec![] });
                }
            }
            if let Some(x) = cur {
                if x.evs.len() < 4000 {
                    x.evs.push(Ev { pc, act: *a, seq });
                }
            }
        }
        last = Some((pc, blk.1.clone()));
    };
    loop {
        line.clear();
        match rd.read_until(b'\n', &mut line) {
            Ok(0) | Err(_) => break,
            _ => {}
        }
        if line.starts_with(b"Trace ") {
            if let (Some(p), Some(t)) = (&prev, &this) {
                handle(p, Some(t), &mut cur, &mut cases);
            }
            prev = this.take();
            let l = String::from_utf8_lossy(&line);
            let pc = l.split('[').nth(1).and_then(|x| x.split('/').nth(1)).and_then(|x| u64::from_str_radix(x, 16).ok()).unwrap_or(0);
            this = Some((pc, vec![]));
        } else if let Some(t) = &mut this {
            if t.1.len() < 8192 && !line.starts_with(b"Stopped") {
                t.1.extend_from_slice(&line);
            }
        }
    }
    if let (Some(p), Some(t)) = (&prev, &this) {
        handle(p, Some(t), &mut cur, &mut cases);
    }
    if let Some(t) = &this {
        handle(t, None, &mut cur, &mut cases);
    }
    cases.extend(cur.take());
    let st = ch.wait().ok();
    let out = th.join().unwrap();
    if s("show") == "2" {
        print!("{out}");
    }
    let mut mkw = 0;
    let mut free = HashMap::new();
    let mut texts: Vec<(u64, [OpI; 2], String)> = vec![];
    for l in out.lines() {
        if let Some(t) = l.strip_prefix("MK ") {
            mkw = u64::from_str_radix(t.split_whitespace().next().unwrap_or("0"), 16).unwrap_or(0);
        } else if let Some(t) = l.strip_prefix("T ") {
            let p: Vec<&str> = t.split('|').collect();
            if p.len() == 3 {
                if let (Ok(i), Some(a), Some(b)) = (p[0].parse(), parse_op(p[1]), parse_op(p[2])) {
                    texts.push((i, [a, b], t.to_string()));
                }
            }
        } else if let Some(t) = l.strip_prefix("INFO ") {
            if let Some((n, f)) = t.split_once(' ') {
                free.insert(n.to_string(), f.trim() == "1");
            }
        } else if l.starts_with("CRASH") || l.starts_with("PANIC") {
            println!("{l}");
        }
    }
    let cf = Cfg { order: has("order"), lock: has("lock"), single: has("single"), foot: has("foot"), lo: img.lo, hi: img.hi, cpu, free };
    let (mut nc, mut nt, mut skip, mut edges, mut locked) = (0u64, HashSet::new(), 0u64, 0u64, 0u64);
    let mut fails = 0;
    if cases.len() < texts.len() {
        println!("ERROR only {} of {} cases were seen in the log", cases.len(), texts.len());
    }
    for (c, (i, ops, text)) in cases.iter().zip(&texts) {
        nc += 1;
        let o = judge(&cf, c, mkw, ops);
        if o.skipped {
            skip += 1;
            if s("show") != "" {
                println!("SKIP {} {}", o.pic, text);
            }
            continue;
        }
        if o.edges > 0 {
            nt.insert(format!("{:?}", ops.iter().map(|o| (&o.ty, &o.k, &o.o, &o.f, o.ok)).collect::<Vec<_>>()));
        }
        edges += o.edges as u64;
        locked += o.lockmode as u64;
        if s("show") != "" {
            println!("CASE {text}\n   {}", o.pic);
        }
        if (*i) % 97 == 3 && nc < 400 || nc == 2 {
            println!("SAMPLE {} | {} ; {} ||{}", i, ops[0].text, ops[1].text, o.pic);
        }
        for f in &o.fails {
            fails += 1;
            if fails <= 40 {
                println!("FAIL index={} {} ## {} ;;{}", i, text, f, o.pic);
            }
        }
    }
    for (c, pc) in &beyond {
        if let Some((i, _, text)) = texts.get(*c) {
            fails += 1;
            println!("FAIL index={} {} ## the instruction executed at {:x} is not one of the target CPU ({})", i, text, pc, s("mcpu"));
        }
    }
    println!("STAT cases={} distinct={} skipped={} edges={} locked={} fails={}", nc, nt.len(), skip, edges, locked, fails);
    println!("END rc={}", st.and_then(|s| s.code()).unwrap_or(-1));
}

/// Address of the marker words (a local symbol, so found in the symbol table).
fn symbol(bin: &str, objdump: &str) -> u64 {
    let o = Command::new(objdump).args(["-t", bin]).output().expect("objdump");
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        if l.contains("xtr2MK") || l.ends_with(" MK") {
            return u64::from_str_radix(l.split_whitespace().next().unwrap_or("0"), 16).unwrap_or(0);
        }
    }
    0
}
