//! Operations on emulated single-core machines, interrupted between any two instructions by handlers
//! that operate on the same variable. `mode=isr`, `mode=seq` (no interrupts, long programs),
//! `mode=ord` (orderings an operation does not accept).
use std::collections::HashSet;
use std::rc::Rc;
use vcore::op::*;
use vcore::ord;
use vcore::rng::{mix, Rng};
use vemu::arm::{Arm, Kind};
use vemu::avr::Avr;
use vemu::lin::{linearizable, Ev};
use vemu::msp430::Msp;
use vemu::riscv::Rv;
use vemu::{Cpu, Elf, Mem};

struct Args(Vec<(String, String)>);
impl Args {
    fn s(&self, k: &str) -> Option<&str> {
        self.0.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    fn u(&self, k: &str, d: u64) -> u64 {
        self.s(k).map_or(d, |v| v.parse().expect("number"))
    }
}

struct Lay {
    req: u32,
    var: u32,
    top: u32,
}
/// Bytes on either side of the variable that must keep what others write there.
const GUARD: u32 = 64;

#[derive(Clone, Debug)]
struct Irq {
    at: u64,
    nested: bool,
    op: Op,
}
#[derive(Clone)]
struct Case {
    ty: Ty,
    off: u32,
    init: u128,
    on: bool,
    other: u64,
    fill: u64,
    ops: Vec<Op>,
    irqs: Vec<Irq>,
}
impl Case {
    fn text(&self, mode: &str) -> String {
        let mut s = format!("{mode} {} off={} init={:#x} on={} other={:#x} fill={:#x}", self.ty.name(), self.off, self.init, self.on as u8, self.other, self.fill);
        for o in &self.ops {
            s += &format!("; op {o:?}");
        }
        for i in &self.irqs {
            s += &format!("; irq {} n={} {:?}", i.at, i.nested as u8, i.op);
        }
        s
    }
    fn parse(s: &str) -> Option<(String, Case)> {
        let mut it = s.trim().split("; ");
        let mut h = it.next()?.split_whitespace();
        let mode = h.next()?.to_string();
        let ty = Ty::parse(h.next()?)?;
        let off = h.next()?.strip_prefix("off=")?.parse().ok()?;
        let init = hex(h.next()?.strip_prefix("init=")?)?;
        let on = h.next()? == "on=1";
        let other = hex(h.next()?.strip_prefix("other=")?)? as u64;
        let fill = hex(h.next()?.strip_prefix("fill=")?)? as u64;
        let mut c = Case { ty, off, init, on, other, fill, ops: vec![], irqs: vec![] };
        for l in it {
            if let Some(o) = l.trim().strip_prefix("op ") {
                c.ops.push(Op::parse(o)?);
            } else if let Some(o) = l.trim().strip_prefix("irq ") {
                let mut w = o.splitn(3, ' ');
                let at = w.next()?.parse().ok()?;
                let nested = w.next()? == "n=1";
                c.irqs.push(Irq { at, nested, op: Op::parse(w.next()?)? });
            }
        }
        Some((mode, c))
    }
}

struct M<C: Cpu> {
    mem: Mem,
    cpu0: C,
    vop: u32,
    vpanic: u32,
    vcs: Option<u32>,
    lay: Lay,
    limit: u64,
    trace: bool,
}
struct Frame<C> {
    saved: Option<C>,
    at_call: C,
    status: u64,
    cs_on: bool,
    irq_on: bool,
    cs_n: u32,
    req: u32,
    op: Op,
    tid: usize,
    inv: u64,
    /// the critical section as the interrupted program had it
    cs_was: u32,
    /// accesses to the variable by this operation so far
    acc: u64,
}
#[derive(Default)]
struct Out {
    bad: Option<String>,
    absent: bool,
    steps: u64,
    /// (clock, something interesting next to it) of boundaries where an interrupt could be taken, inside operations
    points: Vec<(u64, bool)>,
    /// (pc, outer op index) at which interrupts were taken
    taken: Vec<(u32, bool)>,
    masked: bool,
    panicked: bool,
}

impl<C: Cpu> M<C> {
    fn cs_on(&self) -> bool {
        self.vcs.map_or(true, |a| self.mem.peek(a, 4) != 0)
    }
    fn cs_n(&self) -> u32 {
        self.vcs.map_or(0, |a| self.mem.peek(a + 4, 4) as u32)
    }
    fn ok(&self, cpu: &C) -> bool {
        self.cs_on() && cpu.irq_ok()
    }
    fn put_req(&mut self, req: u32, ty: Ty, op: &Op) {
        let mut b = [0xEEu8; 56];
        b[0] = ty as u8;
        b[1] = op.k as u8;
        b[2] = op.o;
        b[3] = op.f;
        b[5] = 0;
        b[8..24].copy_from_slice(&op.a.to_le_bytes());
        b[24..40].copy_from_slice(&op.b.to_le_bytes());
        self.mem.poke(req, &b);
    }
    fn run(&mut self, c: &Case, want_points: bool, ord: bool) -> Out {
        let mark = self.mem.log.len();
        let o = self.run1(c, want_points, ord);
        self.mem.undo(mark);
        self.mem.fault = None;
        self.mem.watch = (0, 0);
        o
    }
    fn run1(&mut self, c: &Case, want_points: bool, ord: bool) -> Out {
        let mut out = Out::default();
        let n = c.ty.size() as u32;
        let var = self.lay.var + c.off * n;
        let mut fr = Rng::new(c.fill, 7, 7);
        let mut frames: Vec<Frame<C>> = vec![];
        let mut evs: Vec<Ev> = vec![];
        let mut guard: Vec<u8> = (0..2 * GUARD + n).map(|_| fr.u64() as u8).collect();
        guard[GUARD as usize..(GUARD + n) as usize].copy_from_slice(&c.init.to_le_bytes()[..n as usize]);
        self.mem.logging = true;
        self.mem.poke(var - GUARD, &guard);
        self.mem.watch = (0, 0);
        self.mem.fault = None;
        // stack garbage
        for i in 0..256 {
            let v = fr.u64() as u8;
            self.mem.poke(self.lay.top - 256 + i, &[v]);
        }
        let mut cpu = self.cpu0.clone();
        // critical-section machines: the processor's own state stays out of it
        cpu.set_status(c.on || self.vcs.is_some(), c.other);
        if let Some(a) = self.vcs {
            let v = if c.on { 1u32 } else { 0 };
            self.mem.poke(a, &v.to_le_bytes());
            self.mem.poke(a + 4, &[0; 16]);
        }
        let mut next_irq = 0;
        let mut next_op = 0;
        let mut clock = 0u64;
        let mut ev = 0u64;
        let mut last_touch = false;
        let mut last_ok = true;
        let limit = self.limit;
        macro_rules! bad {
            ($($x:tt)*) => {{ out.bad = Some(format!($($x)*)); out.steps = clock; return out }};
        }
        let mut op_start = 0u64;
        loop {
            if frames.is_empty() {
                if next_op == c.ops.len() {
                    break;
                }
                let op = c.ops[next_op];
                next_op += 1;
                let req = self.lay.req;
                self.put_req(req, c.ty, &op);
                let sp = self.lay.top - 64 - (fr.below(8) as u32) * 16;
                self.mem.watch = (0, 0);
                cpu.call(&mut self.mem, self.vop, req, var, sp, &mut || fr.u64());
                self.mem.watch = (var, var + n);
                ev += 1;
                op_start = clock;
                frames.push(Frame { saved: None, status: cpu.status(), cs_on: self.cs_on(), irq_on: self.ok(&cpu), cs_n: self.cs_n(), at_call: cpu.clone(), req, op, tid: 0, inv: ev, cs_was: 0, acc: 0 });
                last_touch = false;
                last_ok = self.ok(&cpu);
            }
            let d = frames.len();
            if cpu.returned() {
                // ---- the end of an operation
                let f = frames.pop().unwrap();
                ev += 1;
                let who = if d > 1 { "handler's " } else { "" };
                let opn = format!("{who}{:?}", f.op);
                let done = self.mem.d[(f.req + 5) as usize];
                if done == 2 {
                    out.absent = true;
                    return out;
                }
                if done != 1 {
                    bad!("{opn} came back without a result");
                }
                if cpu.status() != f.status {
                    bad!("after {opn} the processor status is {:#x}, before it was {:#x}", cpu.status(), f.status);
                }
                if self.cs_on() != f.cs_on {
                    bad!("after {opn} the critical section state is {}, before it was {}", self.cs_on(), f.cs_on);
                }
                if let Some(w) = cpu.saved(&f.at_call) {
                    bad!("after {opn} {w}");
                }
                if let Some(a) = self.vcs {
                    let w = |i: u32| self.mem.peek(a + 4 * i, 4) as u32;
                    if w(3) != 0 {
                        bad!("{opn} left a critical section that was not the one last entered, or with a state that is not its own");
                    }
                    // those of handlers in between come back out of the difference
                    let dn = self.cs_n().wrapping_sub(f.cs_n);
                    if f.op.k != K::Upd && c.ty.class() != Class::Float && dn > 1 {
                        bad!("{opn} entered {dn} critical sections");
                    }
                    if w(1) != w(2) && (d == 1 || frames.iter().all(|_| true) && w(4) != 0) {
                        bad!("{opn}: critical sections entered {} times, left {} times", w(1), w(2));
                    }
                }
                let rk = [Rk::Unit, Rk::Val, Rk::Ok, Rk::Err, Rk::Bit];
                let k = self.mem.d[(f.req + 4) as usize];
                if k > 4 {
                    bad!("{opn} gave no result");
                }
                let res = Res { k: rk[k as usize], v: self.mem.peek(f.req + 40, 16) };
                evs.push(Ev { tid: f.tid, op: f.op, res, inv: f.inv, ret: ev });
                if let Some(s) = f.saved {
                    cpu = s;
                    if let Some(a) = self.vcs {
                        self.mem.poke(a, &f.cs_was.to_le_bytes());
                        // the sections of the handler are not the interrupted operation's
                        let used = self.cs_n().wrapping_sub(f.cs_n);
                        for g in frames.iter_mut() {
                            g.cs_n = g.cs_n.wrapping_add(used);
                        }
                    }
                    last_ok = true;
                }
                continue;
            }
            let ok = self.ok(&cpu);
            if ok && !frames[d - 1].irq_on {
                bad!("{:?} enabled interrupts, which were disabled, at {:#x}", frames[d - 1].op, cpu.pc());
            }
            out.masked |= !ok && c.on && d == 1;
            if want_points && ok && clock > op_start {
                out.points.push((clock, last_touch || !last_ok));
            }
            if ok && next_irq < c.irqs.len() && c.irqs[next_irq].at <= clock && d < 4 {
                // ---- an interrupt
                let q = c.irqs[next_irq].clone();
                next_irq += 1;
                let g = self.mem.d[(var - GUARD) as usize..(var + n + GUARD) as usize].to_vec();
                for i in 0..g.len() {
                    if !(GUARD as usize..(GUARD + n) as usize).contains(&i) {
                        if g[i] != guard[i] {
                            bad!("{:?} changed the byte at {:+} of its variable from {:#x} to {:#x}", frames[d - 1].op, i as i64 - GUARD as i64, guard[i], g[i]);
                        }
                        guard[i] = fr.u64() as u8;
                    }
                }
                // the handler writes what is next to the variable
                self.mem.poke(var - GUARD, &guard[..GUARD as usize].to_vec());
                self.mem.poke(var + n, &guard[(GUARD + n) as usize..].to_vec());
                out.taken.push((cpu.pc(), last_touch || !last_ok || frames[d - 1].acc > 0));
                let saved = cpu.clone();
                self.mem.watch = (0, 0);
                let mut saved = saved;
                saved.interrupted();
                let sp = cpu.take(&mut self.mem, q.nested, &mut || fr.u64());
                let mut cs_was = 0;
                if let Some(a) = self.vcs {
                    cs_was = self.mem.peek(a, 4) as u32;
                    if !q.nested {
                        self.mem.poke(a, &[0; 4]);
                    }
                }
                let req = self.lay.req + d as u32 * 64;
                self.put_req(req, c.ty, &q.op);
                cpu.call(&mut self.mem, self.vop, req, var, sp, &mut || fr.u64());
                self.mem.watch = (var, var + n);
                ev += 1;
                frames.push(Frame { saved: Some(saved), status: cpu.status(), cs_on: self.cs_on(), irq_on: self.ok(&cpu), cs_n: self.cs_n(), at_call: cpu.clone(), req, op: q.op, tid: d, inv: ev, cs_was, acc: 0 });
                last_touch = false;
                continue;
            }
            self.mem.touched = false;
            if let Err(e) = cpu.step(&mut self.mem) {
                bad!("{:?}: {e}", frames[d - 1].op);
            }
            if self.mem.touched {
                frames[d - 1].acc += 1;
                if want_points && !out.points.is_empty() && out.points.last().unwrap().0 == clock {
                    out.points.last_mut().unwrap().1 = true;
                }
            }
            if let Some((a, w)) = self.mem.fault {
                bad!("{:?} made {w} at {a:#x} (pc {:#x})", frames[d - 1].op, cpu.pc());
            }
            if want_points && ok && !self.ok(&cpu) {
                if let Some(p) = out.points.last_mut() {
                    p.1 = true;
                }
            }
            last_touch = self.mem.touched;
            last_ok = ok;
            clock += 1;
            if self.trace {
                println!("{:indent$}{:x} sp {:x}", "", cpu.pc(), cpu.sp(), indent = d);
            }
            if cpu.pc() == self.vpanic {
                if !ord {
                    bad!("{:?} panicked", frames[d - 1].op);
                }
                let f = &frames[0];
                out.panicked = true;
                if cpu.status() != f.status || self.cs_on() != f.cs_on {
                    bad!("{:?} panicked with the processor status {:#x}, before it was {:#x}", f.op, cpu.status(), f.status);
                }
                break;
            }
            if clock > limit {
                bad!("{:?} has not come back after {limit} instructions", frames[d - 1].op);
            }
        }
        out.steps = clock;
        let g = &self.mem.d[(var - GUARD) as usize..(var + n + GUARD) as usize];
        for i in 0..g.len() {
            if !(GUARD as usize..(GUARD + n) as usize).contains(&i) && g[i] != guard[i] {
                bad!("the byte at {:+} of the variable was changed from {:#x} to {:#x}", i as i64 - GUARD as i64, guard[i], g[i]);
            }
        }
        let fin = self.mem.peek(var, n as usize);
        if out.panicked {
            if fin != c.init {
                bad!("{:?} panicked and left {fin:#x} instead of {:#x}", c.ops[0], c.init);
            }
            return out;
        }
        if !linearizable(c.ty, c.init, &evs, fin) {
            let mut h = String::new();
            for e in &evs {
                h += &format!(" [{}:{:?} -> {:?}]", if e.tid == 0 { "main".into() } else { format!("handler{}", e.tid) }, e.op, e.res);
            }
            bad!("no order of the operations explains the results: {:#x}{h} -> {fin:#x}", c.init);
        }
        out
    }
}

fn gen(r: &mut Rng, tys: &[Ty], i: u64, mode: &str) -> Case {
    let ty = tys[(i % tys.len() as u64) as usize];
    let init = gen_val(r, ty, 0);
    let mut cur = init;
    let nops = if mode == "seq" { 1 + r.below(24) } else { 1 + r.below(2) + (r.chance(1, 8) as u64) };
    let ks = if mode == "seq" { ty.ops() } else { ty.conc_ops() };
    let mut ops = vec![];
    for _ in 0..nops {
        let op = gen_op(r, ty, cur, ks);
        // a guess at what comes of it, so that arguments meet the value
        if let Some(Exp::Is(v)) = [Rk::Unit, Rk::Val, Rk::Ok, Rk::Err].iter().find_map(|k| step(ty, cur, &op, Res { k: *k, v: if *k == Rk::Unit { 0 } else { cur } })) {
            cur = v;
        }
        ops.push(op);
    }
    Case { ty, off: r.below(16) as u32, init, on: mode == "seq" && r.chance(1, 2) || mode != "seq" && !r.chance(1, 8), other: r.u64(), fill: r.u64(), ops, irqs: vec![] }
}

struct Stat {
    cases: u64,
    taken: u64,
    absent: u64,
    steps: u64,
    programs: u64,
    off: u64,
    panics: u64,
    distinct: HashSet<u64>,
}

fn report<C: Cpu>(m: &mut M<C>, mode: &str, i: u64, mut c: Case, why: String) -> ! {
    // ---- shrink: fewer interrupts, fewer operations, earlier points, plainer values
    let ord = mode == "ord";
    let mut why = why;
    let mut tries = 0;
    loop {
        let mut cands: Vec<Case> = vec![];
        for k in 0..c.irqs.len() {
            let mut x = c.clone();
            x.irqs.remove(k);
            cands.push(x);
        }
        if c.ops.len() > 1 {
            for k in 0..c.ops.len() {
                let mut x = c.clone();
                x.ops.remove(k);
                cands.push(x.clone());
                if !x.irqs.is_empty() {
                    // the interrupts come elsewhere then
                    x.irqs.truncate(1);
                    let o = m.run(&Case { irqs: vec![], ..x.clone() }, true, ord);
                    for p in o.points.iter().take(400) {
                        let mut y = x.clone();
                        y.irqs[0].at = p.0;
                        cands.push(y);
                    }
                }
            }
        }
        for k in 0..c.irqs.len() {
            if c.irqs[k].nested {
                let mut x = c.clone();
                x.irqs[k].nested = false;
                cands.push(x);
            }
        }
        if c.off != 0 {
            cands.push(Case { off: 0, ..c.clone() });
        }
        if c.other != 0 {
            cands.push(Case { other: 0, ..c.clone() });
        }
        let mut better = None;
        for x in cands {
            tries += 1;
            if tries > 4000 {
                break;
            }
            let o = m.run(&x, false, ord);
            let b = if ord { judge_ord(&x, &o) } else { o.bad };
            if let Some(b) = b {
                better = Some((x, b));
                break;
            }
        }
        match better {
            Some((x, b)) => {
                c = x;
                why = b;
            }
            None => break,
        }
    }
    println!("FAIL index={i} {} ## {why}", c.text(mode));
    std::process::exit(1);
}

fn judge_ord(c: &Case, o: &Out) -> Option<String> {
    if o.absent {
        return None;
    }
    let bad = ord::bad(ord::What::Op, &c.ops[0]);
    if let Some(b) = &o.bad {
        return Some(b.clone());
    }
    match (bad, o.panicked) {
        (true, false) => Some(format!("{:?} is not an ordering the operation accepts, and it did not panic", c.ops[0])),
        (false, true) => Some(format!("{:?} panicked", c.ops[0])),
        _ => None,
    }
}

impl<C: Cpu> M<C> {
    /// One call of the entry for generated programs; what is wrong about how it came back.
    fn gp_call(&mut self, k: u8, what: u8, inp: &[u8], body: &[u8], on: bool, seed: u64) -> Option<String> {
        let mut fr = Rng::new(seed, 8, 8);
        let req = self.lay.req;
        let mut b = vec![0u8; 144];
        b[0] = k;
        b[1] = what;
        b[8..8 + inp.len()].copy_from_slice(inp);
        self.mem.poke(req, &b);
        self.mem.poke(self.lay.var - 32, body);
        let mut cpu = self.cpu0.clone();
        cpu.set_status(on || self.vcs.is_some(), seed);
        if let Some(a) = self.vcs {
            self.mem.poke(a, &(on as u32).to_le_bytes());
            self.mem.poke(a + 4, &[0; 16]);
        }
        cpu.call(&mut self.mem, self.vop, req, self.lay.var, self.lay.top - 64, &mut || fr.u64());
        let (st, at) = (cpu.status(), cpu.clone());
        let mut n = 0u64;
        while !cpu.returned() {
            if let Err(e) = cpu.step(&mut self.mem) {
                return Some(e);
            }
            if let Some((a, w)) = self.mem.fault {
                return Some(format!("{w} at {a:#x} (pc {:#x})", cpu.pc()));
            }
            if cpu.pc() == self.vpanic {
                return Some("it panicked".into());
            }
            n += 1;
            if n > 3_000_000 {
                return Some("it has not come back after 3,000,000 instructions".into());
            }
        }
        GP_STEPS.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        if self.mem.d[req as usize + 2] != 1 {
            return Some("it came back without a result".into());
        }
        if cpu.status() != st {
            return Some(format!("afterwards the processor status is {:#x}, before it was {st:#x}", cpu.status()));
        }
        if let Some(w) = cpu.saved(&at) {
            return Some(w);
        }
        if let Some(a) = self.vcs {
            let w = |i: u32| self.mem.peek(a + 4 * i, 4) as u32;
            if w(0) != on as u32 || w(1) != w(2) || w(3) != 0 {
                return Some("critical sections were not left as they were entered".into());
            }
        }
        None
    }
    fn describe(&mut self, what: u8) -> Vec<u16> {
        let mark = self.mem.log.len();
        self.mem.logging = true;
        if let Some(w) = self.gp_call(0, what, &[], &[], true, 0) {
            panic!("description: {w}");
        }
        let t = self.lay.req as usize + 144;
        let r = |i: usize| u16::from_le_bytes(self.mem.d[t + 2 * i..t + 2 * i + 2].try_into().unwrap());
        let n = r(4) as usize;
        let v = (0..5).chain(8..8 + 3 * n).map(r).collect();
        self.mem.undo(mark);
        v
    }
}
static GP_STEPS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Generated programs on the atomics and on plain memory.
fn gp<C: Cpu>(m: &mut M<C>, a: &Args) {
    let d = m.describe(2);
    let e = m.describe(3);
    if d != e {
        println!("FAIL prog=0 input=0 ## layout: {d:?}, of plain values: {e:?}");
        std::process::exit(1);
    }
    let (nt, progs, sz) = (d[0] as usize, d[1] as usize, d[2] as usize);
    let fields: Vec<(usize, usize, u8)> = d[5..].chunks(3).map(|c| (c[0] as usize, c[1] as usize, c[2] as u8)).collect();
    let (seed, from, count, first) = (a.u("seed", 1), a.u("from", 0), a.u("count", 1), a.u("first", 0) as usize);
    let mut cases = 0;
    for k in first..progs.min(first + a.u("progs", 1 << 20) as usize) {
        for j in from..from + count {
            let (x, m0, mut r) = vcore::gpin::inputs(seed, k, j);
            let inp: Vec<u8> = x.iter().chain(m0.iter()).flat_map(|v| v.to_le_bytes()).collect();
            let mut body: Vec<u8> = (0..sz + 64).map(|i| i as u8 ^ 0xa5).collect();
            vcore::gpin::fill(&mut body[32..32 + sz], &fields, &mut r);
            let on = r.chance(1, 2);
            let other = r.u64();
            let mut got = vec![];
            for what in 0..2 {
                let mark = m.mem.log.len();
                m.mem.logging = true;
                let w = m.gp_call(k as u8, what, &inp, &body, on, other);
                let q = m.lay.req as usize;
                got.push((m.mem.d[q + 72..q + 144 + 16 * nt].to_vec(), m.mem.d[m.lay.var as usize - 32..m.lay.var as usize + sz + 32].to_vec()));
                m.mem.undo(mark);
                m.mem.fault = None;
                if let Some(w) = w {
                    println!("FAIL prog={k} input={j} ## {}{w}", if what == 1 { "on plain memory: " } else { "" });
                    std::process::exit(1);
                }
            }
            cases += 1;
            let (p, q) = (&got[0], &got[1]);
            for i in 0..p.0.len() / 8 {
                let v = |g: &Vec<u8>| u64::from_le_bytes(g[8 * i..8 * i + 8].try_into().unwrap());
                if v(&p.0) != v(&q.0) {
                    let name = if i < 8 { format!("m[{i}]") } else { format!("trail {}", (i - 8) / 2) };
                    println!("FAIL prog={k} input={j} ## {name} is {:#x}, on plain memory {:#x}", v(&p.0), v(&q.0));
                    std::process::exit(1);
                }
            }
            for i in 0..p.1.len() {
                if p.1[i] != q.1[i] {
                    let f = fields.iter().position(|f| i >= 32 + f.0 && i < 32 + f.0 + f.1);
                    println!("FAIL prog={k} input={j} ## byte {} of the structure (field {f:?}) is {:#x}, on plain memory {:#x}", i as i64 - 32, p.1[i], q.1[i]);
                    std::process::exit(1);
                }
            }
        }
    }
    println!("STAT cases={cases} programs={progs} instructions={}", GP_STEPS.load(std::sync::atomic::Ordering::Relaxed));
}

fn go<C: Cpu>(mut m: M<C>, a: &Args) {
    PTR_BITS.store(m.cpu0.ptr() as u32 * 8, std::sync::atomic::Ordering::Relaxed);
    let mode = a.s("mode").unwrap_or("isr").to_string();
    if mode == "gp" {
        return gp(&mut m, a);
    }
    if let Some(r) = a.s("replay") {
        let (mode, c) = Case::parse(r).expect("case");
        let o = m.run(&c, false, mode == "ord");
        let b = if mode == "ord" { judge_ord(&c, &o) } else { o.bad.clone() };
        println!("taken at {:x?}, {} instructions", o.taken, o.steps);
        if let Some(b) = b {
            println!("FAIL index=0 {} ## {b}", c.text(&mode));
            std::process::exit(1);
        }
        println!("PASS");
        return;
    }
    let tys: Vec<Ty> = match a.s("types") {
        None => Ty::ALL.to_vec(),
        Some(s) => s.split(',').map(|t| Ty::parse(t).expect("type")).collect(),
    };
    let tys: Vec<Ty> = tys.into_iter().filter(|t| !matches!(t, Ty::F16 | Ty::F128)).collect();
    let (seed, stream, start, n) = (a.u("seed", 1), a.u("stream", 0), a.u("start", 0), a.u("n", 1000));
    let end = std::time::Instant::now() + std::time::Duration::from_secs(a.u("secs", 3600));
    let max = a.u("points", 24) as usize;
    let mut st = Stat { cases: 0, taken: 0, absent: 0, steps: 0, programs: 0, off: 0, panics: 0, distinct: HashSet::new() };
    let mut samples = 0;
    for i in start..start + n {
        if i % 16 == 0 && std::time::Instant::now() > end {
            break;
        }
        let mut r = Rng::new(seed, stream, i);
        if mode == "ord" {
            let k = loop {
                let k = ord::gen(seed, stream, i.wrapping_mul(64).wrapping_add(r.below(64)), &tys[(i % tys.len() as u64) as usize..][..1]);
                if matches!(k.what, ord::What::Op) {
                    break k;
                }
            };
            let c = Case { ty: k.ty, off: r.below(16) as u32, init: k.init, on: r.chance(1, 2), other: r.u64(), fill: r.u64(), ops: vec![k.op], irqs: vec![] };
            let o = m.run(&c, false, true);
            st.steps += o.steps;
            if o.absent {
                st.absent += 1;
                continue;
            }
            st.cases += 1;
            st.panics += o.panicked as u64;
            if let Some(b) = judge_ord(&c, &o) {
                report(&mut m, &mode, i, c, b);
            }
            st.distinct.insert((c.ty as u64) << 24 | (k.op.k as u64) << 16 | (k.op.o as u64) << 8 | k.op.f as u64);
            if samples < 3 && o.panicked {
                samples += 1;
                println!("SAMPLE {} -> panicked", c.text(&mode));
            }
            continue;
        }
        let c = gen(&mut r, &tys, i, &mode);
        let o = m.run(&c, mode != "seq" && c.on, false);
        st.steps += o.steps;
        if o.absent {
            st.absent += 1;
            continue;
        }
        st.cases += 1;
        st.programs += 1;
        if let Some(b) = o.bad {
            report(&mut m, &mode, i, c, b);
        }
        if mode == "seq" {
            st.distinct.insert(mix(c.init as u64 ^ (c.init >> 64) as u64 ^ c.fill) ^ c.ty as u64);
            if samples < 2 {
                samples += 1;
                println!("SAMPLE {}", c.text(&mode));
            }
            continue;
        }
        if !c.on {
            st.off += 1;
            st.distinct.insert(mix((c.ty as u64) << 8 | c.ops[0].k as u64 | 1 << 40 | (c.ops[0].o as u64) << 20));
            continue;
        }
        // ---- where interrupts come
        let mut pts: Vec<u64> = o.points.iter().filter(|p| p.1).map(|p| p.0).collect();
        while pts.len() > max {
            let k = r.below(pts.len() as u64) as usize;
            pts.swap_remove(k);
        }
        let all: Vec<u64> = o.points.iter().map(|p| p.0).collect();
        if all.is_empty() {
            continue;
        }
        if all.len() <= max {
            pts = all.clone();
        }
        for _ in 0..6 {
            pts.push(r.pick(&all));
        }
        let cur = c.init;
        for p in pts {
            let mut x = c.clone();
            x.fill = r.u64();
            let one = |r: &mut Rng, at: u64| {
                let op = if r.chance(1, 4) { c.ops[0] } else { gen_op(r, c.ty, cur, c.ty.conc_ops()) };
                Irq { at, nested: r.chance(1, 3), op }
            };
            x.irqs = vec![one(&mut r, p)];
            match r.below(6) {
                0 => {
                    // another one inside the handler or soon after
                    let at = p + 1 + r.below(o.steps.max(2));
                    let q = one(&mut r, at);
                    x.irqs[0].nested = true;
                    x.irqs.push(q);
                }
                1 => x.irqs.push(one(&mut r, p)),
                2 => {
                    let at = p + o.steps + r.below(o.steps.max(2));
                    let q = one(&mut r, at);
                    x.irqs.push(q);
                }
                _ => {}
            }
            let y = m.run(&x, false, false);
            st.steps += y.steps;
            st.cases += 1;
            st.taken += y.taken.len() as u64;
            if let Some(b) = y.bad {
                report(&mut m, &mode, i, x, b);
            }
            if let Some(t) = y.taken.first() {
                if t.1 {
                    let h = mix(mix(mix((x.ty as u64) << 16 | (x.ops[0].k as u64) << 8 | x.irqs[0].op.k as u64) ^ t.0 as u64) ^ x.ops[0].o as u64);
                    if st.distinct.insert(h) && samples < 3 && y.taken.len() > samples {
                        samples += 1;
                        println!("SAMPLE {}", x.text(&mode));
                    }
                }
            }
        }
    }
    println!(
        "STAT cases={} distinct={} interrupts={} programs={} disabled={} absent={} instructions={} panics={}",
        st.cases, st.distinct.len(), st.taken, st.programs, st.off, st.absent, st.steps, st.panics
    );
}

fn main() {
    let a = Args(std::env::args().skip(1).map(|a| a.split_once('=').map_or((a.clone(), String::new()), |(k, v)| (k.into(), v.into()))).collect());
    let arch = a.s("arch").expect("arch").to_string();
    let e = Elf::load(a.s("fw").expect("fw"));
    let sym = |n: &str| *e.syms.get(n).unwrap_or_else(|| panic!("no symbol {n}")) as u32;
    let small = arch.starts_with("avr") || arch == "msp430";
    let mut mem = Mem::new(if small { 0x1_0000 } else { 0x10_0000 });
    let mut code = vec![0u8; 0x2_0000];
    for (va, d) in &e.segs {
        if arch.starts_with("avr") {
            if *va >= 0x80_0000 {
                let o = (*va - 0x80_0000) as usize;
                mem.d[o..o + d.len()].copy_from_slice(d);
            } else {
                code[*va as usize..*va as usize + d.len()].copy_from_slice(d);
            }
        } else {
            mem.d[*va as usize..*va as usize + d.len()].copy_from_slice(d);
        }
    }
    let lay = match arch.as_str() {
        "msp430" => Lay { req: 0x800, var: 0x1100, top: 0x2f00 },
        _ if small => Lay { req: 0x4000, var: 0x5080, top: 0xf000 },
        _ => Lay { req: 0x8_1000, var: 0x8_0100, top: 0xf_0000 },
    };
    let vcs = e.syms.get("vcs").map(|a| (*a & 0xffff_ffff) as u32 & if arch.starts_with("avr") { 0xffff } else { !0 });
    let (vop, vpanic) = (sym(if a.s("mode") == Some("gp") { "vgp" } else { "vop" }), sym("vpanic") & if arch.starts_with("arm") || arch.starts_with("thumb") { !1 } else { !0 });
    let fl = |n: &str| a.s(n).is_some();
    let limit = a.u("limit", 400_000);
    macro_rules! m {
        ($c:expr) => {
            go(M { mem, cpu0: $c, vop, vpanic, vcs, lay, limit, trace: a.s("trace").is_some() }, &a)
        };
    }
    match arch.as_str() {
        "rv32" => m!(Rv::new(false, fl("smode"))),
        "rv64" => m!(Rv::new(true, fl("smode"))),
        "armv4t" => m!(Arm::new(Kind::V4T, fl("fiq"))),
        "armv5te" => m!(Arm::new(Kind::V5TE, fl("fiq"))),
        "armv6m" => m!(Arm::new(Kind::V6M, false)),
        "avr" | "avrx" => {
            let w: Vec<u16> = code.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            m!(Avr::new(Rc::new(w), arch == "avrx"))
        }
        "msp430" => m!(Msp::new()),
        _ => panic!("arch"),
    }
}
