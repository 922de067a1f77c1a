//! fetch_update with scripted closures: they operate on the same variable and on others, nest
//! further fetch_updates, give a value, None, or panic.
use crate::op::*;
use crate::ord::{peek, poke};
use crate::real;
use crate::rng::Rng;
use core::fmt;

pub const NV: usize = 4;
pub const NS: usize = 4; // scripts
pub const NC: usize = 3; // calls with a script of their own
pub const NA: usize = 3; // actions of a call
const TOP: usize = 4; // fetch_updates of a case

#[derive(Clone, Copy)]
pub enum Act {
    Nop,
    Op(usize, Op),
    Nest(usize),
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum End {
    Some(u128),
    None,
    Panic,
}
#[derive(Clone, Copy)]
pub struct Call {
    pub acts: [Act; NA],
    pub end: End,
}
#[derive(Clone, Copy)]
pub struct Script {
    pub var: usize,
    pub o: u8,
    pub f: u8,
    pub calls: [Call; NC],
    /// what later calls give
    pub last: u128,
}
#[derive(Clone, Copy)]
pub struct Case {
    pub ty: [Ty; NV],
    pub init: [u128; NV],
    pub at: [usize; NV],
    pub s: [Script; NS],
    pub top: [usize; TOP],
    pub after: [Op; TOP],
}
pub const REGION: usize = 16384;
const NOP: Op = Op { k: K::Load, o: 0, f: 0, a: 0, b: 0 };
const EMPTY: Script = Script { var: 0, o: 0, f: 0, calls: [Call { acts: [Act::Nop; NA], end: End::None }; NC], last: 0 };

impl fmt::Display for Case {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for i in 0..NV {
            write!(f, "v{}: {} at {} = {:#x}; ", i, self.ty[i].name(), self.at[i], self.init[i])?;
        }
        write!(f, "runs")?;
        for t in self.top {
            write!(f, " s{t}")?;
        }
        for (i, s) in self.s.iter().enumerate() {
            write!(f, "; s{i} = v{}.fetch_update({}, {})", s.var, ORD[s.o as usize], ORD[s.f as usize])?;
            for c in &s.calls {
                write!(f, " {{")?;
                for a in &c.acts {
                    match a {
                        Act::Nop => {}
                        Act::Op(v, o) => write!(f, " v{v}.{o:?},")?,
                        Act::Nest(n) => write!(f, " s{n},")?,
                    }
                }
                match c.end {
                    End::Some(v) => write!(f, " Some({v:#x}) }}")?,
                    End::None => write!(f, " None }}")?,
                    End::Panic => write!(f, " panic }}")?,
                }
            }
            write!(f, " then Some({:#x})", s.last)?;
        }
        Ok(())
    }
}

/// `drop`: actions (numbered as generated) left out.
pub fn gen(seed: u64, stream: u64, i: u64, tys: &[Ty], panics: bool, drop: &dyn Fn(usize) -> bool) -> Case {
    let mut r = Rng::new(seed, stream, i);
    let ty = tys[(i % tys.len() as u64) as usize];
    let other = r.pick(tys);
    let mut c = Case { ty: [ty, ty, ty, other], init: [0; NV], at: [0; NV], s: [EMPTY; NS], top: [0; TOP], after: [NOP; TOP] };
    let sz = ty.size();
    let base = 64 + r.below(256) as usize * 16;
    // a neighbour, one that shares an internal lock, one of another type
    c.at = [base, base + sz, base + 16 * 67 * (1 + r.below(3) as usize), if r.chance(1, 2) { base + 16 * 67 * 4 } else { base + 16 * 67 * 5 + 32 }];
    for v in 0..NV {
        c.init[v] = gen_val(&mut r, c.ty[v], 0);
    }
    let mut id = 0;
    for s in 0..NS {
        let var = if r.chance(2, 3) { 0 } else { r.below(NV as u64) as usize };
        let t = c.ty[var];
        let (o, f) = gen_orders(&mut r, K::Upd);
        let mut sc = Script { var, o, f, calls: EMPTY.calls, last: gen_val(&mut r, t, c.init[var]) };
        let busy = r.below(3);
        for k in 0..NC {
            for a in 0..NA {
                let act = if r.below(3) >= busy {
                    Act::Nop
                } else if s + 1 < NS && r.chance(1, 4) {
                    Act::Nest(s + 1 + r.below((NS - s - 1) as u64) as usize)
                } else {
                    let v = if r.chance(1, 2) { var } else { r.below(NV as u64) as usize };
                    let near = c.init[v];
                    Act::Op(v, gen_op(&mut r, c.ty[v], near, c.ty[v].conc_ops()))
                };
                if !drop(id) {
                    sc.calls[k].acts[a] = act;
                }
                id += 1;
            }
            sc.calls[k].end = match r.below(if panics { 10 } else { 8 }) {
                0 => End::None,
                8 | 9 => End::Panic,
                // as it was: only comparing decides
                1 => End::Some(c.init[var]),
                _ => End::Some(gen_val(&mut r, t, c.init[var])),
            };
        }
        c.s[s] = sc;
    }
    for t in 0..TOP {
        c.top[t] = r.below(NS as u64) as usize;
        c.after[t] = gen_op(&mut r, c.ty[0], c.init[0], c.ty[0].conc_ops());
    }
    c
}

pub struct Ctx<'a> {
    pub c: &'a Case,
    pub p: [*mut u8; NV],
    pub vals: [u128; NV],
    pub err: Option<&'static str>,
    pub calls: u64,
    pub retries: u64,
    pub nested: u64,
    pub panics: u64,
    depth: u32,
}
impl<'a> Ctx<'a> {
    /// # Safety
    /// `mem` is 64-aligned and REGION bytes long.
    pub unsafe fn new(c: &'a Case, mem: *mut u8) -> Self {
        let mut x = Ctx { c, p: [mem; NV], vals: c.init, err: None, calls: 0, retries: 0, nested: 0, panics: 0, depth: 0 };
        for i in 0..REGION / 8 {
            (mem as *mut u64).add(i).write(0x3c3c_3c3c_3c3c_3c3c);
        }
        for v in 0..NV {
            x.p[v] = mem.add(c.at[v]);
            poke(x.p[v], c.ty[v].size(), c.init[v]);
        }
        x
    }
    fn bad(&mut self, e: &'static str) {
        if self.err.is_none() {
            self.err = Some(e);
        }
    }
    fn now(&self, v: usize) -> u128 {
        unsafe { peek(self.p[v], self.c.ty[v].size()) }
    }
    pub fn op(&mut self, v: usize, op: &Op) {
        let ty = self.c.ty[v];
        let r = unsafe { real::apply(ty, self.p[v], op) };
        let n = self.now(v);
        match step(ty, self.vals[v], op, r) {
            Some(e) if meets(ty, e, n) => {}
            _ => self.bad("an operation made by the closure gives a wrong result"),
        }
        self.vals[v] = n;
    }
    pub fn update(&mut self, s: usize) {
        let sc = self.c.s[s];
        let v = sc.var;
        let ty = self.c.ty[v];
        let mut n = 0;
        // what the last call was given and gave; None in `gave` after it said None
        let mut given = 0u128;
        let mut gave: Option<u128> = None;
        self.depth += 1;
        let x = core::cell::UnsafeCell::new(self);
        let p = unsafe { (&*x.get()).p[v] };
        let r = unsafe {
            real::update(ty, p, sc.o, sc.f, &mut |arg| {
                let me: &mut Ctx<'a> = &mut *x.get();
                if me.err.is_some() {
                    return None;
                }
                me.calls += 1;
                if arg != me.vals[v] {
                    me.bad("the closure is not given the current value");
                    return None;
                }
                if n > 0 {
                    me.retries += 1;
                    match gave {
                        None => {
                            me.bad("the closure is called again after it gave None");
                            return None;
                        }
                        // on other machines a weak compare-exchange may fail for no reason
                        Some(_) if given == arg && cfg!(any(target_arch = "x86_64", target_arch = "x86")) => {
                            me.bad("the closure is called again although the value has not changed");
                            return None;
                        }
                        _ => {}
                    }
                }
                if n > 1000 {
                    me.bad("the closure is called without end");
                    return None;
                }
                let call = if n < NC { Some(sc.calls[n]) } else { None };
                n += 1;
                given = arg;
                gave = Some(sc.last);
                if let Some(call) = call {
                    for a in &call.acts {
                        match *a {
                            Act::Nop => {}
                            Act::Op(w, op) => me.op(w, &op),
                            Act::Nest(m) => {
                                me.nested += 1;
                                me.update(m);
                            }
                        }
                        if me.err.is_some() {
                            return None;
                        }
                    }
                    gave = match call.end {
                        End::Some(w) => Some(w),
                        End::None => None,
                        End::Panic => {
                            me.panics += 1;
                            panic!("scripted")
                        }
                    };
                }
                gave
            })
        };
        let me: &mut Ctx<'a> = unsafe { &mut *x.get() };
        me.depth -= 1;
        if me.err.is_some() {
            return;
        }
        if n == 0 {
            return me.bad("the closure is not called");
        }
        match gave {
            Some(w) => {
                if r != (Res { k: Rk::Ok, v: given }) {
                    return me.bad("does not return Ok(previous value) though the closure gave a value");
                }
                if me.vals[v] != given {
                    return me.bad("a value computed from an outdated one was stored, or reported stored");
                }
                if me.now(v) != w {
                    return me.bad("the closure's value was not stored");
                }
                me.vals[v] = w;
            }
            None => {
                if r != (Res { k: Rk::Err, v: given }) {
                    return me.bad("does not return Err(the value) though the closure gave None");
                }
                if me.now(v) != me.vals[v] {
                    return me.bad("the value changed though the closure gave None");
                }
            }
        }
    }
    /// After each top-level fetch_update, whether it panicked or not.
    pub fn settle(&mut self, t: usize, mem: *const u8) {
        self.depth = 0;
        if self.err.is_some() {
            return;
        }
        for v in 0..NV {
            if self.now(v) != self.vals[v] {
                return self.bad("a variable does not hold what the completed operations left");
            }
        }
        let op = self.c.after[t];
        self.op(0, &op);
        // the bytes around the variables each time, the whole region word by word at the end
        for v in 0..NV {
            for i in self.c.at[v] - 32..self.c.at[v] + 48 {
                if !self.inside(i) && unsafe { *mem.add(i) } != 0x3c {
                    return self.bad("a byte outside the variables changed");
                }
            }
        }
        if t + 1 == TOP {
            for w in 0..REGION / 8 {
                if unsafe { *(mem as *const u64).add(w) } != 0x3c3c_3c3c_3c3c_3c3c {
                    for i in w * 8..w * 8 + 8 {
                        if !self.inside(i) && unsafe { *mem.add(i) } != 0x3c {
                            return self.bad("a byte outside the variables changed");
                        }
                    }
                }
            }
        }
    }
    fn inside(&self, i: usize) -> bool {
        (0..NV).any(|v| i >= self.c.at[v] && i < self.c.at[v] + self.c.ty[v].size())
    }
}
