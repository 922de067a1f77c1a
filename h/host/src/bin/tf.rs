//! Generated programs of 2..3 threads under generated instruction-level schedules.
//! seed= stream= from= count= types= mode=lin|lock|free|mix|first samples= | show=i | replay='tf ...'
#[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
fn main() {}
#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
fn main() {
    x::main()
}
#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
mod x {
    use std::fmt::Write as _;
    use std::ptr::addr_of_mut;
    use vcore::op::*;
    use vcore::real;
    use vcore::rng::{mix, Rng};
    use vhost::lin::{linearizable, Ev};
    use vhost::tf::{self, Outcome, Seg};
    use vhost::*;

    const BASE: usize = 0x2000_0000;
    const REGION: usize = 1 << 16;

    #[derive(Clone, Copy, PartialEq, Eq)]
    enum Via {
        Lib,
        /// the harness's own instructions on as_ptr(): only legal when the type says it is lock-free
        Raw,
    }
    #[derive(Clone, Copy)]
    struct Step {
        var: usize,
        via: Via,
        op: Op,
    }
    #[derive(Clone)]
    struct Case {
        ty: Ty,
        init: u128,
        addr: [usize; 2],
        th: Vec<Vec<Step>>,
        segs: Vec<Seg>,
        q: u32,
        frozen: u32,
        fork: bool,
        /// Stores made before (by this many, the lock's counter is advanced).
        warm: u64,
    }

    impl Case {
        fn text(&self) -> String {
            let mut s = format!("tf {} init={:#x} a0={:#x} a1={:#x} frozen={} fork={} warm={} q={} sched=", self.ty.name(), self.init, self.addr[0], self.addr[1], self.frozen, self.fork as u8, self.warm, self.q);
            for (i, g) in self.segs.iter().enumerate() {
                let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, g.tid, g.steps);
            }
            for (t, ops) in self.th.iter().enumerate() {
                for o in ops {
                    let _ = write!(s, "; t{} v{} {} {:?}", t, o.var, if o.via == Via::Raw { "raw" } else { "lib" }, o.op);
                }
            }
            s
        }
        fn parse(s: &str) -> Option<Case> {
            let mut it = s.split(';');
            let h = it.next()?.trim();
            let mut w = h.split_whitespace();
            if w.next()? != "tf" {
                return None;
            }
            let ty = Ty::parse(w.next()?)?;
            let get = |k: &str| h.split_whitespace().find_map(|x| x.split_once('=').filter(|(a, _)| *a == k).map(|(_, v)| v));
            let mut c = Case {
                ty,
                init: hex(get("init")?)?,
                addr: [hex(get("a0")?)? as usize, hex(get("a1")?)? as usize],
                th: vec![],
                segs: vec![],
                q: get("q")?.parse().ok()?,
                frozen: get("frozen")?.parse().ok()?,
                fork: get("fork")? == "1",
                warm: get("warm")?.parse().ok()?,
            };
            for g in get("sched")?.split(',').filter(|x| !x.is_empty()) {
                let (a, b) = g.split_once(':')?;
                c.segs.push(Seg { tid: a.parse().ok()?, steps: b.parse().ok()? });
            }
            for o in it {
                let o = o.trim();
                let mut p = o.splitn(4, ' ');
                let t: usize = p.next()?.strip_prefix('t')?.parse().ok()?;
                let var = p.next()?.strip_prefix('v')?.parse().ok()?;
                let via = if p.next()? == "raw" { Via::Raw } else { Via::Lib };
                while c.th.len() <= t {
                    c.th.push(vec![]);
                }
                c.th[t].push(Step { var, via, op: Op::parse(p.next()?)? });
            }
            Some(c)
        }
    }

    fn gen(seed: u64, stream: u64, i: u64, tys: &[Ty], mode: &str, warm: u64) -> Case {
        let mut r = Rng::new(seed, stream, i);
        let ty = tys[(i % tys.len() as u64) as usize];
        let lf = real::info(ty).2;
        let init = gen_val(&mut r, ty, 0);
        let a0 = if warm > 0 { BASE + 64 } else { BASE + 64 + r.below(1024) as usize * 16 };
        let a1 = match r.below(5) {
            0 | 1 => a0 + 16 * 67 * (1 + r.below(3) as usize),
            2 | 3 => a0 + 16,
            _ => BASE + 32768 + r.below(1024) as usize * 16,
        };
        let nt = if r.chance(1, 5) { 3 } else { 2 };
        let two = r.chance(if mode == "lock" { 2 } else { 1 }, 4);
        let ks = ty.conc_ops();
        let mut pool = vec![init];
        let mut th = vec![];
        // half of the programs concentrate on reads against writes, or on one pair of operations
        let focus: Option<[K; 3]> = match r.below(4) {
            0 => Some([K::Load, K::Store, r.pick(ks)]),
            1 => Some([K::Load, r.pick(ks), r.pick(ks)]),
            2 => Some([r.pick(ks), r.pick(ks), r.pick(ks)]),
            _ => None,
        };
        // a third of the programs: one thread reads while the others make chains of partial changes
        let chain = r.chance(1, 3);
        for t in 0..nt {
            let mut v = vec![];
            if chain {
                let n = if t == 0 { 1 + r.below(2) } else { 2 + r.below(if nt == 3 { 2 } else { 5 }) };
                let mut cur = init;
                for _ in 0..n {
                    let op = if t == 0 && r.chance(4, 5) {
                        gen_op(&mut r, ty, cur, &[K::Load])
                    } else if t == 0 || r.chance(1, 4) {
                        gen_op(&mut r, ty, cur, ks)
                    } else {
                        let mut op = gen_op(&mut r, ty, cur, &[K::Store, K::Store, K::Swap, K::Cas]);
                        let new = part_changed(&mut r, ty, cur, &pool);
                        if op.k == K::Cas {
                            (op.a, op.b) = (cur, new);
                        } else {
                            op.a = new;
                        }
                        op
                    };
                    cur = vcore::seq::predict(ty, cur, &op);
                    pool.push(cur);
                    v.push(Step { var: if two { r.below(2) as usize } else { 0 }, via: Via::Lib, op });
                }
                th.push(v);
                continue;
            }
            let n = 1 + r.below(if nt == 3 { 2 } else { 3 }) as usize;
            for _ in 0..n {
                let cur = r.pick(&pool);
                let mut op = match &focus {
                    Some(f) => gen_op(&mut r, ty, cur, f),
                    None => gen_op(&mut r, ty, cur, ks),
                };
                if op.k == K::Store && r.chance(1, 2) {
                    // all bytes different from the others
                    op.a = (0x0101_0101_0101_0101_0101_0101_0101_0101u128.wrapping_mul(r.below(256) as u128)) & ty.mask();
                }
                pool.push(vcore::seq::predict(ty, cur, &op));
                let raw = lf && (mode == "mix") && r.chance(1, 3) && raw_ok(ty, op.k);
                v.push(Step { var: if two { r.below(2) as usize } else { 0 }, via: if raw { Via::Raw } else { Via::Lib }, op });
            }
            th.push(v);
        }
        let first = mode == "first";
        let warm = if warm > 0 { warm + r.below(16) } else { 0 };
        let total = |t: usize| -> u64 { th[t].len() as u64 * if first { 500 } else { 90 } };
        let mut segs = vec![];
        match if chain { 20 + r.below(3) } else { r.below(10) } {
            20 | 21 => {
                // the reader stands still while the writers finish, or get somewhere
                segs.push(Seg { tid: 0, steps: 1 + r.below(if first { 500 } else { 60 }) as u32 });
                for t in 1..nt {
                    segs.push(Seg { tid: t as u8, steps: if r.chance(2, 3) { tf::WHOLE } else { 1 + r.below(total(t)) as u32 } });
                }
            }
            22 => {
                segs.push(Seg { tid: 0, steps: 1 + r.below(40) as u32 });
                for _ in 0..10 {
                    segs.push(Seg { tid: 1 + r.below(nt as u64 - 1) as u8, steps: 20 + r.below(100) as u32 });
                    segs.push(Seg { tid: 0, steps: 1 + r.below(5) as u32 });
                }
            }
            0..=3 => {
                let t = r.below(nt as u64) as usize;
                segs.push(Seg { tid: t as u8, steps: 1 + r.below(total(t)) as u32 });
                let o = (t + 1 + r.below(nt as u64 - 1) as usize) % nt;
                segs.push(Seg { tid: o as u8, steps: tf::WHOLE });
            }
            4..=6 => {
                for _ in 0..2 + r.below(4) {
                    let t = r.below(nt as u64) as usize;
                    segs.push(Seg { tid: t as u8, steps: 1 + r.below(150) as u32 });
                }
            }
            _ => {
                // fine-grained, after a common start
                for t in 0..nt {
                    segs.push(Seg { tid: t as u8, steps: 1 + r.below(total(t)) as u32 });
                }
                for _ in 0..5 + r.below(50) {
                    segs.push(Seg { tid: r.below(nt as u64) as u8, steps: 1 + r.below(12) as u32 });
                }
            }
        }
        let frozen = if lf && (mode == "free") { 1 << segs[0].tid } else { 0 };
        Case { ty, init, addr: [a0, a1], th, segs, q: 20 + r.below(180) as u32, frozen, fork: first || warm > 0, warm }
    }

    /// `cur` with a bit, a byte or a chunk changed, an earlier value again, or another one.
    fn part_changed(r: &mut Rng, ty: Ty, cur: u128, pool: &[u128]) -> u128 {
        let g = match r.below(10) {
            0 | 1 => return r.pick(pool),
            2 => 1,
            3 => 8,
            4 | 5 => ty.bits().min(32),
            6..=8 => (ty.bits() / 2).max(8),
            _ => ty.bits(),
        };
        let sh = r.below((ty.bits() / g) as u64) as u32 * g;
        let m = (if g >= 128 { !0 } else { (1u128 << g) - 1 }) << sh;
        let new = match r.below(3) {
            0 => !cur,
            1 => cur.wrapping_add(1 << sh),
            _ => r.u128(),
        };
        (cur & !m | new & m) & ty.mask()
    }
    fn raw_ok(ty: Ty, k: K) -> bool {
        matches!(k, K::Load | K::Store | K::Swap | K::Cas | K::FAdd | K::FXor | K::FMax | K::BitSet) && ty.class() == Class::Int && (ty.bits() < 128 || cfg!(target_arch = "x86_64"))
    }
    #[cfg(target_arch = "x86_64")]
    unsafe fn cx16(p: *mut u128, old: u128, new: u128) -> u128 {
        let (mut lo, mut hi) = (old as u64, (old >> 64) as u64);
        std::arch::asm!("xchg {b}, rbx", "lock cmpxchg16b [rdi]", "mov rbx, {b}",
            b = inout(reg) new as u64 => _, in("rcx") (new >> 64) as u64, inout("rax") lo, inout("rdx") hi, in("rdi") p);
        lo as u128 | (hi as u128) << 64
    }
    #[cfg(target_arch = "x86")]
    unsafe fn cx16(_: *mut u128, _: u128, _: u128) -> u128 {
        unreachable!()
    }
    /// Compare-exchange by the harness's own means: returns the value seen.
    unsafe fn raw_cas(ty: Ty, p: *mut u8, old: u128, new: u128) -> u128 {
        use std::sync::atomic::*;
        const O: Ordering = Ordering::SeqCst;
        macro_rules! c {
            ($A:ty, $t:ty) => {{
                match (*(p as *const $A)).compare_exchange(old as $t, new as $t, O, O) {
                    Ok(v) | Err(v) => v as u128,
                }
            }};
        }
        match ty.bits() {
            8 => c!(AtomicU8, u8),
            16 => c!(AtomicU16, u16),
            32 => c!(AtomicU32, u32),
            64 => c!(AtomicU64, u64),
            _ => cx16(p as *mut u128, old, new),
        }
    }
    unsafe fn raw_apply(ty: Ty, p: *mut u8, op: &Op) -> Res {
        let mut cur = raw_cas(ty, p, 0, 0);
        loop {
            let (new, r) = match op.k {
                K::Load => return Res { k: Rk::Val, v: cur },
                K::Cas => {
                    if cur != op.a & ty.mask() {
                        return Res { k: Rk::Err, v: cur };
                    }
                    (op.b & ty.mask(), Res { k: Rk::Ok, v: cur })
                }
                _ => {
                    let r = match op.k {
                        K::Store => Res { k: Rk::Unit, v: 0 },
                        K::BitSet => Res { k: Rk::Bit, v: cur >> (op.a as u32 % ty.bits()) & 1 },
                        _ => Res { k: Rk::Val, v: cur },
                    };
                    match step(ty, cur, op, r) {
                        Some(Exp::Is(n)) => (n, r),
                        _ => return Res { k: Rk::Unit, v: 1 },
                    }
                }
            };
            let seen = raw_cas(ty, p, cur, new);
            if seen == cur {
                return r;
            }
            cur = seen;
        }
    }

    // what the contexts read and write; preallocated, they must not allocate
    static mut CASE: *const Case = std::ptr::null();
    const NIL: Ev = Ev { tid: 0, op: Op { k: K::Load, o: 0, f: 0, a: 0, b: 0 }, res: Res { k: Rk::Unit, v: 0 }, inv: 0, ret: 0 };
    static mut EVS: [[Ev; 8]; 4] = [[NIL; 8]; 4];

    fn body(id: usize) {
        unsafe {
            let c = &*CASE;
            for (i, s) in c.th[id].iter().enumerate() {
                let e = &mut *addr_of_mut!(EVS[id][i]);
                let p = c.addr[s.var] as *mut u8;
                e.inv = tf::now();
                let r = match s.via {
                    Via::Lib => real::apply(c.ty, p, &s.op),
                    Via::Raw => raw_apply(c.ty, p, &s.op),
                };
                e.ret = tf::now();
                e.res = r;
                e.op = s.op;
                e.tid = id;
            }
        }
    }
    unsafe fn peek(ty: Ty, a: usize) -> u128 {
        let mut b = [0u8; 16];
        std::ptr::copy_nonoverlapping(a as *const u8, b.as_mut_ptr(), ty.size());
        u128::from_le_bytes(b)
    }
    struct Outc {
        fail: Option<String>,
        mid: u64,
        clock: u64,
        nontrivial: bool,
    }
    /// Stores made so far at the first variable's address.
    static mut WARMED: u64 = 0;
    fn warm_up(c: &Case, to: u64) {
        unsafe {
            let p = c.addr[0] as *mut u8;
            while WARMED < to {
                let n = (to - WARMED).min(1 << 20);
                real::store_many(c.ty, p, n, WARMED as u32);
                WARMED += n;
            }
        }
    }
    fn run_case(c: &Case) -> Outc {
        warm_up(c, c.warm);
        unsafe {
            std::ptr::write_bytes((BASE) as *mut u8, 0xa5, REGION);
            for a in c.addr {
                let b = c.init.to_le_bytes();
                std::ptr::copy_nonoverlapping(b.as_ptr(), a as *mut u8, c.ty.size());
            }
            CASE = c;
            let limit = if c.frozen != 0 { 30_000 } else if c.fork { 400_000 } else { 200_000 };
            let rep = tf::run(c.th.len(), body, &c.segs, c.q, c.frozen, limit, false);
            let mut fail = None;
            let mut nontrivial = false;
            if let Outcome::Stuck(t) = rep.outcome {
                let done: Vec<String> = (0..c.th.len()).map(|i| format!("t{}: {} instructions", i, rep.steps[i])).collect();
                fail = Some(format!(
                    "no progress: {} has not finished after {} instructions ({}){}",
                    t,
                    rep.clock,
                    done.join(", "),
                    if c.frozen != 0 { format!("; the type says is_lock_free and thread mask {} is suspended", c.frozen) } else { String::new() }
                ));
            } else {
                for v in 0..2 {
                    let mut evs = vec![];
                    for (t, ops) in c.th.iter().enumerate() {
                        for (i, s) in ops.iter().enumerate() {
                            if s.var == v {
                                evs.push(EVS[t][i]);
                            }
                        }
                    }
                    let fin = peek(c.ty, c.addr[v]);
                    let overlap = evs.iter().any(|a| evs.iter().any(|b| a.tid != b.tid && a.inv < b.ret && b.inv < a.ret && (fin != c.init || a.op.k != b.op.k)));
                    nontrivial |= overlap && rep.mid > 0;
                    if !linearizable(c.ty, c.init, &evs, fin) {
                        let mut d = format!("not linearizable: variable {} initially {:#x}, finally {:#x};", v, c.init, fin);
                        evs.sort_by_key(|e| e.inv);
                        for e in &evs {
                            let _ = write!(d, " t{}[{}..{}] {:?} -> {:?};", e.tid, e.inv, e.ret, e.op, e.res);
                        }
                        fail = Some(d);
                    }
                }
                // bytes around the variables
                let img = std::slice::from_raw_parts(BASE as *const u8, REGION);
                for (i, b) in img.iter().enumerate() {
                    let a = BASE + i;
                    if *b != 0xa5 && !c.addr.iter().any(|v| a >= *v && a < *v + c.ty.size()) && fail.is_none() {
                        fail = Some(format!("byte at {:#x} outside the variables at {:#x} and {:#x} changed", a, c.addr[0], c.addr[1]));
                    }
                }
            }
            Outc { fail, mid: rep.mid, clock: rep.clock, nontrivial }
        }
    }
    fn run_forked(c: &Case) -> Outc {
        if !c.fork {
            return run_case(c);
        }
        // a fresh process state per case: nothing detected yet
        unsafe {
            let mut fds = [0; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                tf::arm_timer();
                let o = run_case(c);
                let s = format!("{} {} {} {}", o.mid, o.clock, o.nontrivial as u8, o.fail.unwrap_or_default());
                libc::write(fds[1], s.as_ptr().cast(), s.len());
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let mut buf = vec![0u8; 8192];
            let mut n = 0;
            loop {
                let k = libc::read(fds[0], buf.as_mut_ptr().add(n).cast(), buf.len() - n);
                if k <= 0 {
                    break;
                }
                n += k as usize;
            }
            libc::close(fds[0]);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let s = String::from_utf8_lossy(&buf[..n]).to_string();
            if st != 0 {
                return Outc { fail: Some(format!("the program dies (status {st:#x}) {s}")), mid: 0, clock: 0, nontrivial: false };
            }
            let mut w = s.splitn(4, ' ');
            let mid = w.next().unwrap().parse().unwrap();
            let clock = w.next().unwrap().parse().unwrap();
            let nt = w.next().unwrap() == "1";
            let f = w.next().unwrap_or("");
            Outc { fail: (!f.is_empty()).then(|| f.to_string()), mid, clock, nontrivial: nt }
        }
    }

    pub fn main() {
        let a = Args::get();
        install_crash_handler();
        unsafe {
            let p = libc::mmap(BASE as *mut _, REGION, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
            assert_eq!(p as usize, BASE);
        }
        tf::install();
        if a.s("replay").is_some() {
            let t = std::env::args().find(|x| x.starts_with("replay=")).unwrap();
            let c = Case::parse(&t["replay=".len()..]).expect("case");
            match run_forked(&c).fail {
                None => println!("PASS"),
                Some(f) => {
                    println!("FAIL {f}");
                    std::process::exit(1)
                }
            }
            return;
        }
        let d: Vec<Ty> = vec![Ty::U128, Ty::I128];
        let tys = a.tys(&d);
        let mode = a.s("mode").unwrap_or("lin").to_string();
        let (seed, stream) = (a.u("seed", 1), a.u("stream", 0));
        if let Some(i) = a.s("show") {
            println!("case {}", gen(seed, stream, i.parse().unwrap(), &tys, &mode, a.u("warm", 0)).text());
            return;
        }
        if mode != "first" {
            // settle run-time detection; otherwise every forked case starts from scratch
            for t in &tys {
                let mut w = [0u128; 1];
                unsafe { real::apply(*t, w.as_mut_ptr().cast(), &NIL.op) };
            }
        }
        let (from, count) = (a.u("from", 0), a.u("count", 1000));
        let secs = a.u("secs", 0);
        let warm = a.u("warm", 0);
        if warm > 0 {
            warm_up(&gen(seed, stream, 0, &tys, &mode, warm), warm);
        }
        let t0 = std::time::Instant::now();
        let (mut n, mut mid, mut clock, mut nt, mut samples) = (0u64, 0u64, 0u64, 0u64, a.u("samples", 0));
        let mut seen = std::collections::HashSet::new();
        let mut bad = false;
        for i in from..from + count {
            if secs > 0 && i % 64 == 0 && t0.elapsed().as_secs() >= secs {
                break;
            }
            tick(i);
            let c = gen(seed, stream, i, &tys, &mode, warm);
            let o = run_forked(&c);
            n += 1;
            mid += o.mid;
            clock += o.clock;
            if o.nontrivial {
                let h = c.text().bytes().fold(0u64, |h, b| mix(h ^ b as u64));
                nt += seen.insert(h) as u64;
                if samples > 0 {
                    samples -= 1;
                    println!("SAMPLE {}", c.text());
                }
            }
            if let Some(f) = o.fail {
                println!("FAIL index={} {} ## {}", i, c.text(), f);
                bad = true;
                break;
            }
        }
        println!("STAT cases={n} distinct={nt} instructions={clock} preemptions_inside_operations={mid}");
        std::process::exit(bad as i32);
    }
}
