//! Generated programs of 1..3 threads in a process whose CPUID and XGETBV are answered by a generated CPU model.
//! The program is single-stepped; what it executes is held against what the model has.
//! seed= stream= from= count= samples= | show=i | replay='det ...'
#[cfg(not(target_arch = "x86_64"))]
fn main() {}
#[cfg(target_arch = "x86_64")]
fn main() {
    x::main()
}
#[cfg(target_arch = "x86_64")]
mod x {
    use std::fmt::Write as _;
    use std::ptr::addr_of_mut;
    use vcore::op::*;
    use vcore::real;
    use vcore::rng::{mix, Rng};
    use vhost::lin::{linearizable, Ev};
    use vhost::tf::{self, Outcome, Seg};
    use vhost::*;

    const BASE: usize = 0x2000_0000;
    const REGION: usize = 1 << 14;
    const CX: u32 = 1 << 13;
    const XSAVE: u32 = 1 << 26;
    const OSXSAVE: u32 = 1 << 27;
    const AVX: u32 = 1 << 28;
    const VENDORS: [&[u8; 12]; 6] = [b"GenuineIntel", b"AuthenticAMD", b"CentaurHauls", b"  Shanghai  ", b"HygonGenuine", b"KVMKVMKVM\0\0\0"];
    /// The configuration itself promises these.
    const STATIC_CX: bool = cfg!(target_feature = "cmpxchg16b");
    const STATIC_AVX: bool = cfg!(target_feature = "avx");
    /// There is detection at all.
    const DETECTS: bool = !cfg!(any(portable_atomic_no_outline_atomics, portable_atomic_test_detect_false)) && !STATIC_CX;
    const DETECTS_AVX: bool = !cfg!(any(portable_atomic_no_outline_atomics, portable_atomic_test_detect_false));

    /// What CPUID.1:ECX and XCR0 say, to the threads not in the mask `other` and to those in it.
    #[derive(Clone, Copy)]
    struct Model {
        vendor: usize,
        max: u32,
        eax1: u32,
        edx1: u32,
        ecx: [u32; 2],
        xcr0: [u64; 2],
        other: u32,
        seven: u32,
    }
    impl Model {
        fn avx(&self, i: usize) -> bool {
            self.ecx[i] & (OSXSAVE | AVX) == OSXSAVE | AVX && self.xcr0[i] & 6 == 6
        }
        fn cx(&self, i: usize) -> bool {
            self.ecx[i] & CX != 0
        }
        fn steady(&self) -> bool {
            self.other == 0
        }
        fn text(&self) -> String {
            format!("{},{},{:#x},{:#x},{:#x},{:#x},{:#x},{:#x},{},{:#x}", self.vendor, self.max, self.eax1, self.edx1, self.ecx[0], self.xcr0[0], self.ecx[1], self.xcr0[1], self.other, self.seven)
        }
        fn parse(s: &str) -> Option<Model> {
            let v: Vec<u64> = s.split(',').map(|x| x.strip_prefix("0x").map_or_else(|| x.parse().ok(), |h| u64::from_str_radix(h, 16).ok())).collect::<Option<_>>()?;
            (v.len() == 10).then(|| Model {
                vendor: v[0] as usize,
                max: v[1] as u32,
                eax1: v[2] as u32,
                edx1: v[3] as u32,
                ecx: [v[4] as u32, v[6] as u32],
                xcr0: [v[5], v[7]],
                other: v[8] as u32,
                seven: v[9] as u32,
            })
        }
    }
    #[derive(Clone, Copy)]
    enum Do {
        Op(Op),
        /// is_lock_free
        Ask,
    }
    #[derive(Clone, Copy)]
    struct Step {
        var: usize,
        what: Do,
    }
    #[derive(Clone)]
    struct Case {
        ty: [Ty; 2],
        init: [u128; 2],
        addr: [usize; 2],
        m: Model,
        th: Vec<Vec<Step>>,
        segs: Vec<Seg>,
        q: u32,
    }
    impl Case {
        fn text(&self) -> String {
            let mut s = format!("det t0={} t1={} i0={:#x} i1={:#x} a0={:#x} a1={:#x} cpu={} q={} sched=", self.ty[0].name(), self.ty[1].name(), self.init[0], self.init[1], self.addr[0], self.addr[1], self.m.text(), self.q);
            for (i, g) in self.segs.iter().enumerate() {
                let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, g.tid, g.steps);
            }
            for (t, ops) in self.th.iter().enumerate() {
                for o in ops {
                    let _ = match o.what {
                        Do::Op(op) => write!(s, "; t{} v{} {:?}", t, o.var, op),
                        Do::Ask => write!(s, "; t{} v{} ask", t, o.var),
                    };
                }
            }
            s
        }
        fn parse(s: &str) -> Option<Case> {
            let mut it = s.split(';');
            let h = it.next()?.trim();
            if h.split_whitespace().next()? != "det" {
                return None;
            }
            let get = |k: &str| h.split_whitespace().find_map(|x| x.split_once('=').filter(|(a, _)| *a == k).map(|(_, v)| v));
            let mut c = Case {
                ty: [Ty::parse(get("t0")?)?, Ty::parse(get("t1")?)?],
                init: [hex(get("i0")?)?, hex(get("i1")?)?],
                addr: [hex(get("a0")?)? as usize, hex(get("a1")?)? as usize],
                m: Model::parse(get("cpu")?)?,
                th: vec![],
                segs: vec![],
                q: get("q")?.parse().ok()?,
            };
            for g in get("sched")?.split(',').filter(|x| !x.is_empty()) {
                let (a, b) = g.split_once(':')?;
                c.segs.push(Seg { tid: a.parse().ok()?, steps: b.parse().ok()? });
            }
            for o in it {
                let mut p = o.trim().splitn(3, ' ');
                let t: usize = p.next()?.strip_prefix('t')?.parse().ok()?;
                let var = p.next()?.strip_prefix('v')?.parse().ok()?;
                let w = p.next()?;
                while c.th.len() <= t {
                    c.th.push(vec![]);
                }
                c.th[t].push(Step { var, what: if w == "ask" { Do::Ask } else { Do::Op(Op::parse(w)?) } });
            }
            Some(c)
        }
    }
    fn gen_model(r: &mut Rng) -> Model {
        let one = |r: &mut Rng| -> (u32, u64) {
            let other = r.u64() as u32 & !(CX | XSAVE | OSXSAVE | AVX);
            let other = if r.chance(1, 3) { other } else { 0x0020_2203 | other & 0x00c8_0008 };
            let ok = [0x7u64, 0xe7, 0x2e7, 0x1f, r.u64() | 7];
            let bad = [0u64, 1, 2, 3, 4, 5, 0xe1, 0xe3, 0xe5, 0x200, 0x203, (r.u64() | 1) & !6, (r.u64() | 1) & !2, (r.u64() | 1) & !4];
            match r.below(10) {
                // everything; no AVX; the OS keeps no AVX state; odd combinations
                0..=2 => (other | CX | XSAVE | OSXSAVE | AVX, r.pick(&ok)),
                3 => (other | CX, 0),
                4 => (other | CX | XSAVE | OSXSAVE | AVX, r.pick(&bad)),
                5 => (other | CX | XSAVE | AVX, 0),
                6 => (other | XSAVE | OSXSAVE | AVX, r.pick(&ok)),
                7 => (other, 0),
                8 => (other | CX | XSAVE | OSXSAVE, r.pick(&ok)),
                _ => (other | r.u64() as u32 & (CX | XSAVE | OSXSAVE | AVX), if r.chance(1, 2) { r.pick(&ok) } else { r.pick(&bad) }),
            }
        };
        let (a, b) = (one(r), one(r));
        let mut m = Model {
            vendor: r.below(VENDORS.len() as u64) as usize,
            max: r.pick(&[1, 2, 4, 6, 7, 0xd, 0x16, 0x20]),
            eax1: r.u64() as u32,
            edx1: r.u64() as u32 | 0x0700_8111,
            ecx: [a.0, b.0],
            xcr0: [a.1, b.1],
            other: 0,
            seven: r.u64() as u32,
        };
        if r.chance(1, 5) {
            m.other = 1 + r.below(7) as u32;
        } else {
            m.ecx[1] = m.ecx[0];
            m.xcr0[1] = m.xcr0[0];
        }
        for i in 0..2 {
            if STATIC_CX {
                m.ecx[i] |= CX;
            }
            if STATIC_AVX {
                m.ecx[i] |= XSAVE | OSXSAVE | AVX;
                m.xcr0[i] |= 7;
            }
        }
        m
    }
    fn gen(seed: u64, stream: u64, i: u64) -> Case {
        let mut r = Rng::new(seed, stream, i);
        let tys: &[Ty] = if HAS_F128 { &[Ty::U128, Ty::I128, Ty::F128] } else { &[Ty::U128, Ty::I128] };
        let ty = [r.pick(tys), r.pick(tys)];
        let init = [gen_val(&mut r, ty[0], 0), gen_val(&mut r, ty[1], 0)];
        let a0 = BASE + 64 + r.below(100) as usize * 16;
        let a1 = if r.chance(1, 2) { a0 + 16 } else { BASE + 8192 + r.below(100) as usize * 16 };
        let m = gen_model(&mut r);
        let nt = 1 + r.below(3) as usize;
        let one_var = nt > 1 && r.chance(1, 2);
        let mut th = vec![];
        let mut pool = [vec![init[0]], vec![init[1]]];
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(if nt == 1 { 6 } else { 3 }) {
                let var = if one_var { 0 } else { r.below(2) as usize };
                let t = ty[var];
                let what = if r.chance(1, 4) {
                    Do::Ask
                } else {
                    let cur = r.pick(&pool[var]);
                    let op = match r.below(3) {
                        0 => gen_op(&mut r, t, cur, &[K::Load, K::Store]),
                        1 => gen_op(&mut r, t, cur, &[K::Load, K::Store, K::Swap, K::Cas, K::CasW]),
                        _ => gen_op(&mut r, t, cur, t.conc_ops()),
                    };
                    pool[var].push(vcore::seq::predict(t, cur, &op));
                    Do::Op(op)
                };
                v.push(Step { var, what });
            }
            th.push(v);
        }
        let mut segs = vec![];
        if nt > 1 {
            match r.below(3) {
                0 => {
                    // one stands still somewhere in its first call while another gets through
                    let t = r.below(nt as u64) as u8;
                    segs.push(Seg { tid: t, steps: 1 + r.below(200) as u32 });
                    segs.push(Seg { tid: (t + 1) % nt as u8, steps: 1 + r.below(2000) as u32 });
                }
                1 => {
                    for _ in 0..2 + r.below(6) {
                        segs.push(Seg { tid: r.below(nt as u64) as u8, steps: 1 + r.below(120) as u32 });
                    }
                }
                _ => {
                    for _ in 0..5 + r.below(50) {
                        segs.push(Seg { tid: r.below(nt as u64) as u8, steps: 1 + r.below(25) as u32 });
                    }
                }
            }
        }
        Case { ty, init, addr: [a0, a1], m, th, segs, q: 20 + r.below(180) as u32 }
    }

    // ---- the machine
    #[derive(Clone, Copy)]
    struct Did {
        cx: u32,
        wide: u32,
    }
    static mut MODEL: Model = Model { vendor: 0, max: 0, eax1: 0, edx1: 0, ecx: [0; 2], xcr0: [0; 2], other: 0, seven: 0 };
    static mut CPUIDS: u32 = 0;
    static mut XGETBVS: u32 = 0;
    static mut DID: [Did; 4] = [Did { cx: 0, wide: 0 }; 4];
    static mut BAD: Option<&'static str> = None;
    static mut TEXT: (usize, usize) = (0, 0);
    static mut VARS: [usize; 2] = [0; 2];
    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }
    unsafe fn which(id: usize) -> usize {
        (MODEL.other >> id & 1) as usize
    }
    fn bad(s: &'static str) {
        unsafe {
            if (*addr_of_mut!(BAD)).is_none() {
                BAD = Some(s);
            }
        }
    }
    unsafe fn cpuid(id: usize, leaf: u32, sub: u32) -> [u32; 4] {
        let m = &*addr_of_mut!(MODEL);
        CPUIDS += 1;
        let v = VENDORS[m.vendor];
        let w = |i: usize| u32::from_le_bytes(v[i..i + 4].try_into().unwrap());
        match leaf {
            0 => [m.max, w(0), w(8), w(4)],
            1 => [m.eax1, 0x0001_0800, m.ecx[which(id)], m.edx1],
            7 if m.max >= 7 && sub == 0 => [0, m.seven, m.seven >> 3, 0],
            0xd if m.max >= 0xd => [m.xcr0[0] as u32, 576, 832, 0],
            0x8000_0000 => [0x8000_0008, w(0), w(8), w(4)],
            0x8000_0001 => [m.eax1, 0, 0x121, 0x2c10_0800],
            // what lies beyond the last leaf repeats the last one (Intel)
            x if x > m.max && x < 0x8000_0000 && m.max == 1 => [m.eax1, 0x0001_0800, m.ecx[which(id)], m.edx1],
            _ => [0; 4],
        }
    }
    /// Effective address of the operand of the ModRM byte at `p`; None if it is a register.
    unsafe fn ea(g: &[i64; 23], p: *const u8, rex: u8, tail: usize) -> Option<usize> {
        use libc::*;
        const R: [c_int; 16] = [REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15];
        let reg = |i: u8| g[R[i as usize] as usize] as usize;
        let (md, rm) = (*p >> 6, *p & 7);
        if md == 3 {
            return None;
        }
        let mut q = p.add(1);
        let mut a;
        if rm == 4 {
            let s = *q;
            q = q.add(1);
            let idx = (s >> 3 & 7) | (rex & 2) << 2;
            a = if idx == 4 { 0 } else { reg(idx) << (s >> 6) };
            if s & 7 == 5 && md == 0 {
                a = a.wrapping_add((q as *const i32).read_unaligned() as usize);
            } else {
                a = a.wrapping_add(reg((s & 7) | (rex & 1) << 3));
            }
        } else if rm == 5 && md == 0 {
            let d = (q as *const i32).read_unaligned() as isize as usize;
            return Some((q as usize + 4 + tail).wrapping_add(d));
        } else {
            a = reg(rm | (rex & 1) << 3);
        }
        match md {
            1 => a = a.wrapping_add(*(q as *const i8) as isize as usize),
            2 => a = a.wrapping_add((q as *const i32).read_unaligned() as isize as usize),
            _ => {}
        }
        Some(a)
    }
    unsafe fn hook(id: usize, m: &mut libc::mcontext_t) {
        loop {
            let ip = m.gregs[tf::IP] as usize;
            if ip < TEXT.0 || ip >= TEXT.1 {
                return;
            }
            let p = ip as *const u8;
            let mo = &*addr_of_mut!(MODEL);
            let w = which(id);
            if *p == 0x0f && *p.add(1) == 0xa2 {
                let r = cpuid(id, m.gregs[libc::REG_RAX as usize] as u32, m.gregs[libc::REG_RCX as usize] as u32);
                for (i, g) in [libc::REG_RAX, libc::REG_RBX, libc::REG_RCX, libc::REG_RDX].into_iter().enumerate() {
                    m.gregs[g as usize] = r[i] as i64;
                }
                m.gregs[tf::IP] += 2;
                continue;
            }
            if *p == 0x0f && *p.add(1) == 1 && *p.add(2) == 0xd0 {
                XGETBVS += 1;
                if mo.ecx[w] & OSXSAVE == 0 {
                    bad("executes xgetbv, which needs OSXSAVE");
                }
                m.gregs[libc::REG_RAX as usize] = mo.xcr0[w] as u32 as i64;
                m.gregs[libc::REG_RDX as usize] = (mo.xcr0[w] >> 32) as i64;
                m.gregs[tf::IP] += 3;
                continue;
            }
            // prefixes
            let (mut q, mut lock, mut pp, mut rex) = (p, false, 0u8, 0u8);
            loop {
                match *q {
                    0xf0 => lock = true,
                    0x66 => pp = 1,
                    0xf3 => pp = 2,
                    0xf2 => pp = 3,
                    0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 => {}
                    x if x & 0xf0 == 0x40 => {
                        rex = x & 15;
                        q = q.add(1);
                        break;
                    }
                    _ => break,
                }
                q = q.add(1);
            }
            let (mut vex, mut l, mut map) = (false, 0, 0);
            let op;
            match *q {
                0xc5 => {
                    vex = true;
                    let b = *q.add(1);
                    rex = (!b >> 7 & 1) << 2;
                    l = b >> 2 & 1;
                    pp = b & 3;
                    map = 1;
                    op = *q.add(2);
                    q = q.add(3);
                }
                0xc4 => {
                    vex = true;
                    let b = *q.add(1);
                    rex = !b >> 5 & 7;
                    map = b & 31;
                    let b = *q.add(2);
                    l = b >> 2 & 1;
                    pp = b & 3;
                    op = *q.add(3);
                    q = q.add(4);
                }
                0x62 => {
                    bad("executes an AVX-512 instruction");
                    return;
                }
                0x0f => {
                    map = 1;
                    op = *q.add(1);
                    q = q.add(2);
                }
                _ => op = *q,
            }
            if vex && !mo.avx(w) && (mo.steady() || !(mo.avx(0) || mo.avx(1))) && !STATIC_AVX {
                bad("executes an AVX instruction, which this CPU or operating system does not support");
            }
            let g: &[i64; 23] = &m.gregs;
            if map == 1 && !vex && op == 0xc7 && *q >> 3 & 7 == 1 && rex & 8 != 0 {
                if !mo.cx(w) && (mo.steady() || !(mo.cx(0) || mo.cx(1))) {
                    bad("executes cmpxchg16b, which this CPU does not support");
                }
                if let Some(a) = ea(g, q, rex, 0) {
                    if (*addr_of_mut!(VARS)).contains(&a) {
                        if !lock {
                            bad("executes cmpxchg16b without the lock prefix");
                        }
                        DID[id].cx += 1;
                    }
                }
            }
            let aligned = matches!(op, 0x28 | 0x29) && pp < 2 || matches!(op, 0x6f | 0x7f) && pp == 1;
            let unaligned = matches!(op, 0x10 | 0x11) && pp < 2 || matches!(op, 0x6f | 0x7f) && pp == 2 || op == 0xf0 && pp == 3;
            if map == 1 && (aligned || unaligned) {
                if let Some(a) = ea(g, q, rex, 0) {
                    if (*addr_of_mut!(VARS)).iter().any(|v| a < v + 16 && a + 16 > *v) {
                        DID[id].wide += 1;
                        if unaligned || l != 0 || !(*addr_of_mut!(VARS)).contains(&a) {
                            bad("accesses the variable with an instruction that is nowhere guaranteed to be atomic");
                        } else if !mo.avx(w) && (mo.steady() || !(mo.avx(0) || mo.avx(1))) {
                            bad("relies on a 16-byte move, which only CPUs with AVX make atomic");
                        }
                    }
                }
            }
            return;
        }
    }

    static mut CASE: *const Case = std::ptr::null();
    const NIL: Ev = Ev { tid: 0, op: Op { k: K::Load, o: 0, f: 0, a: 0, b: 0 }, res: Res { k: Rk::Unit, v: 0 }, inv: 0, ret: 0 };
    /// with the number of cmpxchg16b and of 16-byte moves
    static mut EVS: [[(Ev, u32, u32); 8]; 4] = [[(NIL, 0, 0); 8]; 4];
    static mut ASKED: [[(bool, bool); 8]; 4] = [[(false, false); 8]; 4];
    fn body(id: usize) {
        unsafe {
            let c = &*CASE;
            for (i, s) in c.th[id].iter().enumerate() {
                let (ty, p) = (c.ty[s.var], c.addr[s.var] as *mut u8);
                match s.what {
                    Do::Ask => {
                        let (_, _, lf, al) = real::info(ty);
                        ASKED[id][i] = (lf, al);
                    }
                    Do::Op(op) => {
                        let e = &mut *addr_of_mut!(EVS[id][i]);
                        let d = DID[id];
                        e.0.inv = tf::now();
                        let r = real::apply(ty, p, &op);
                        e.0.ret = tf::now();
                        e.0.res = r;
                        e.0.op = op;
                        e.0.tid = id;
                        let n = *addr_of_mut!(DID[id]);
                        e.1 = n.cx - d.cx;
                        e.2 = n.wide - d.wide;
                    }
                }
            }
        }
    }
    unsafe fn peek(a: usize) -> u128 {
        (a as *const u128).read()
    }
    struct Outc {
        fail: Option<String>,
        cpuids: u32,
        mid: u64,
        clock: u64,
        calls: u64,
    }
    fn run_case(c: &Case) -> Outc {
        unsafe {
            std::ptr::write_bytes(BASE as *mut u8, 0xa5, REGION);
            for v in 0..2 {
                (c.addr[v] as *mut u128).write(c.init[v]);
            }
            CASE = c;
            MODEL = c.m;
            VARS = c.addr;
            BAD = None;
            let rep = tf::run(c.th.len(), body, &c.segs, c.q, 0, 400_000, false);
            let mut fail = (*addr_of_mut!(BAD)).map(|s| format!("{s}{}", ""));
            let mut calls = 0;
            if let Outcome::Stuck(t) = rep.outcome {
                fail = fail.or(Some(format!("no progress: {} has not finished after {} instructions", t, rep.clock)));
            } else if fail.is_none() {
                // what the process says about itself
                let (mut yes, mut no) = (0, 0);
                for (t, ops) in c.th.iter().enumerate() {
                    for (i, s) in ops.iter().enumerate() {
                        calls += 1;
                        match s.what {
                            Do::Ask => {
                                let (lf, al) = ASKED[t][i];
                                *if lf { &mut yes } else { &mut no } += 1;
                                if al && !lf {
                                    fail = Some("is_always_lock_free() but not is_lock_free()".into());
                                }
                                let want = STATIC_CX || DETECTS && c.m.cx(0);
                                if c.m.steady() && lf != want {
                                    fail = Some(format!("is_lock_free() is {lf} where cmpxchg16b is {}", if c.m.cx(0) { "available and detected" } else { "not available" }));
                                }
                                if al != STATIC_CX {
                                    fail = Some(format!("is_always_lock_free() is {al}"));
                                }
                            }
                            Do::Op(op) => {
                                let (_, cx, wide) = EVS[t][i];
                                let free = cx + wide > 0;
                                *if free { &mut yes } else { &mut no } += 1;
                                if c.m.steady() && free != (STATIC_CX || DETECTS && c.m.cx(0)) {
                                    fail = Some(format!("t{t} {op:?} {} the lock although cmpxchg16b is {}", if free { "does not take" } else { "takes" }, if c.m.cx(0) { "available" } else { "not available or not to be used" }));
                                }
                            }
                        }
                    }
                }
                // the lock-free and the lock-based way exclude each other
                if yes > 0 && no > 0 && fail.is_none() {
                    let mut d = "some calls of the process go the lock-free way and others the way with locks:".to_string();
                    for (t, ops) in c.th.iter().enumerate() {
                        for (i, s) in ops.iter().enumerate() {
                            let _ = match s.what {
                                Do::Ask => write!(d, " t{t} is_lock_free() = {};", ASKED[t][i].0),
                                Do::Op(op) => write!(d, " t{t} {} {};", op.k.name(), if EVS[t][i].1 + EVS[t][i].2 > 0 { "lock-free" } else { "locked" }),
                            };
                        }
                    }
                    fail = Some(d);
                }
                for v in 0..2 {
                    let mut evs = vec![];
                    for (t, ops) in c.th.iter().enumerate() {
                        for (i, s) in ops.iter().enumerate() {
                            if s.var == v && matches!(s.what, Do::Op(_)) {
                                evs.push(EVS[t][i].0);
                            }
                        }
                    }
                    let fin = peek(c.addr[v]);
                    if fail.is_none() && !linearizable(c.ty[v], c.init[v], &evs, fin) {
                        let mut d = format!("not linearizable: variable {} initially {:#x}, finally {:#x};", v, c.init[v], fin);
                        evs.sort_by_key(|e| e.inv);
                        for e in &evs {
                            let _ = write!(d, " t{}[{}..{}] {:?} -> {:?};", e.tid, e.inv, e.ret, e.op, e.res);
                        }
                        fail = Some(d);
                    }
                }
            }
            Outc { fail, cpuids: CPUIDS, mid: rep.mid, clock: rep.clock, calls }
        }
    }
    fn run_forked(c: &Case) -> Outc {
        unsafe {
            let mut fds = [0; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                tf::arm_timer();
                let o = run_case(c);
                let s = format!("{} {} {} {} {}", o.cpuids, o.mid, o.clock, o.calls, o.fail.unwrap_or_default());
                libc::write(fds[1], s.as_ptr().cast(), s.len());
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let mut buf = vec![0u8; 8192];
            let mut n = 0;
            loop {
                let k = libc::read(fds[0], buf.as_mut_ptr().add(n).cast(), buf.len() - n);
                if k <= 0 {
                    break;
                }
                n += k as usize;
            }
            libc::close(fds[0]);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let s = String::from_utf8_lossy(&buf[..n]).to_string();
            if st != 0 {
                return Outc { fail: Some(format!("the program dies (status {st:#x}) {s}")), cpuids: 0, mid: 0, clock: 0, calls: 0 };
            }
            let w: Vec<&str> = s.splitn(5, ' ').collect();
            let f = w.get(4).copied().unwrap_or("");
            Outc { fail: (!f.is_empty()).then(|| f.to_string()), cpuids: w[0].parse().unwrap(), mid: w[1].parse().unwrap(), clock: w[2].parse().unwrap(), calls: w[3].parse().unwrap() }
        }
    }
    pub fn main() {
        let a = Args::get();
        if !(std::arch::is_x86_feature_detected!("avx") && std::arch::is_x86_feature_detected!("cmpxchg16b")) {
            println!("ERROR this machine lacks AVX or cmpxchg16b");
            std::process::exit(3);
        }
        install_crash_handler();
        unsafe {
            let p = libc::mmap(BASE as *mut _, REGION, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
            assert_eq!(p as usize, BASE);
            TEXT = (&__executable_start as *const u8 as usize, &etext as *const u8 as usize);
            tf::ALL_TRACED = true;
            tf::HOOK = Some(hook);
        }
        tf::install();
        if a.s("replay").is_some() {
            let t = std::env::args().find(|x| x.starts_with("replay=")).unwrap();
            let c = Case::parse(&t["replay=".len()..]).expect("case");
            match run_forked(&c).fail {
                None => println!("PASS"),
                Some(f) => {
                    println!("FAIL {f}");
                    std::process::exit(1)
                }
            }
            return;
        }
        let (seed, stream) = (a.u("seed", 1), a.u("stream", 0));
        if let Some(i) = a.s("show") {
            println!("case {}", gen(seed, stream, i.parse().unwrap()).text());
            return;
        }
        let (from, count) = (a.u("from", 0), a.u("count", 1000));
        let secs = a.u("secs", 0);
        let t0 = std::time::Instant::now();
        let (mut n, mut mid, mut clock, mut nt, mut cpuids, mut races, mut samples) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, a.u("samples", 0));
        let mut seen = std::collections::HashSet::new();
        let mut failed = false;
        for i in from..from + count {
            if secs > 0 && i % 64 == 0 && t0.elapsed().as_secs() >= secs {
                break;
            }
            tick(i);
            let c = gen(seed, stream, i);
            let o = run_forked(&c);
            n += 1;
            mid += o.mid;
            clock += o.clock;
            cpuids += o.cpuids as u64;
            races += (o.cpuids > 1) as u64;
            if o.calls >= 2 && (o.cpuids > 0 || !DETECTS && (!DETECTS_AVX || STATIC_AVX)) {
                let h = c.text().bytes().fold(0u64, |h, b| mix(h ^ b as u64));
                nt += seen.insert(h) as u64;
                if samples > 0 {
                    samples -= 1;
                    println!("SAMPLE {}", c.text());
                }
            }
            if let Some(f) = o.fail {
                println!("FAIL index={} {} ## {}", i, c.text(), f);
                failed = true;
                break;
            }
        }
        println!("STAT cases={n} distinct={nt} instructions={clock} preemptions_inside_operations={mid} cpuid={cpuids} detected_more_than_once={races}");
        std::process::exit(failed as i32);
    }
}
