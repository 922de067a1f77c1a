//! What an executed instruction does to memory: accesses and fences, from its text and the registers before and after.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Arch {
    A64,
    Arm,
    Rv,
    Ppc,
    S390,
    Mips,
    La,
    X86,
}
pub const R: u8 = 1;
pub const W: u8 = 2;
pub const RW: u8 = 3;
#[derive(Clone, Copy, Debug)]
pub struct Acc {
    pub k: u8,
    pub a: u64,
    pub n: u64,
    /// one single-copy atomic access (given alignment)
    pub sca: bool,
    pub acq: bool,
    pub rel: bool,
    /// also ordered with release/acquire accesses as RISC-V's RCsc annotations are
    pub rcsc: bool,
    /// reads and writes in one atomic instruction
    pub amo: bool,
    /// load-exclusive or successful store-exclusive
    pub ex: bool,
    /// a full barrier by itself (x86 lock prefix and the like)
    pub full: bool,
}
#[derive(Clone, Copy, Debug)]
pub enum Act {
    A(Acc),
    /// earlier accesses of the first kinds before later ones of the second kinds
    F(u8, u8),
    Isync,
    Branch,
    /// an access this decoder does not know, at this address
    Unknown(u64),
}
pub struct Insn {
    pub mn: String,
    pub ops: String,
    pub lock: bool,
}
#[derive(Clone)]
pub struct Regs {
    pub r: [u64; 40],
    pub fl: u64,
}
pub struct Cpu {
    pub arch: Arch,
    pub bits: u32,
    pub lse2: bool,
    pub avx: bool,
}

fn acc(k: u8, a: u64, n: u64) -> Acc {
    Acc { k, a, n, sca: true, acq: false, rel: false, rcsc: false, amo: false, ex: false, full: false }
}
fn num(s: &str) -> Option<i64> {
    let s = s.trim().trim_start_matches('#').trim_start_matches('$');
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let v = match t.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok()? as i64,
        None => t.parse::<u64>().ok()? as i64,
    };
    Some(if neg { v.wrapping_neg() } else { v })
}
/// operands separated at commas outside brackets
pub fn split(s: &str) -> Vec<String> {
    let (mut d, mut out, mut cur) = (0, vec![], String::new());
    for c in s.chars() {
        match c {
            '[' | '(' | '{' => d += 1,
            ']' | ')' | '}' => d -= 1,
            _ => {}
        }
        if c == ',' && d == 0 {
            out.push(cur.trim().to_string());
            cur.clear();
        } else {
            cur.push(c);
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}
fn hexv(s: &str) -> Option<u64> {
    u64::from_str_radix(s.trim_start_matches("0x"), 16).ok()
}
const MIPS: [&str; 32] = ["r0", "at", "v0", "v1", "a0", "a1", "a2", "a3", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "t8", "t9", "k0", "k1", "gp", "sp", "s8", "ra"];
const RVN: [&str; 32] = ["zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6"];
const LAN: [&str; 32] = ["zero", "ra", "tp", "sp", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "r21", "fp", "s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8"];
const X64: [&str; 16] = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];

impl Cpu {
    pub fn sp(&self) -> usize {
        match self.arch {
            Arch::A64 => 31,
            Arch::Arm => 13,
            Arch::Rv => 2,
            Arch::Ppc => 1,
            Arch::S390 => 15,
            Arch::Mips => 29,
            Arch::La => 3,
            Arch::X86 => 4,
        }
    }
    pub fn mask(&self, a: u64) -> u64 {
        if self.bits == 32 {
            a & 0xffff_ffff
        } else {
            a
        }
    }
    /// The registers of one dump.
    pub fn regs(&self, dump: &str) -> Regs {
        let mut g = Regs { r: [0; 40], fl: 0 };
        match self.arch {
            Arch::A64 | Arch::Arm | Arch::S390 => {
                for t in dump.split_whitespace() {
                    let Some((n, v)) = t.split_once('=') else { continue };
                    let b = n.as_bytes();
                    if n == "SP" {
                        g.r[31] = hexv(v).unwrap_or(0);
                    } else if n == "PSR" || n == "PSTATE" {
                        g.fl = hexv(v).unwrap_or(0);
                    } else if b.len() == 3 && (b[0] == b'X' || b[0] == b'R') {
                        if let (Ok(i), Some(v)) = (n[1..].parse::<usize>(), hexv(v)) {
                            if i < 31 {
                                g.r[i] = v;
                            }
                        }
                    }
                }
            }
            Arch::Rv => {
                let mut it = dump.split_whitespace();
                while let Some(t) = it.next() {
                    if t.starts_with('x') {
                        if let Some((n, _)) = t[1..].split_once('/') {
                            if let (Ok(i), Some(v)) = (n.parse::<usize>(), it.next().and_then(hexv)) {
                                if i < 32 {
                                    g.r[i] = v;
                                }
                            }
                        }
                    }
                }
            }
            Arch::Ppc => {
                for l in dump.lines() {
                    if let Some(t) = l.strip_prefix("GPR") {
                        let mut it = t.split_whitespace();
                        if let Some(Ok(i)) = it.next().map(|x| x.parse::<usize>()) {
                            for (j, v) in it.enumerate() {
                                if i + j < 32 {
                                    g.r[i + j] = hexv(v).unwrap_or(0);
                                }
                            }
                        }
                    } else if let Some(t) = l.strip_prefix("CR ") {
                        g.fl = t.split_whitespace().next().and_then(hexv).unwrap_or(0);
                    }
                }
            }
            Arch::Mips | Arch::La => {
                for l in dump.lines() {
                    if let Some(t) = l.trim_start().strip_prefix("GPR") {
                        let mut it = t.split_whitespace();
                        if let Some(Ok(i)) = it.next().map(|x| x.trim_end_matches(':').parse::<usize>()) {
                            let mut j = i;
                            while let (Some(_), Some(v)) = (it.next(), it.next()) {
                                if j < 32 {
                                    g.r[j] = hexv(v).unwrap_or(0);
                                }
                                j += 1;
                            }
                        }
                    }
                }
            }
            Arch::X86 => {
                let d = dump.replace(" =", "=");
                for t in d.split_whitespace() {
                    let Some((n, v)) = t.split_once('=') else { continue };
                    if n == "RFL" || n == "EFL" {
                        g.fl = hexv(v).unwrap_or(0);
                        break;
                    }
                    if let Some(i) = self.x86(&n.to_lowercase()) {
                        g.r[i] = hexv(v).unwrap_or(0);
                    }
                }
            }
        }
        g
    }
    fn x86(&self, n: &str) -> Option<usize> {
        if let Some(i) = X64.iter().position(|x| *x == n) {
            return Some(i);
        }
        if n.len() == 3 && n.starts_with('e') {
            return X64[..8].iter().position(|x| x[1..] == n[1..]);
        }
        if let Some(t) = n.strip_suffix('d') {
            return X64[8..].iter().position(|x| *x == t).map(|i| i + 8);
        }
        None
    }
    /// Number of a register; 32 is always zero.
    fn reg(&self, n: &str) -> Option<usize> {
        let n = n.trim().trim_start_matches('{').trim_end_matches('}').trim();
        match self.arch {
            Arch::A64 => match n {
                "sp" | "wsp" => Some(31),
                "xzr" | "wzr" => Some(32),
                _ => {
                    let b = n.as_bytes();
                    if b.is_empty() || !(b[0] == b'x' || b[0] == b'w') {
                        return None;
                    }
                    n[1..].parse().ok().filter(|i| *i < 31)
                }
            },
            Arch::Arm => match n {
                "sp" => Some(13),
                "lr" => Some(14),
                "pc" => Some(15),
                _ => n.strip_prefix('r')?.parse().ok().filter(|i| *i < 16),
            },
            Arch::Rv => RVN.iter().position(|x| *x == n).map(|i| if i == 0 { 32 } else { i }),
            Arch::Ppc => n.trim_start_matches('r').parse().ok().filter(|i| *i < 32),
            Arch::S390 => n.strip_prefix("%r")?.parse().ok().filter(|i| *i < 16),
            Arch::Mips => {
                let t = n.strip_prefix('$')?;
                if t == "zero" {
                    return Some(32);
                }
                if t == "fp" {
                    return Some(30);
                }
                if let Ok(i) = t.parse::<usize>() {
                    return Some(i).filter(|i| *i < 32);
                }
                MIPS.iter().position(|x| *x == t)
            }
            Arch::La => {
                let t = n.strip_prefix('$')?;
                LAN.iter().position(|x| *x == t).map(|i| if i == 0 { 32 } else { i })
            }
            Arch::X86 => self.x86(n),
        }
    }
    fn val(&self, g: &Regs, n: &str) -> Option<u64> {
        Some(g.r[self.reg(n)?])
    }

    pub fn decode(&self, pc: u64, i: &Insn, g: &Regs, next: &dyn Fn() -> Option<Regs>, out: &mut Vec<Act>) {
        match self.arch {
            Arch::A64 => self.a64(i, g, next, out),
            Arch::Arm => self.arm(pc, i, g, next, out),
            Arch::Rv => self.rv(i, g, next, out),
            Arch::Ppc => self.ppc(pc, i, g, next, out),
            Arch::S390 => self.s390(i, g, next, out),
            Arch::Mips => self.mips(i, g, next, out),
            Arch::La => self.la(i, g, next, out),
            Arch::X86 => self.x86d(pc, i, g, out),
        }
        for a in out.iter_mut() {
            match a {
                Act::A(c) => c.a = self.mask(c.a),
                Act::Unknown(u) => *u = self.mask(*u),
                _ => {}
            }
        }
    }
    /// Is it worth reading the registers for?
    pub fn matters(&self, i: &Insn) -> bool {
        let m = i.mn.as_str();
        match self.arch {
            Arch::A64 => i.ops.contains('[') || m.starts_with("dmb") || m.starts_with("dsb") || m == "isb" || m.starts_with("b.") || m.starts_with("cb") || m.starts_with("tb"),
            Arch::Arm => i.ops.contains('[') || i.ops.contains("c7, c10") || m.starts_with("dmb") || m.starts_with("dsb") || m.starts_with("ldm") || m.starts_with("stm"),
            Arch::Rv => i.ops.contains('(') || m.starts_with("fence"),
            Arch::Ppc => i.ops.contains('(') || m.ends_with('x') || m.ends_with("x.") || m.contains("sync") || m == "eieio" || m.starts_with('b') || m == "lq" || m == "stq",
            Arch::S390 => i.ops.contains('(') || m.ends_with("rl") || m.starts_with("br") || m.starts_with("bcr") || m.starts_with("bno") || m.starts_with("nop"),
            Arch::Mips => i.ops.contains('(') || m == "sync",
            Arch::La => m.starts_with("ld") || m.starts_with("st") || m.starts_with("ll") || m.starts_with("sc") || m.starts_with("am") || m.starts_with("vld") || m.starts_with("vst") || m.starts_with("dbar") || m.starts_with("fld") || m.starts_with("fst") || m.starts_with("preld"),
            Arch::X86 => i.ops.contains('[') || m == "mfence" || i.lock,
        }
    }

    fn a64(&self, i: &Insn, g: &Regs, next: &dyn Fn() -> Option<Regs>, out: &mut Vec<Act>) {
        let m = i.mn.as_str();
        match m {
            "dmb" | "dsb" => {
                let o = i.ops.trim();
                out.push(if o.ends_with("ld") {
                    Act::F(R, RW)
                } else if o.ends_with("st") {
                    Act::F(W, W)
                } else {
                    Act::F(RW, RW)
                });
                return;
            }
            "isb" => return out.push(Act::Isync),
            _ => {}
        }
        let Some(b) = i.ops.find('[') else {
            if m.starts_with("b.") || m.starts_with("cb") || m.starts_with("tb") {
                out.push(Act::Branch);
            }
            return;
        };
        if m.starts_with("prfm") {
            return;
        }
        let Some(e) = i.ops[b..].find(']') else { return };
        let inner = split(&i.ops[b + 1..b + e]);
        let Some(base) = self.val(g, &inner[0]) else { return };
        let mut a = base;
        if inner.len() > 1 {
            if let Some(k) = num(&inner[1]) {
                a = a.wrapping_add(k as u64);
            } else if let Some(x) = self.val(g, &inner[1]) {
                let (mut x, mut sh) = (if inner[1].trim().starts_with('w') { x & 0xffff_ffff } else { x }, 0);
                if let Some(t) = inner.get(2) {
                    let w: Vec<&str> = t.split_whitespace().collect();
                    if w[0] == "sxtw" {
                        x = x as u32 as i32 as i64 as u64;
                    }
                    if let Some(k) = w.get(1) {
                        sh = num(k).unwrap_or(0);
                    }
                }
                a = a.wrapping_add(x << sh);
            } else {
                return out.push(Act::Unknown(a));
            }
        }
        let ops = split(&i.ops[..b]);
        let wid = |s: &str| -> u64 {
            match s.as_bytes().first() {
                Some(b'x') => 8,
                Some(b'w') => 4,
                Some(b'q') | Some(b'v') => 16,
                Some(b'd') => 8,
                Some(b's') => 4,
                Some(b'h') => 2,
                Some(b'b') => 1,
                _ => 0,
            }
        };
        let zr = |s: &String| s == "xzr" || s == "wzr";
        // LSE: swp, cas, casp, ld<op>, st<op>
        for p in ["casp", "cas", "swpp", "swp", "ldadd", "ldclrp", "ldclr", "ldeor", "ldsetp", "ldset", "ldsmax", "ldsmin", "ldumax", "ldumin", "stadd", "stclr", "steor", "stset", "stsmax", "stsmin", "stumax", "stumin"] {
            let Some(t) = m.strip_prefix(p) else { continue };
            let (t, n) = match t.strip_suffix('b') {
                Some(t) => (t, 1),
                None => match t.strip_suffix('h') {
                    Some(t) => (t, 2),
                    None => (t, if p.ends_with('p') && p != "swp" { 2 * wid(&ops[0]) } else { wid(&ops[0]) }),
                },
            };
            if !matches!(t, "" | "a" | "l" | "al") {
                continue;
            }
            let n = if p == "swpp" || p == "ldclrp" || p == "ldsetp" { 16 } else { n };
            let mut acq = t.contains('a');
            let st = p.starts_with("st");
            if !p.starts_with("cas") && (st || ops.last().map_or(false, zr)) {
                acq = false;
            }
            let mut c = acc(R, a, n);
            c.acq = acq;
            c.amo = true;
            out.push(Act::A(c));
            let ok = !p.starts_with("cas") || {
                let Some(nx) = next() else { return };
                let half = if p == "casp" { n / 2 } else { n };
                let mk = if half >= 8 { !0 } else { (1u64 << (8 * half)) - 1 };
                let k = if p == "casp" { 2 } else { 1 };
                (0..k).all(|j| self.reg(&ops[j]).map_or(false, |r| r == 32 || (g.r[r] ^ nx.r[r]) & mk == 0))
            };
            if ok {
                let mut c = acc(W, a, n);
                c.rel = t.contains('l');
                c.amo = true;
                out.push(Act::A(c));
            }
            return;
        }
        let (mut n, mut pair) = (wid(&ops[0]), false);
        let t = m;
        if t.ends_with('b') {
            n = 1;
        } else if t.ends_with('h') {
            n = 2;
        } else if t.ends_with("sw") {
            n = 4;
        }
        let mut c;
        match t.trim_end_matches('b').trim_end_matches('h').trim_end_matches("sw") {
            "ldr" | "ldur" | "ldrs" | "ldurs" | "ldtr" => c = acc(R, a, n),
            "str" | "stur" | "sttr" => c = acc(W, a, n),
            "ldar" | "ldapr" | "ldapur" | "ldlar" => {
                c = acc(R, a, n);
                c.acq = true;
            }
            "stlr" | "stlur" | "stllr" => {
                c = acc(W, a, n);
                c.rel = true;
            }
            "ldxr" | "ldaxr" => {
                c = acc(R, a, n);
                c.acq = t.starts_with("lda");
                c.ex = true;
            }
            "stxr" | "stlxr" => {
                let n = wid(&ops[1]);
                c = acc(W, a, if t.ends_with('b') { 1 } else if t.ends_with('h') { 2 } else { n });
                c.rel = t.starts_with("stl");
                c.ex = true;
            }
            "ldxp" | "ldaxp" => {
                c = acc(R, a, 2 * n);
                c.acq = t.starts_with("lda");
                c.ex = true;
            }
            "stxp" | "stlxp" => {
                c = acc(W, a, 2 * wid(&ops[1]));
                c.rel = t.starts_with("stl");
                c.ex = true;
            }
            "ldp" | "ldnp" | "ldps" | "ldiapp" => {
                c = acc(R, a, 2 * n);
                c.acq = t == "ldiapp";
                pair = true;
            }
            "stp" | "stnp" | "stilp" => {
                c = acc(W, a, 2 * n);
                c.rel = t == "stilp";
                pair = true;
            }
            _ => return out.push(Act::Unknown(a)),
        }
        if (pair || n >= 16) && !(self.lse2 && c.n == 16) && !c.ex {
            c.sca = false;
        }
        if c.ex && c.k == W {
            let Some(nx) = next() else { return };
            if self.reg(&ops[0]).map_or(0, |r| nx.r[r] & 0xffff_ffff) != 0 {
                return;
            }
        }
        out.push(Act::A(c));
    }

    fn arm(&self, pc: u64, i: &Insn, g: &Regs, next: &dyn Fn() -> Option<Regs>, out: &mut Vec<Act>) {
        const BASE: [&str; 44] = [
            "ldr", "ldrb", "ldrh", "ldrsb", "ldrsh", "ldrd", "str", "strb", "strh", "strd", "ldrex", "ldrexb", "ldrexh", "ldrexd", "strex", "strexb", "strexh", "strexd", "ldm", "ldmib", "ldmdb", "ldmda", "stm", "stmib", "stmdb", "stmda",
            "dmb", "dsb", "isb", "mcr", "swp", "swpb", "tbb", "tbh", "pld", "lda", "ldab", "ldah", "stl", "stlb", "stlh", "pldw", "pli", "mrc",
        ];
        const CC: [&str; 16] = ["eq", "ne", "hs", "lo", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le", "cs", "cc"];
        let m0 = i.mn.trim_end_matches(".w").trim_end_matches(".n");
        let (mut m, mut cond) = (m0, None);
        if !BASE.contains(&m) {
            if m.len() > 2 && m.is_char_boundary(m.len() - 2) {
                let (h, t) = m.split_at(m.len() - 2);
                if let (true, Some(c)) = (BASE.contains(&h), CC.iter().position(|x| *x == t)) {
                    m = h;
                    cond = Some(c);
                }
            }
        }
        if let Some(c) = cond {
            let f = g.fl >> 28;
            let (n, z, cy, v) = (f & 8 != 0, f & 4 != 0, f & 2 != 0, f & 1 != 0);
            let t = match c {
                0 => z,
                1 => !z,
                2 | 14 => cy,
                3 | 15 => !cy,
                4 => n,
                5 => !n,
                6 => v,
                7 => !v,
                8 => cy && !z,
                9 => !cy || z,
                10 => n == v,
                11 => n != v,
                12 => !z && n == v,
                _ => z || n != v,
            };
            if !t {
                return;
            }
        }
        match m {
            "dmb" | "dsb" => {
                let o = i.ops.trim();
                return out.push(if o.ends_with("ld") {
                    Act::F(R, RW)
                } else if o.ends_with("st") {
                    Act::F(W, W)
                } else {
                    Act::F(RW, RW)
                });
            }
            "mcr" => {
                let o = i.ops.replace("#0x", "#");
                if o.contains("c7, c10, #5") || o.contains("c7, c10, #4") {
                    out.push(Act::F(RW, RW));
                }
                return;
            }
            "pld" | "pldw" | "pli" | "tbb" | "tbh" | "mrc" | "isb" => return,
            _ => {}
        }
        if m.starts_with("ldm") || m.starts_with("stm") {
            let Some((b, l)) = i.ops.split_once('{') else { return };
            let Some(base) = self.val(g, b.trim().trim_end_matches(',').trim_end_matches('!')) else { return };
            let n = l.matches(',').count() as u64 + 1;
            let a = match &m[3..] {
                "" => base,
                "ib" => base + 4,
                "db" => base.wrapping_sub(4 * n),
                _ => base.wrapping_sub(4 * n) + 4,
            };
            for j in 0..n {
                let mut c = acc(if m.starts_with('l') { R } else { W }, a + 4 * j, 4);
                c.sca = n == 1;
                out.push(Act::A(c));
            }
            return;
        }
        let Some(b) = i.ops.find('[') else { return };
        let Some(e) = i.ops[b..].find(']') else { return };
        let inner = split(&i.ops[b + 1..b + e]);
        let base = match self.reg(&inner[0]) {
            Some(15) => return,
            Some(r) => g.r[r],
            None => return,
        };
        let _ = pc;
        let mut a = base;
        if let Some(o) = inner.get(1) {
            if let Some(k) = num(o) {
                a = a.wrapping_add(k as u64);
            } else {
                let (neg, r) = match o.strip_prefix('-') {
                    Some(r) => (true, r),
                    None => (false, o.as_str()),
                };
                let Some(mut x) = self.val(g, r) else { return out.push(Act::Unknown(a)) };
                if let Some(s) = inner.get(2) {
                    match s.split_once(' ') {
                        Some(("lsl", k)) => x <<= num(k).unwrap_or(0),
                        _ => return out.push(Act::Unknown(a)),
                    }
                }
                a = if neg { a.wrapping_sub(x) } else { a.wrapping_add(x) };
            }
        }
        let ops = split(&i.ops[..b]);
        let n = match m {
            "ldrb" | "ldrsb" | "strb" | "ldrexb" | "strexb" | "swpb" | "ldab" | "stlb" => 1,
            "ldrh" | "ldrsh" | "strh" | "ldrexh" | "strexh" | "ldah" | "stlh" => 2,
            "ldrd" | "strd" | "ldrexd" | "strexd" => 8,
            "ldr" | "str" | "ldrex" | "strex" | "swp" | "lda" | "stl" => 4,
            _ => return out.push(Act::Unknown(a)),
        };
        if m.starts_with("swp") {
            for k in [R, W] {
                let mut c = acc(k, a, n);
                c.amo = true;
                out.push(Act::A(c));
            }
            return;
        }
        let mut c = acc(if m.starts_with('l') { R } else { W }, a, n);
        c.sca = !(m == "ldrd" || m == "strd");
        c.ex = m.contains("ex");
        c.acq = m.starts_with("lda");
        c.rel = m.starts_with("stl");
        if c.ex && c.k == W {
            let Some(nx) = next() else { return };
            if self.reg(&ops[0]).map_or(0, |r| nx.r[r]) != 0 {
                return;
            }
        }
        out.push(Act::A(c));
    }
    /// The kernel's helpers for old ARM.
    pub fn kuser(pc: u64, g: &Regs, next: &dyn Fn() -> Option<Regs>, out: &mut Vec<Act>) {
        match pc {
            0xffff0fa0 => out.push(Act::F(RW, RW)),
            0xffff0fc0 | 0xffff0f60 => {
                let n = if pc == 0xffff0fc0 { 4 } else { 8 };
                out.push(Act::F(RW, RW));
                let mut c = acc(R, g.r[2], n);
                c.amo = true;
                out.push(Act::A(c));
                let Some(nx) = next() else { return };
                if nx.r[0] & 0xffff_ffff == 0 {
                    c.k = W;
                    out.push(Act::A(c));
                }
                out.push(Act::F(RW, RW));
            }
            _ => {}
        }
    }

    /// `off(reg)`
    fn offreg(&self, g: &Regs, s: &str) -> Option<u64> {
        let (o, r) = s.trim().split_once('(')?;
        let r = r.trim_end_matches(')');
        let base = if self.arch == Arch::Ppc && r == "0" { 0 } else { self.val(g, r)? };
        Some(base.wrapping_add(if o.is_empty() { 0 } else { num(o)? } as u64))
    }
    fn rv(&self, i: &Insn, g: &Regs, next: &dyn Fn() -> Option<Regs>, out: &mut Vec<Act>) {
        let m = i.mn.as_str();
        let ops = split(&i.ops);
        if m == "fence.tso" {
            out.push(Act::F(R, RW));
            return out.push(Act::F(RW, W));
        }
        if m == "fence" {
            let f = |s: Option<&String>| s.map_or(RW, |s| if s.contains('r') { R } else { 0 } | if s.contains('w') { W } else { 0 });
            return out.push(Act::F(f(ops.first()), f(ops.get(1))));
        }
        let Some(mo) = ops.iter().position(|o| o.ends_with(')')) else { return };
        let Some(a) = self.offreg(g, &ops[mo]) else { return };
        let sz = |c: &str| match c {
            "b" => 1,
            "h" => 2,
            "w" => 4,
            "d" => 8,
            _ => 16,
        };
        let p: Vec<&str> = m.split('.').collect();
        let (aq, rl) = match p.last() {
            Some(&"aq") => (true, false),
            Some(&"rl") => (false, true),
            Some(&"aqrl") => (true, true),
            _ => (false, false),
        };
        if p[0] == "lr" || p[0] == "sc" {
            let mut c = acc(if p[0] == "lr" { R } else { W }, a, sz(p[1]));
            c.acq = aq;
            c.rel = rl;
            c.rcsc = aq || rl;
            c.ex = true;
            if p[0] == "sc" {
                let Some(nx) = next() else { return };
                match self.reg(&ops[0]) {
                    Some(32) => return out.push(Act::Unknown(a)),
                    Some(r) if nx.r[r] == 0 => {}
                    _ => return,
                }
            }
            return out.push(Act::A(c));
        }
        if p[0].starts_with("amo") {
            let mut c = acc(R, a, sz(p[1]));
            c.acq = aq;
            c.rel = rl;
            c.rcsc = aq || rl;
            c.amo = true;
            out.push(Act::A(c));
            if p[0] == "amocas" {
                let Some(nx) = next() else { return };
                let r = self.reg(&ops[0]).unwrap_or(32);
                let m = if c.n >= 8 { !0 } else { (1 << (c.n * 8)) - 1 };
                if r >= 31 || (g.r[r] ^ nx.r[r]) & m != 0 || c.n as u32 * 8 > self.bits && g.r[r + 1] != nx.r[r + 1] {
                    return;
                }
            }
            c.k = W;
            return out.push(Act::A(c));
        }
        let n = match m {
            "lb" | "lbu" | "sb" => 1,
            "lh" | "lhu" | "sh" => 2,
            "lw" | "lwu" | "sw" | "flw" | "fsw" => 4,
            "ld" | "sd" | "fld" | "fsd" => 8,
            "jalr" | "jr" => return,
            _ => return out.push(Act::Unknown(a)),
        };
        let mut c = acc(if m.contains('l') { R } else { W }, a, n);
        c.sca = n * 8 <= self.bits as u64;
        out.push(Act::A(c));
    }

    fn ppc(&self, pc: u64, i: &Insn, g: &Regs, next: &dyn Fn() -> Option<Regs>, out: &mut Vec<Act>) {
        let m = i.mn.as_str();
        let ops = split(&i.ops);
        match m {
            "sync" | "hwsync" | "msync" => {
                return if ops.first().map_or(true, |o| o == "0") {
                    out.push(Act::F(RW, RW))
                } else {
                    out.push(Act::F(R, RW));
                    out.push(Act::F(RW, W));
                }
            }
            "lwsync" => {
                out.push(Act::F(R, RW));
                return out.push(Act::F(RW, W));
            }
            "eieio" => return out.push(Act::F(W, W)),
            "isync" => return out.push(Act::Isync),
            _ => {}
        }
        if m.starts_with('b') {
            let t = m.trim_end_matches(['+', '-']);
            if ["beq", "bne", "blt", "bgt", "ble", "bge", "bdnz", "bdz", "bun", "bnu", "bc", "bt", "bf", "bdnzt", "bdnzf"].contains(&t) {
                out.push(Act::Branch);
            }
            return;
        }
        let (mut m1, mut a) = (m, None);
        if ops.len() >= 2 && ops[1].contains('(') {
            a = self.offreg(g, &ops[1]);
            if m.starts_with('p') && ops.last().map_or(false, |o| o == "1") {
                m1 = &m[1..];
                a = ops[1].split_once('(').and_then(|(o, _)| num(o)).map(|o| pc.wrapping_add(o as u64));
            }
        } else if ops.len() == 3 && (m.ends_with('x') || m.ends_with("x.")) {
            let ra = if ops[1] == "0" { Some(0) } else { self.val(g, &ops[1]) };
            if let (Some(x), Some(y)) = (ra, self.val(g, &ops[2])) {
                a = Some(x.wrapping_add(y));
            }
        }
        let Some(a) = a else { return };
        let (k, n, ex) = match m1 {
            "lbarx" => (R, 1, true),
            "lharx" => (R, 2, true),
            "lwarx" => (R, 4, true),
            "ldarx" => (R, 8, true),
            "lqarx" => (R, 16, true),
            "stbcx." => (W, 1, true),
            "sthcx." => (W, 2, true),
            "stwcx." => (W, 4, true),
            "stdcx." => (W, 8, true),
            "stqcx." => (W, 16, true),
            "lbz" | "lbzu" | "lbzx" | "lbzux" => (R, 1, false),
            "lhz" | "lha" | "lhzx" | "lhax" | "lhbrx" | "lhzu" => (R, 2, false),
            "lwz" | "lwzu" | "lwzx" | "lwa" | "lwax" | "lwbrx" | "lfs" | "lfsx" => (R, 4, false),
            "ld" | "ldu" | "ldx" | "ldbrx" | "lfd" | "lfdx" => (R, 8, false),
            "lq" => (R, 16, false),
            "stb" | "stbu" | "stbx" | "stbux" => (W, 1, false),
            "sth" | "sthu" | "sthx" | "sthbrx" => (W, 2, false),
            "stw" | "stwu" | "stwx" | "stwbrx" | "stfs" | "stfsx" | "stfiwx" => (W, 4, false),
            "std" | "stdu" | "stdx" | "stdbrx" | "stfd" | "stfdx" => (W, 8, false),
            "stq" => (W, 16, false),
            _ if m1.starts_with('l') || m1.starts_with("st") => return out.push(Act::Unknown(a)),
            _ => return,
        };
        if m1 == "la" || m1 == "li" || m1 == "lis" {
            return;
        }
        let mut c = acc(k, a, n);
        c.ex = ex;
        if ex && k == W {
            let Some(nx) = next() else { return };
            if nx.fl >> 28 & 2 == 0 {
                return;
            }
        }
        out.push(Act::A(c));
    }

    fn s390(&self, i: &Insn, g: &Regs, next: &dyn Fn() -> Option<Regs>, out: &mut Vec<Act>) {
        let m = i.mn.as_str();
        let ops = split(&i.ops);
        if m == "bcr" || m == "br" || m == "bnor" || m == "nopr" {
            let ser = match m {
                "bcr" => ops.len() == 2 && (ops[0] == "15" || ops[0] == "14") && (ops[1] == "0" || ops[1] == "%r0"),
                "nopr" => false,
                _ => ops.first().map_or(false, |o| o == "0" || o == "%r0"),
            };
            if ser {
                out.push(Act::F(RW, RW));
            }
            return;
        }
        let addr = |s: &str| -> Option<(u64, u64)> {
            let (d, r) = s.split_once('(')?;
            let (mut a, mut len) = (num(d)? as u64, 0);
            for t in r.trim_end_matches(')').split(',') {
                let t = t.trim();
                if t.starts_with('%') {
                    let n: usize = t[2..].parse().ok()?;
                    a = a.wrapping_add(if n == 0 { 0 } else { g.r[n] });
                } else if t == "0" {
                } else {
                    len = num(t)? as u64;
                }
            }
            Some((a, len))
        };
        if m.ends_with("rl") && ops.len() == 2 && ops[1].starts_with("0x") {
            let Some(a) = hexv(&ops[1]) else { return };
            let (k, n) = match m {
                "lrl" | "llgfrl" | "lgfrl" => (R, 4),
                "lgrl" => (R, 8),
                "lhrl" | "llhrl" | "lghrl" | "llghrl" => (R, 2),
                "strl" => (W, 4),
                "stgrl" => (W, 8),
                "sthrl" => (W, 2),
                "larl" => return,
                _ => return out.push(Act::Unknown(a)),
            };
            return out.push(Act::A(acc(k, a, n)));
        }
        let Some(mo) = ops.iter().position(|o| o.ends_with(')')) else { return };
        let Some((a, len)) = addr(&ops[mo]) else { return };
        let rmw = |out: &mut Vec<Act>, n: u64, w: bool| {
            let mut c = acc(R, a, n);
            c.amo = true;
            c.full = true;
            out.push(Act::A(c));
            if w {
                c.k = W;
                out.push(Act::A(c));
            }
        };
        match m {
            "la" | "lay" | "sll" | "srl" | "sra" | "sla" | "sllg" | "srlg" | "srag" | "slag" | "sllk" | "srlk" | "srak" | "slak" | "rll" | "rllg" | "slda" | "sldl" | "srda" | "srdl" | "br" | "bras" | "bc" | "b" | "pfd" | "svc" => {}
            "l" | "ly" | "lgf" | "llgf" | "lt" | "lrv" | "le" | "ley" | "lde" => out.push(Act::A(acc(R, a, 4))),
            "lg" | "ltg" | "lrvg" | "ld" | "ldy" => out.push(Act::A(acc(R, a, 8))),
            "lh" | "lhy" | "llh" | "lgh" | "llgh" | "lrvh" => out.push(Act::A(acc(R, a, 2))),
            "lb" | "lgb" | "llc" | "llgc" | "ic" | "icy" => out.push(Act::A(acc(R, a, 1))),
            "st" | "sty" | "strv" | "ste" | "stey" => out.push(Act::A(acc(W, a, 4))),
            "stg" | "strvg" | "std" | "stdy" => out.push(Act::A(acc(W, a, 8))),
            "sth" | "sthy" => out.push(Act::A(acc(W, a, 2))),
            "stc" | "stcy" | "mvi" | "mviy" => out.push(Act::A(acc(W, a, 1))),
            "mvhi" => out.push(Act::A(acc(W, a, 4))),
            "mvhhi" => out.push(Act::A(acc(W, a, 2))),
            "mvghi" => out.push(Act::A(acc(W, a, 8))),
            "lpq" => out.push(Act::A(acc(R, a, 16))),
            "stpq" => out.push(Act::A(acc(W, a, 16))),
            "cs" | "csy" | "csg" | "cdsg" | "cds" | "cdsy" => {
                let Some(nx) = next() else { return };
                let Some(r) = self.reg(&ops[0]) else { return };
                let w = |x: u64| if m == "csg" || m == "cdsg" { x } else { x & 0xffff_ffff };
                let mut ok = w(g.r[r]) == w(nx.r[r]);
                if m.starts_with("cd") {
                    ok &= w(g.r[r + 1]) == w(nx.r[r + 1]);
                }
                rmw(out, if m == "cdsg" { 16 } else if m == "csg" || m.starts_with("cd") { 8 } else { 4 }, ok);
            }
            "laa" | "lan" | "lao" | "lax" | "laal" => rmw(out, 4, true),
            "laag" | "lang" | "laog" | "laxg" | "laalg" => rmw(out, 8, true),
            "asi" | "alsi" => rmw(out, 4, true),
            "agsi" | "algsi" => rmw(out, 8, true),
            "ni" | "oi" | "xi" | "niy" | "oiy" | "xiy" => rmw(out, 1, true),
            "cli" | "cliy" | "tm" | "tmy" => out.push(Act::A(acc(R, a, 1))),
            "c" | "cy" | "cl" | "cly" | "a" | "ay" | "s" | "sy" | "n" | "ny" | "o" | "oy" | "x" | "xy" | "al" | "sl" | "aly" | "chsi" | "clfhsi" | "alc" | "slb" | "ms" | "agf" | "algf" | "sgf" | "cgf" | "clgf" => out.push(Act::A(acc(R, a, 4))),
            "cg" | "clg" | "ag" | "sg" | "ng" | "og" | "xg" | "alg" | "slg" | "cghsi" | "clghsi" | "alcg" | "slbg" | "msg" => out.push(Act::A(acc(R, a, 8))),
            "lmg" | "stmg" | "lm" | "stm" => {
                let (Some(x), Some(y)) = (self.reg(&ops[0]), self.reg(&ops[1])) else { return };
                let cnt = ((y + 16 - x) % 16 + 1) as u64;
                let n = if m.ends_with('g') { 8 } else { 4 };
                for j in 0..cnt {
                    let mut c = acc(if m.starts_with('l') { R } else { W }, a + n * j, n);
                    c.sca = cnt == 1;
                    out.push(Act::A(c));
                }
            }
            "mvc" | "xc" | "nc" | "oc" | "clc" => {
                out.push(Act::Unknown(a));
                out.push(Act::Unknown(a + len.max(1) - 1));
                if let Some((b, _)) = ops.get(1).and_then(|o| addr(o)) {
                    out.push(Act::Unknown(b));
                }
            }
            _ => out.push(Act::Unknown(a)),
        }
    }

    fn mips(&self, i: &Insn, g: &Regs, next: &dyn Fn() -> Option<Regs>, out: &mut Vec<Act>) {
        let m = i.mn.as_str();
        let ops = split(&i.ops);
        if m == "sync" {
            out.push(match ops.first().and_then(|o| num(o)).unwrap_or(0) {
                0 | 0x10 => Act::F(RW, RW),
                0x11 => Act::F(RW, W),
                0x12 => Act::F(R, RW),
                0x13 => Act::F(R, R),
                0x4 => Act::F(W, W),
                _ => return,
            });
            return;
        }
        let Some(mo) = ops.iter().position(|o| o.ends_with(')')) else { return };
        let Some(a) = self.offreg(g, &ops[mo]) else { return };
        let (k, n, ex) = match m {
            "lb" | "lbu" => (R, 1, false),
            "lh" | "lhu" => (R, 2, false),
            "lw" | "lwu" | "lwc1" => (R, 4, false),
            "ld" | "ldc1" => (R, 8, false),
            "sb" => (W, 1, false),
            "sh" => (W, 2, false),
            "sw" | "swc1" => (W, 4, false),
            "sd" | "sdc1" => (W, 8, false),
            "ll" => (R, 4, true),
            "lld" => (R, 8, true),
            "sc" => (W, 4, true),
            "scd" => (W, 8, true),
            _ => return out.push(Act::Unknown(a)),
        };
        let mut c = acc(k, a, n);
        c.ex = ex;
        if ex && k == W {
            let Some(nx) = next() else { return };
            if self.reg(&ops[0]).map_or(0, |r| nx.r[r]) == 0 {
                return;
            }
        }
        out.push(Act::A(c));
    }

    fn la(&self, i: &Insn, g: &Regs, next: &dyn Fn() -> Option<Regs>, out: &mut Vec<Act>) {
        let m = i.mn.as_str();
        let ops = split(&i.ops);
        if m == "dbar" {
            let h = ops.first().and_then(|o| num(o)).unwrap_or(0);
            if h == 0 {
                return out.push(Act::F(RW, RW));
            }
            if h >= 0x20 {
                return;
            }
            // bits 3, 2: not the earlier reads, writes; bits 1, 0: not the later reads, writes
            let p = if h & 8 == 0 { R } else { 0 } | if h & 4 == 0 { W } else { 0 };
            let s = if h & 2 == 0 { R } else { 0 } | if h & 1 == 0 { W } else { 0 };
            return out.push(Act::F(p, s));
        }
        if m.starts_with("preld") || ops.len() < 2 {
            return;
        }
        let sz = |s: &str| match s.trim_end_matches('u') {
            "b" => 1,
            "h" => 2,
            "w" => 4,
            "d" => 8,
            "q" => 16,
            _ => 0,
        };
        let p: Vec<&str> = m.split('.').collect();
        if p[0].starts_with("am") && ops.len() == 3 {
            let Some(a) = self.val(g, &ops[2]) else { return };
            let mut c = acc(R, a, sz(p[1]));
            c.amo = true;
            c.full = p[0].ends_with("_db");
            out.push(Act::A(c));
            if p[0].starts_with("amcas") {
                let Some(nx) = next() else { return };
                let r = self.reg(&ops[0]).unwrap_or(32);
                if g.r[r] != nx.r[r] {
                    return;
                }
            }
            c.k = W;
            return out.push(Act::A(c));
        }
        let Some(b) = self.val(g, &ops[1]) else { return };
        let a = match ops.get(2) {
            Some(o) => match num(o) {
                Some(k) => {
                    // ll and sc print the scaled offset
                    b.wrapping_add(k as u64)
                }
                None => match self.val(g, o) {
                    Some(x) => b.wrapping_add(x),
                    None => return,
                },
            },
            None => b,
        };
        let n = if p.len() > 1 { sz(p[1]) } else { 0 };
        let (k, ex) = match p[0] {
            "ld" | "ldx" | "ldptr" => (R, false),
            "st" | "stx" | "stptr" => (W, false),
            "ll" => (R, true),
            "sc" => (W, true),
            "fld" | "fldx" => (R, false),
            "fst" | "fstx" => (W, false),
            _ => return out.push(Act::Unknown(a)),
        };
        let n = match m {
            "fld.s" | "fldx.s" | "fst.s" | "fstx.s" => 4,
            _ => n,
        };
        let mut c = acc(k, a, n);
        c.ex = ex;
        if p[0] == "sc" {
            let Some(nx) = next() else { return };
            if self.reg(&ops[0]).map_or(0, |r| nx.r[r]) == 0 {
                return;
            }
            // a successful ll/sc pair orders everything around it
            c.full = true;
        }
        out.push(Act::A(c));
    }

    fn x86d(&self, pc: u64, i: &Insn, g: &Regs, out: &mut Vec<Act>) {
        let m = i.mn.as_str();
        if m == "mfence" {
            return out.push(Act::F(RW, RW));
        }
        let Some(b) = i.ops.find('[') else { return };
        if m == "lea" || m.starts_with("nop") || m.starts_with("prefetch") || m == "call" || m == "jmp" || m.starts_with("rep") {
            return;
        }
        let Some(e) = i.ops[b..].find(']') else { return };
        let mut a: u64 = 0;
        let ex = i.ops[b + 1..b + e].replace(" - ", " + -");
        for t in ex.split('+') {
            let t = t.trim();
            if let Some((k, r)) = t.split_once('*') {
                let (k, r) = if num(k).is_some() { (k, r) } else { (r, k) };
                match (num(k), self.val(g, r)) {
                    (Some(k), Some(v)) => a = a.wrapping_add((k as u64).wrapping_mul(v)),
                    _ => return,
                }
            } else if t == "rip" {
                // the address of the next instruction: the comment has the sum
                match i.ops.split_once("# 0x") {
                    Some((_, h)) => {
                        let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                        a = u64::from_str_radix(&h, 16).unwrap_or(0);
                        break;
                    }
                    None => return,
                }
            } else if let Some(k) = num(t) {
                a = a.wrapping_add(k as u64);
            } else if let Some(v) = self.val(g, t) {
                a = a.wrapping_add(v);
            } else {
                return;
            }
        }
        let _ = pc;
        let ops = split(&i.ops);
        let mo = ops.iter().position(|o| o.contains('[')).unwrap_or(0);
        let s = &ops[mo];
        let n = if s.starts_with("byte") {
            1
        } else if s.starts_with("word") {
            2
        } else if s.starts_with("dword") {
            4
        } else if s.starts_with("qword") {
            8
        } else if s.starts_with("xmmword") {
            16
        } else if s.starts_with("ymmword") {
            32
        } else {
            return out.push(Act::Unknown(a));
        };
        let put = |out: &mut Vec<Act>, k: u8, lk: bool| {
            let mut c = acc(k, a, n);
            c.full = lk;
            c.amo = lk;
            c.sca = n <= 8 || n == 16 && (lk || self.avx && ["movaps", "movapd", "movdqa", "vmovaps", "vmovapd", "vmovdqa"].contains(&m));
            out.push(Act::A(c));
        };
        const RMW: [&str; 22] = ["add", "sub", "and", "or", "xor", "adc", "sbb", "inc", "dec", "neg", "not", "shl", "shr", "sar", "rol", "ror", "bts", "btr", "btc", "xadd", "shld", "shrd"];
        if m.starts_with("cmpxchg") || m == "xchg" || (RMW.contains(&m) && mo == 0) {
            let lk = i.lock || m == "xchg";
            put(out, R, lk);
            put(out, W, lk);
        } else if (m.starts_with("mov") || m.starts_with("vmov") || m.starts_with("set") || m == "fistp" || m == "fstp" || m == "pextrq" || m == "vpextrq" || m == "pextrd") && mo == 0 {
            put(out, W, false);
        } else {
            put(out, R, false);
        }
    }
}
