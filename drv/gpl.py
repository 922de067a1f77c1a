"""Generated programs with inlined operations, on atomics and on plain memory (C08)."""
import random

from . import isrl
from .base import *
from .cfgs import BARE, HOST

RULE_GP = (
    "one case is a generated program (some 15..40 statements: operations of generated types with constant and computed arguments and orderings on neighbouring fields, arrays, locals and statics, "
    "mixed with plain accesses to the same fields, comparisons made before and used after operations, loops that count down around operations, retry loops, calls, many values kept alive) compiled with every operation inlined, run on one generated input; "
    "it is compiled twice, on the atomics and on plain memory cells, and every local variable, every byte of the structure and its surroundings, and the plain memory must come out the same; "
    "all cases are non-trivial (each program makes at least six atomic calls); distinct by program and input"
)
INTS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize"]
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "u128": 128, "i128": 128}
LD = ["Relaxed", "Acquire", "SeqCst"]
STO = ["Relaxed", "Release", "SeqCst"]
RMW = ["Relaxed", "Acquire", "Release", "AcqRel", "SeqCst"]
ATOM = {"bool": "AtomicBool", "f32": "AtomicF32", "f64": "AtomicF64", "ptr": "AtomicPtr<u32>", **{t: "Atomic" + t[0].upper() + t[1:] for t in INTS}}


class Gen:
    """Source text of one batch."""

    def __init__(self, seed, batch, progs, pw, tys, only=None, off=(), names=True):
        self.pw, self.tys, self.names = pw, tys, names
        self.bits = {**BITS, "usize": pw, "isize": pw}
        self.off = set(off)
        r = self.r = random.Random(f"gp-{seed}-{batch}")
        self.fields = []  # (name, type, array length or 0)
        self.calls = 0
        must = [t for t in ("u128", "i128", "u64", "u8", "u16", "bool", "u32", "i64", "ptr", "f64") if t in tys]
        want = must + [r.choice(tys) for _ in range(8)]
        r.shuffle(want)
        for i, t in enumerate(want):
            self.fields.append((f"f{i}", t, r.choice([0, 0, 0, 2, 3])))
        self.statics = [(f"G{i}", t) for i, t in enumerate(r.sample([t for t in tys if t not in ("ptr",)], min(5, len(tys) - 1)))]
        self.progs = []
        for k in range(progs):
            self.progs.append(self.program(k, seed, batch, only is None or only == k))

    # ---- expressions
    def size(self, t):
        return {"bool": 1, "f32": 4, "f64": 8, "ptr": self.pw // 8}.get(t) or self.bits[t] // 8

    def const(self, t):
        r = self.r
        if t == "bool":
            return r.choice(["true", "false"])
        if t in ("f32", "f64"):
            return r.choice(["1.0", "-2.5", "3.0", "100.0", "-0.5"])
        if t == "ptr":
            return f"core::ptr::without_provenance_mut::<u32>({self.const('usize')})"
        b = self.bits[t]
        v = r.choice([0, 1, 2, -1, -2, 1 << (b - 1), (1 << (b - 1)) - 1, 1 << r.randrange(b), (1 << r.randrange(1, b + 1)) - 1, r.getrandbits(b), 0x5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A, 127, 128, 255, 256, -128, -129, 2047, 2048, -2048, 4095, 4096, 32767, 65535, 65536, r.getrandbits(8)])
        v &= (1 << b) - 1
        if t[0] == "i":
            if v >> (b - 1):
                v -= 1 << b
            return f"({v}_{t})" if v != -(1 << (b - 1)) else f"{t}::MIN"
        return f"{v}_{t}"

    def var(self, t):
        """A live variable of type t, converted if need be."""
        r = self.r
        if t == "bool":
            c = [n for n, u in self.live if u == "bool"]
            if c and r.random() < 0.6:
                return r.choice(c)
            n, u = r.choice([x for x in self.live if x[1] in self.bits])
            return r.choice([f"({n} & 1 == 0)", f"({n} == 0)", f"({n} > {self.const(u)})", f"(({n} as i8) < 0)"])
        if t in ("f32", "f64"):
            c = [n for n, u in self.live if u == t]
            if c and r.random() < 0.5:
                return r.choice(c)
            n, u = r.choice([x for x in self.live if x[1] in self.bits])
            return f"(({n} as i16) as {t})"
        if t == "ptr":
            return f"core::ptr::without_provenance_mut::<u32>({self.var('usize')})"
        c = [n for n, u in self.live if u == t]
        if c and r.random() < 0.6:
            return r.choice(c)
        n, u = r.choice([x for x in self.live if x[1] in self.bits or x[1] == "bool"])
        return f"({n} as {t})" if u != t else n

    def expr(self, t, d=0):
        r = self.r
        x = r.random()
        if d > 2 or self.pw == 16 and d > 1 or x < 0.35:
            return self.var(t) if r.random() < 0.75 else self.const(t)
        if t == "bool":
            k = r.randrange(4)
            if k == 0:
                return f"(!{self.expr(t, d + 1)})"
            if k == 1:
                return f"({self.expr(t, d + 1)} {r.choice(['&', '|', '^'])} {self.expr(t, d + 1)})"
            u = r.choice([u for u in self.tys if u in self.bits])
            return f"(({self.expr(u, d + 1)}) {r.choice(['<', '>', '==', '!=', '<=', '>='])} ({self.expr(u, d + 1)}))"
        if t in ("f32", "f64") or t == "ptr":
            return self.var(t)
        k = r.randrange(9)
        if k < 3:
            return f"{self.paren(self.expr(t, d + 1))}.{r.choice(['wrapping_add', 'wrapping_sub', 'wrapping_mul' if self.bits[t] <= 64 and self.pw > 16 else 'wrapping_add'])}({self.expr(t, d + 1)})"
        if k < 6:
            return f"({self.expr(t, d + 1)} {r.choice(['&', '|', '^'])} {self.expr(t, d + 1)})"
        if k == 6:
            return f"{self.paren(self.expr(t, d + 1))}.rotate_left({r.randrange(self.bits[t])})"
        if k == 7:
            return f"({self.paren(self.expr(t, d + 1))} {r.choice(['<<', '>>'])} {r.randrange(self.bits[t])})"
        return f"(if {self.expr('bool', d + 1)} {{ {self.expr(t, d + 1)} }} else {{ {self.expr(t, d + 1)} }})"

    def paren(self, e):
        return e if re.fullmatch(r"\w+", e) and not e[0].isdigit() else f"({e})"

    # ---- places
    def place(self, want=None):
        """An atomic: (expression, type, can be had by &mut)."""
        r = self.r
        locs = [(n, t) for n, t in self.locals if want is None or t in want]
        sts = [(n, t) for n, t in self.statics if want is None or t in want]
        x = r.random()
        if locs and x < 0.15:
            n, t = r.choice(locs)
            return n, t, True
        if sts and x < 0.35:
            n, t = r.choice(sts)
            return n, t, False
        c = [f for f in self.fields if want is None or f[1] in want]
        if not c:
            return self.place()
        # wide and narrow ones more often than the rest
        w = [3 if self.size(f[1]) in (1, 2, 16) or self.size(f[1]) * 8 > self.pw else 1 for f in c]
        n, t, k = r.choices(c, w)[0]
        if k:
            i = r.choice([str(r.randrange(k)), f"({self.var('usize')} & {k - 1 & ~(k & 1)}) as usize"])
            return f"s.{n}[{i}]", t, True
        return f"s.{n}", t, True

    def op(self, p, t):
        """(expression, result type or None)."""
        r = self.r
        self.calls += 1
        o = lambda l: "Ordering::" + r.choice(l)
        cas = lambda m, a, b: f"{p}.{m}({a}, {b}, {o(RMW)}, {o(LD)})"
        k = r.random()
        if k < 0.13:
            return f"{p}.load({o(LD)})", t
        if k < 0.24:
            return f"{p}.store({self.expr(t)}, {o(STO)})", None
        if k < 0.33:
            return f"{p}.swap({self.expr(t)}, {o(RMW)})", t
        if k < 0.45 and t not in ("f32", "f64", "ptr"):
            cur = f"{p}.load({o(LD)})" if r.random() < 0.5 else self.expr(t)
            return f"match {cas('compare_exchange', cur, self.expr(t))} {{ Ok(v) => {r.choice(['v', f'{self.const(t)} ^ v', '!v'])}, Err(v) => v }}", t
        if k < 0.5 and t not in ("ptr",):
            return f"{cas('compare_exchange', self.expr(t), self.expr(t))}.is_ok()", "bool"
        if k < 0.58 and t in self.bits:
            a, b = self.expr(t), self.expr(t)
            f = r.choice([f"Some(c.wrapping_add({a}))", f"if c == {self.paren(a)} {{ None }} else {{ Some(c ^ {b}) }}", f"if ({a}) < c {{ Some({b}) }} else {{ Some(c) }}"])
            return f"match {p}.fetch_update({o(RMW)}, {o(LD)}, |c| {f}) {{ Ok(v) | Err(v) => v }}", t
        if t == "bool":
            m = r.choice(["fetch_and", "fetch_or", "fetch_xor", "fetch_nand", "fetch_not", "and", "or", "xor", "not"])
            a = "" if "not" in m else self.expr(t) + ", "
            return f"{p}.{m}({a}{o(RMW)})", t if m.startswith("fetch") else None
        if t in ("f32", "f64"):
            m = r.choice(["fetch_add", "fetch_sub", "fetch_max", "fetch_min", "fetch_neg", "fetch_abs"])
            n, _ = r.choice([x for x in self.live if x[1] in self.bits])
            a = "" if m in ("fetch_neg", "fetch_abs") else f"((({n} as i16) | 1) as {t}), "
            return f"{p}.{m}({a}{o(RMW)})", t
        if t == "ptr":
            m = r.choice(["fetch_ptr_add", "fetch_ptr_sub", "fetch_byte_add", "fetch_byte_sub", "fetch_or", "fetch_and", "fetch_xor", "bit_set", "bit_clear", "bit_toggle"])
            if m.startswith("bit"):
                return f"{p}.{m}({r.choice([str(r.randrange(self.pw)), self.expr('u32')])}, {o(RMW)})", "bool"
            return f"{p}.{m}({self.expr('usize')}, {o(RMW)})", t
        m = r.choice(["fetch_add", "add", "fetch_sub", "sub", "fetch_and", "and", "fetch_or", "or", "fetch_xor", "xor", "fetch_nand", "fetch_max", "fetch_min", "fetch_not", "not", "fetch_neg", "neg", "bit_set", "bit_clear", "bit_toggle"])
        if m.startswith("bit"):
            return f"{p}.{m}({r.choice([str(r.randrange(self.bits[t])), str(r.randrange(300)), self.expr('u32')])}, {o(RMW)})", "bool"
        a = "" if "not" in m or "neg" in m else self.expr(t) + ", "
        return f"{p}.{m}({a}{o(RMW)})", t if m.startswith("fetch") else None

    # ---- statements
    def new(self, t, e, ind="    "):
        n = f"v{self.n}"
        self.n += 1
        # pointers are kept as numbers
        if t == "ptr":
            t, e = "usize", f"({e}).addr()"
        txt = f"{ind}let {n}: {t} = {e};"
        return n, t, txt

    def assign(self):
        """A statement without effect on which variables exist."""
        r = self.r
        n, t = r.choice(self.mut)
        k = r.random()
        if k < 0.55:
            p, u, _ = self.place({t} if r.random() < 0.5 else None)
            e, u = self.op(p, u)
            if u is None:
                return f"{e};"
            if u == t:
                return f"{n} = {n} ^ {{ {e} }};" if t in self.bits and r.random() < 0.6 else f"{n} = {e};"
            if u in self.bits or u == "bool":
                return f"{n} = {n}.wrapping_add(({{ {e} }}) as {t});"
            if u == "ptr":
                return f"{n} = {n}.wrapping_add(({e}).addr() as {t});"
            return f"{n} ^= ({e}).to_bits() as {t};"
        if k < 0.7:
            return f"m[({self.var('usize')} & 7) as usize] = m[{r.randrange(8)}].wrapping_add({self.var('u64')});"
        if k < 0.8:
            return f"{n} = {n}.wrapping_add(m[({self.var('usize')} & 7) as usize] as {t});"
        return f"{n} = {self.expr(t)};"

    def block(self, n):
        return " ".join(self.assign() for _ in range(n))

    def stmt(self, top):
        """Top-level statement: list of (text, variables it makes)."""
        r = self.r
        k = r.random()
        if k < 0.36:
            p, t, _ = self.place()
            e, u = self.op(p, t)
            if u is None:
                return f"    {e};", []
            n, u, x = self.new(u, e)
            return x, [(n, u)]
        if k < 0.48:
            # decided before an operation, used after it
            t = r.choice([t for t in self.tys if t in self.bits])
            a, b = self.var(t), self.expr(t, 1)
            f = r.choice(["sub", "sub", "add", "borrow", "and", "cmp"])
            d = f"d{self.n}"
            c = f"c{self.n}"
            pre = {
                "sub": f"let {d}: {t} = {self.paren(a)}.wrapping_sub({b}); ", "add": f"let ({d}, {c}): ({t}, bool) = {self.paren(a)}.overflowing_add({b}); ",
                "borrow": f"let ({d}, {c}): ({t}, bool) = {self.paren(a)}.overflowing_sub({b}); ",
                "and": f"let {d}: {t} = {self.paren(a)} & {b}; ", "cmp": f"let {d}: {t} = {self.paren(b)}; let {c} = ({a}) < {d}; ",
            }[f]
            cond = {"sub": r.choice([f"{d} == 0", f"{d} != 0"]), "add": c, "borrow": c, "and": f"{d} != 0", "cmp": c}[f]
            if f == "sub" and t[0] == "i" and r.random() < 0.5:
                cond = f"{d} < 0"
            # the operation has to come after the decision where it uses the same result
            k = 12 if r.random() < 0.7 else 0
            self.live += [(d, t)] * k
            mid = " ".join(self.opstmt() for _ in range(r.randrange(1, 3)))
            if k:
                del self.live[-k:]
            u = r.choice([t for t in self.tys if t in self.bits])
            n, u, x = self.new(u, f"{{ {pre}{mid} {{ if {cond} {{ {self.block(1)} {self.expr(u, 2)} }} else {{ {self.block(r.randrange(2))} {d} as {u} }} }} }}")
            return x, [(n, u)]
        if k < 0.6:
            # counting down around operations
            t = r.choice([t for t in self.tys if t in self.bits])
            i = f"i{self.n}"
            self.n += 1
            self.live.append((i, t))
            mid = self.opstmt() + " " + self.block(r.randrange(3))
            self.live.pop()
            x = r.randrange(3)
            st = f"let mut {i}: {t} = ({self.var(t)} & 3) + 1; "
            if x == 0:
                return f"    {{ {st}loop {{ {i} = {i}.wrapping_sub(1); {mid} if {i} == 0 {{ break; }} }} }}", []
            if x == 1:
                return f"    {{ {st}while {i} != 0 {{ {mid} {i} = {i}.wrapping_sub(1); }} }}", []
            return f"    {{ {st}loop {{ let z = {i} == 1; {i} = {i}.wrapping_sub(1); {mid} if z {{ break; }} }} }}", []
        if k < 0.68:
            # plain accesses around an operation on the same object
            p, t, mu = self.place(set(self.bits) & set(self.tys))
            if t not in self.bits:
                return f"    {self.assign()}", []
            acc = (lambda: f"*{p}.get_mut()") if mu and r.random() < 0.6 else (lambda: f"*{p}.as_ptr()")
            e, _ = self.op(p, t)
            a, b = f"g{self.n}", f"h{self.n}"
            n, t, x = self.new(t, f"unsafe {{ let {a} = {acc()}; {acc()} = {self.expr(t)}; {{ {e}; }} let {b} = {acc()}; {acc()} = {b}.wrapping_add({a}); {r.choice([a, b, f'{a} ^ {b}'])} }}")
            return x, [(n, t)]
        if k < 0.75:
            # a local atomic, taken apart again
            t = r.choice([t for t in self.tys if t in self.bits])
            l = f"l{self.n}"
            self.n += 1
            x = f"let {l} = {ATOM[t]}::new({self.expr(t)}); "
            self.locals.append((l, t))
            x += " ".join(self.opon(l, t) for _ in range(r.randrange(1, 4)))
            self.locals.pop()
            n, t, x = self.new(t, f"{{ {x} {l}.into_inner() }}")
            return x, [(n, t)]
        if k < 0.83:
            # retry loop
            p, t, _ = self.place(set(self.bits) & set(self.tys))
            if t not in self.bits or "&" in p:
                return f"    {self.assign()}", []
            self.calls += 2
            c = f"c{self.n}"
            o = lambda l: "Ordering::" + r.choice(l)
            e = self.expr(t, 1)
            n, t, x = self.new(t, f"{{ let mut {c} = {p}.load({o(LD)}); let e = {e}; while let Err(v) = {p}.compare_exchange_weak({c}, {c}.{r.choice(['wrapping_add', 'wrapping_sub'])}(e), {o(RMW)}, {o(LD)}) {{ {c} = v; }} {c} }}")
            return x, [(n, t)]
        if k < 0.88:
            f = r.choice(self.helpers)
            t = f[1]
            args = ", ".join(self.expr(u, 2) for u in f[2])
            n, t, x = self.new(t, f"{f[0]}(s, {args})")
            return x, [(n, t)]
        if k < 0.94:
            return f"    if {self.expr('bool')} {{ {self.opstmt()} {self.block(r.randrange(3))} }} else {{ {self.block(r.randrange(1, 3))} }}", []
        return f"    {self.assign()}", []

    def opon(self, p, t):
        e, u = self.op(p, t)
        if u is None or not self.mut:
            return f"let _ = {e};"
        n, v = self.r.choice(self.mut)
        if u == "bool" or u in self.bits:
            return f"{n} = {n}.wrapping_add(({{ {e} }}) as {v});"
        if u == "ptr":
            return f"{n} ^= ({e}).addr() as {v};"
        return f"{n} ^= ({e}).to_bits() as {v};"

    def opstmt(self):
        p, t, _ = self.place()
        return self.opon(p, t)

    def helper(self, k):
        """A function that is not inlined, with many arguments."""
        r = self.r
        us = [r.choice([t for t in self.tys if t in self.bits]) for _ in range(r.randrange(2, 7))]
        t = r.choice([t for t in self.tys if t in self.bits])
        self.live = [(f"a{i}", u) for i, u in enumerate(us)]
        self.mut = [("w0", t)]
        self.locals = []
        b = " ".join(self.opstmt() for _ in range(r.randrange(1, 4)))
        f = f"#[inline(never)]\nfn h{k}(s: &mut S, {', '.join(f'a{i}: {u}' for i, u in enumerate(us))}) -> {t} {{\n    let mut w0: {t} = {self.var(t)};\n    {b}\n    w0{''.join(f'.wrapping_add(a{i} as {t})' for i in range(len(us)))}\n}}"
        self.helpers.append((f"h{k}", t, us))
        return f

    def program(self, k, seed, batch, keep):
        # every program has its own stream, so that leaving others out changes nothing
        saved = self.r
        r = self.r = random.Random(f"gp-{seed}-{batch}-{k}")
        self.helpers = []
        hs = [self.helper(f"{k}_{i}") for i in range(2)]
        self.live, self.mut, self.locals, self.n = [], [], [], 0
        nums = [t for t in self.tys if t in self.bits]
        out, names = [], []
        for i in range(r.randrange(4, 11)):
            t = r.choice(nums)
            n, t, x = self.new(t, f"a[{r.randrange(8)}] as {t}" if self.bits[t] <= 64 else f"((a[{r.randrange(8)}] as u128) << 64 | a[{r.randrange(8)}] as u128) as {t}")
            out.append(x)
            self.live.append((n, t))
        for i in range(r.randrange(2, 6)):
            t = r.choice(nums)
            out.append(f"    let mut w{i}: {t} = {self.const(t)};")
            self.mut.append((f"w{i}", t))
            self.live.append((f"w{i}", t))
        for n, t in self.statics:
            out.append(f"    {n}.store({self.expr(t, 3) if t not in ('f32', 'f64') else '1.0'}, Ordering::Relaxed);")
        c0 = self.calls
        body = []
        i = 0
        while i < 12 or self.calls - c0 < 6 or i < r.randrange(12, 36) and i < 40:
            x, vs = self.stmt(True)
            if i in self.off:
                # left out: the variables it makes are constants
                x = " ".join(f"    let {n}: {t} = {self.const2(t)};" for n, t in vs)
            body.append(x)
            self.live += vs
            i += 1
        self.nst = i
        end = []
        fin = [(n, t) for n, t in self.live]
        for n, t in fin:
            e = f"{n} as u128" if t in self.bits or t == "bool" else f"bits_{t}({n})"
            end.append(f"    t[{len(names)}] = {e};")
            line = next((b.strip() for b in out + body if re.match(rf"\s*let (mut )?{n}\b", b)), n)
            names.append(f"{n} [{line[:160]}]")
        for n, t in self.statics:
            v = f"{n}.load(Ordering::SeqCst)"
            end.append(f"    t[{len(names)}] = " + (f"{v} as u128;" if t in self.bits or t == "bool" else f"bits_{t}({v});"))
            names.append(n)
        self.r = saved
        hdr = f"fn p{k}(s: &mut S, a: &[u64; 8], m: &mut [u64; 8], t: &mut [u128; NT]) {{"
        text = "\n".join(hs + [hdr] + out + body + end + ["}"]) if keep else f"fn p{k}(s: &mut S, a: &[u64; 8], m: &mut [u64; 8], t: &mut [u128; NT]) {{}}"
        return text, names if keep else [], i

    def const2(self, t):
        return {"bool": "false", "f32": "1.0", "f64": "1.0"}.get(t, f"1_{t}")

    def source(self):
        out = ["use core::sync::atomic::Ordering;"]
        nt = max([len(p[1]) for p in self.progs] + [1])
        out.append(f"pub const NT: usize = {nt};\npub const CALLS: usize = {self.calls};")
        if "f32" in self.tys:
            out.append("fn bits_f32(x: f32) -> u128 { if x == 0.0 { 0 } else { x.to_bits() as u128 } }\nfn bits_f64(x: f64) -> u128 { if x == 0.0 { 0 } else { x.to_bits() as u128 } }")
        # no padding: guard bytes everywhere
        fs, tab, at = [], [], 0
        g = 0
        fnames = []

        def guard(n):
            nonlocal g, at
            if n:
                fs.append(f"    g{g}: [u8; {n}],")
                tab.append(f"(core::mem::offset_of!(S, g{g}), {n}, 0)")
                fnames.append(f"the bytes next to it (g{g})")
                g += 1
                at += n
        for n, t, k in self.fields:
            z = self.size(t)
            guard(-at % z)
            fs.append(f"    pub {n}: " + (f"[{ATOM[t]}; {k}]," if k else f"{ATOM[t]},"))
            kind = {"bool": 1, "f32": 2, "f64": 3}.get(t, 0)
            for i in range(k or 1):
                tab.append(f"(core::mem::offset_of!(S, {n}) + {i * z}, {z}, {kind})")
                fnames.append(f"{n}{f'[{i}]' if k else ''}: {ATOM[t]}")
            at += z * (k or 1)
            if self.r.random() < 0.3:
                guard(self.r.randrange(1, 4))
        guard(-at % 16)
        out.append("#[repr(C)]\npub struct S {\n" + "\n".join(fs) + "\n}")
        out.append(f"pub const SIZE: usize = core::mem::size_of::<S>();\npub const ALIGN: usize = core::mem::align_of::<S>();")
        out.append("pub static FIELDS: &[(usize, usize, u8)] = &[" + ", ".join(tab) + "];")
        if self.names:
            out.append("pub static FNAMES: &[&str] = &[" + ", ".join(json.dumps(x) for x in fnames) + "];")
        for n, t in self.statics:
            out.append(f"static {n}: {ATOM[t]} = {ATOM[t]}::new({self.const2(t)});")
        for p in self.progs:
            out.append(p[0])
        out.append("pub static PROGS: &[fn(&mut S, &[u64; 8], &mut [u64; 8], &mut [u128; NT])] = &[" + ", ".join(f"p{k}" for k in range(len(self.progs))) + "];")
        if self.names:
            out.append("pub static NAMES: &[&[&str]] = &[" + ", ".join("&[" + ", ".join(json.dumps(x) for x in p[1]) + "]" for p in self.progs) + "];")
        return "\n".join(out) + "\n"


def types(name):
    t = ["bool", "ptr", "f32", "f64"] + INTS
    if name.startswith(("armv4t", "armv5te")):
        t = [x for x in t if x not in ("bool", "u8", "i8", "u16", "i16")]
    return t


def fw_types(fw):
    small = fw.arch.startswith(("avr", "msp430"))
    # wide code is long there
    t = ["bool", "ptr"] + [t for t in INTS if not small or t not in ("i128", "u128", "i64")]
    return (t if small else t + ["f32", "f64"]), 16 if small else 64 if fw.arch == "rv64" else 32


class GpFw:
    """A firmware image of one batch."""

    def __init__(self, fw, progs):
        self.src, self.short, self.progs = fw, fw.name[2:], progs
        self.cfg = fw.gp()
        self.tys, self.pw = fw_types(fw)

    def gen(self, batch, only=None, off=()):
        return write(Gen(SEED, batch, self.progs, self.pw, self.tys, only, off, names=False))

    def build(self, batch, only=None, off=()):
        g, p = self.gen(batch, only, off)
        self.cfg.env["VGP_FILE"] = p
        self.cfg.build()
        self.g = g
        return g

    def run(self, args, **k):
        k.pop("keep", None)
        r = self.cfg.run(args | {"mode": "gp"}, **k)
        m = re.search(r"(FAIL prog=(\d+) .*## )trail (\d+) is", r.out)
        if m:
            r.out = r.out.replace(m[0], f"{m[1]}{self.g.progs[int(m[2])][1][int(m[3])]} is")
        return r


def write(g):
    t = g.source()
    d = os.path.join(TARGET, "gp")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"gp-{hashlib.sha256(t.encode()).hexdigest()[:16]}.rs")
    if not os.path.exists(p):
        with open(p + f".{threading.get_ident()}", "w") as f:
            f.write(t)
        os.replace(p + f".{threading.get_ident()}", p)
    return g, p


class Gp:
    """A build of one batch for one configuration."""

    def __init__(self, cfg, name, progs):
        self.src, self.short, self.progs = cfg, name, progs
        b = cfg.base or cfg
        self.cfg = Cfg("g-" + cfg.name, {"host": "gph", "cross": "gpx"}[b.crate], b.target, b.toolchain, b.flags, b.profile, cfg.runner, b.bare, b.std, dict(b.env), b.features, feed=cfg.feed)
        # shares the target directory, for the libraries
        self.cfg.dir = lambda: os.path.join(TARGET, b.name)
        self.pw = 64 if "64" in b.target or "s390x" in b.target else 32

    def gen(self, batch, only=None, off=()):
        return write(Gen(SEED, batch, self.progs, self.pw, types(self.short), only, off))

    def build(self, batch, only=None, off=()):
        g, p = self.gen(batch, only, off)
        self.cfg.env["VGP_FILE"] = p
        self.cfg.build(["gp"])
        return g

    def run(self, args, **k):
        return self.cfg.run("gp", args, **k)


def failure(r):
    """(program, input, text) or None"""
    f = r.lines("FAIL")
    if f:
        m = re.match(r"prog=(\d+) input=(\d+) ## (.*)", f[0])
        return int(m[1]), int(m[2]), m[3]
    return None


def find(gp, args, timeout):
    """Runs; a crash is located by a second, loud run."""
    r = gp.run(args, timeout=timeout)
    f = failure(r)
    if f:
        return r, f
    c = r.crash()
    if c or r.timed:
        r2 = gp.run(args | {"loud": 1}, timeout=max(10, timeout // 2))
        at = r2.lines("AT")
        if at:
            m = re.match(r"prog=(\d+) input=(\d+)", at[-1])
            return r, (int(m[1]), int(m[2]), f"the program {'dies: ' + c if c else 'does not end'}")
    return r, None


def shrink(gp, batch, k, j, want):
    """Leaves statements out while the program still fails."""
    budget = 3 if "does not end" in want else 9

    def still(off, n):
        try:
            gp.build(batch, k, off)
        except ToolError:
            return None
        f = find(gp, {"seed": SEED, "from": j, "count": n, "first": k, "progs": 1}, 15)[1]
        return f
    f = still((), 1)
    if not f:
        return (), j, want
    nst = gp.gen(batch, k)[0].progs[k][2]
    off, best = set(), f
    size = max(1, nst // 2)
    i = nst
    while budget > 0 and size >= 1:
        chunk = {x for x in range(max(0, i - size), i)} - off
        i -= size
        if chunk:
            budget -= 1
            g = still(tuple(sorted(off | chunk)), 1)
            if g:
                off |= chunk
                best = g
        if i <= 0:
            i = nst
            size //= 2
    return tuple(sorted(off)), j, best[2]


def run_gp(ck, plan):
    """plan: (config, short name, programs, inputs, batches)"""
    def one(c, name, progs, inputs, batches):
        for b in range(batches):
            if len(ck.viol) >= 3:
                return
            gp = GpFw(c, progs) if isinstance(c, isrl.Fw) else Gp(c, name, progs)
            g = gp.build(b)
            a = {"seed": SEED, "from": 0, "count": inputs}
            r, f = find(gp, a, 60 if inputs <= 100 else 400)
            st = r.stat()
            if st:
                ck.add(st["cases"], st["cases"], programs=st["programs"], inlined_atomic_calls=g.calls)
                ck.per(f"{c.name} inlined programs", programs=st["programs"], cases=st["cases"])
                if b == 0 and name in ("x64", "rv32", "ppc64"):
                    ck.sample(f"[{c.name}] " + g.progs[SEED % len(g.progs)][0][:650])
            if f:
                k, j, what = f
                r2, f2 = find(gp, a | {"from": j, "count": 1, "first": k, "progs": 1}, 20)
                if not f2 and inputs > 1:
                    r2, f2 = find(gp, a | {"first": k, "progs": 1}, 20)
                if not f2:
                    ck.error(f"{c.name}: failure does not replay: program {k} input {j}: {what}")
                    continue
                off, j, what = shrink(gp, b, k, j, what) if len(ck.viol) < 1 else ((), j, what)
                ck.violation(f"[{c.name}] generated program: {what}", {"engine": "gp", "cfg": c.name, "short": name, "seed": SEED, "progs": progs, "batch": b, "prog": k, "off": list(off), "input": j, "source": gp.gen(b, k, off)[0].progs[k][0].splitlines()})
                return
            if r.rc != 0 or not st:
                ck.error(f"{c.name}: gp gave rc {r.rc} (timed out {r.timed}): {r.out[-300:]} {r.err[-300:]}")
    grouped(ck, plan, one)


def grouped(ck, plan, one):
    """One job per target directory at a time."""
    groups = {}
    for p in plan:
        groups.setdefault((p[0].base or p[0]).name, []).append(p)
    for e in par([lambda ps=ps: [one(*p) for p in ps] for ps in groups.values()]):
        if isinstance(e, Exception):
            ck.error(str(e))


def prebuild(ck, plan):
    """The first batch."""
    grouped(ck, plan, lambda c, name, progs, inputs, batches: (GpFw(c, progs) if isinstance(c, isrl.Fw) else Gp(c, name, progs)).build(0))


def replay(d, cfgs):
    global SEED
    SEED = d["seed"]
    gp = GpFw(isrl.FW[d["short"]], d["progs"]) if d["short"] in isrl.FW and d["cfg"].startswith("f-") else Gp(cfgs[d["cfg"]], d["short"], d["progs"])
    gp.build(d["batch"], d["prog"], tuple(d["off"]))
    r, f = find(gp, {"seed": d["seed"], "from": d["input"], "count": 1, "first": d["prog"], "progs": 1}, 60)
    print(r.out, r.err, "exit", r.rc, f)
    return 1 if f else 0
