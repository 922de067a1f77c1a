"""Threads in parallel (C03, C04)."""
from .base import *

RULE_PAR = ("a case is a generated set of 1..6 variables of generated types packed into 64 bytes, with 2..8 threads making ~1500 generated operations each, every variable under a discipline whose outcome is known "
            "(own bit fields changed by any operation, flips, maxima/minima, sums, increments with previous values, exchanged tokens, a stored sequence); "
            "non-trivial: at least one variable was changed by two or more threads")


def kind(d):
    return re.sub(r"0x[0-9a-f]+|\d+", "#", d)[:40]


def reproduce(cfg, case, times=150):
    r = cfg.run("par", {"times": times}, body=case, timeout=200)
    f = r.lines("FAIL")
    if f:
        return fail_parts(f[0])[1]
    if r.crash():
        return "the program dies: " + r.crash()
    return None


def shrink(cfg, case, desc):
    m = re.match(r"par threads=(\d+) ops=(\d+) seed=(\d+) vars=(\S+)", case)
    if not m or "no progress" in desc:
        return case, desc
    nt, ops, seed, vs = int(m[1]), int(m[2]), m[3], m[4].split(",")
    mk = lambda nt, ops, vs: f"par threads={nt} ops={ops} seed={seed} vars={','.join(vs)}"
    for v in list(vs):
        d = reproduce(cfg, mk(nt, ops, [v]))
        if d:
            vs, desc = [v], d
            break
    for t in (2, 3):
        if t < nt:
            d = reproduce(cfg, mk(t, ops, vs))
            if d:
                nt, desc = t, d
                break
    while ops > 20:
        d = reproduce(cfg, mk(nt, ops // 2, vs), 600)
        if not d:
            break
        ops, desc = ops // 2, d
    return mk(nt, ops, vs), desc


def run_par(ck, plan, n=2):
    """plan: list of (cfg, types, threads, seconds, cases, stream)."""
    def one(p):
        cfg, tys, nt, secs, cases, stream = p
        if ck.viol:
            return
        args = {"seed": SEED, "stream": stream, "types": tys, "threads": nt, "count": cases, "secs": secs, "samples": 2}
        r = cfg.run("par", args, timeout=secs * 4 + 200)
        st = r.stat()
        if st:
            ck.add(st["cases"], st["distinct"], parallel_operations=st["operations"])
            ck.per(f"{cfg.name} parallel, up to {nt} threads", cases=st["cases"], operations=st["operations"])
            ck.sample(*[f"[{cfg.name}] {s}" for s in r.samples()])
        f = r.lines("FAIL")
        if f:
            case, desc = fail_parts(f[0])
            case, desc = shrink(cfg, case, desc)
            ck.violation(f"[{cfg.name}] {desc}", {"engine": "par", "cfg": cfg.name, "bin": "par", "case": case})
        elif r.crash():
            ck.violation(f"[{cfg.name}] the program dies: {r.crash()}", {"engine": "par", "cfg": cfg.name, "bin": "par", "case": "", "args": args})
        elif r.rc != 0 or not st:
            ck.error(f"{cfg.name}: par {args} gave rc {r.rc} (timed out {r.timed}): {r.out[-300:]} {r.err[-300:]}")

    for e in par([lambda p=p: one(p) for p in plan], n):
        if isinstance(e, Exception):
            ck.error(repr(e))
