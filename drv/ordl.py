"""Orderings an operation does not accept (C07)."""
from .base import *

RULE_ORD = ("a case is one operation (or fence) of a generated type with generated value, arguments and orderings, three quarters of them drawn from the operations that reject some orderings; "
            "non-trivial: the orderings are ones the operation must reject; distinct by type, operation and pair of orderings")


def run_ord(ck, plan):
    """plan: list of (cfg, types, cases, chunks, stream)."""
    jobs = []
    for cfg, tys, count, chunks, stream in plan:
        per = max(1, count // chunks)
        for j in range(chunks):
            jobs.append((cfg, {"seed": SEED, "stream": stream, "from": j * per, "count": per, "types": tys}))
    kinds = {}

    def one(job):
        cfg, args = job
        if len(ck.viol) >= 6:
            return
        b = "xord" if cfg.bare else "ord"
        r = cfg.run(b, args, timeout=500)
        st = r.stat()
        f = r.lines("FAIL")
        if st:
            ck.add(st["cases"], 0, must_panic=st["must_panic"])
            kinds[cfg.name] = max(kinds.get(cfg.name, 0), st["distinct"])
            ck.per(cfg.name, cases=st["cases"], must_panic=st["must_panic"])
            ck.sample(*[f"[{cfg.name}] {s}" for s in r.samples()[:1]])
        if f:
            case, desc = fail_parts(f[0])
            case = case[case.index("ord "):]
            ck.violation(f"[{cfg.name}] {desc}", {"engine": "ord", "cfg": cfg.name, "bin": b, "case": case})
        elif r.crash() and not cfg.bare:
            idx = r.index()
            q = cfg.run(b, {**args, "loud": 1}, timeout=500)
            at = [l for l in q.out.splitlines() if l.startswith("AT ")]
            case = at[-1].split(" ", 2)[2] if at else ""
            ck.violation(f"[{cfg.name}] the program dies or hangs ({r.crash()}) at case {idx}: {case}", {"engine": "ord", "cfg": cfg.name, "bin": b, "case": case})
        elif r.rc != 0 or not st:
            ck.error(f"{cfg.name}: {b} {args} gave rc {r.rc} (timed out {r.timed}): {r.out[-300:]} {r.err[-300:]}")

    for e in par([lambda j=j: one(j) for j in jobs]):
        if isinstance(e, Exception):
            ck.error(repr(e))
    ck.add(0, sum(kinds.values()))
