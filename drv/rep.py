"""Lock-freedom reports (C09, C15)."""
from .base import *


def run_rep(ck, host, bare):
    """host: list of (cfg, cases, stream); bare: list of (cfg, processes, stream)."""
    jobs = []
    for cfg, n, st in host:
        jobs.append((cfg, "rep", {"seed": SEED, "stream": st, "from": 0, "count": n}))
    for cfg, n, st in bare:
        for i in range(n):
            jobs.append((cfg, "xrep", {"seed": SEED, "stream": st, "from": i}))

    def one(j):
        cfg, b, args = j
        if len(ck.viol) >= 4:
            return
        r = cfg.run(b, args, timeout=300)
        st = r.stat()
        if st:
            ck.add(st["cases"], st["distinct"])
            ck.per(f"{cfg.name} reports", cases=st["cases"], **({"lock_free/always": " ".join(r.lines("INFO"))} if args["from"] == 0 else {}))
        f = r.lines("FAIL")
        if f:
            case, desc = fail_parts(f[0])
            ck.violation(f"[{cfg.name}] {desc}", {"engine": "rep", "cfg": cfg.name, "bin": b, "case": case, "args": args})
        elif r.crash():
            ck.violation(f"[{cfg.name}] the program dies: {r.crash()}", {"engine": "rep", "cfg": cfg.name, "bin": b, "case": "", "args": args})
        elif r.rc != 0 or not st:
            ck.error(f"{cfg.name}: {b} {args} gave rc {r.rc} (timed out {r.timed}): {r.out[-300:]} {r.err[-300:]}")

    for e in par([lambda j=j: one(j) for j in jobs]):
        if isinstance(e, Exception):
            ck.error(repr(e))
