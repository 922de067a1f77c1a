"""fetch_update with scripted closures (C11)."""
from .base import *

RULE_FU = ("a fetch_update case is four variables and four scripts, each a fetch_update whose closure operates on generated variables, nests other scripts, and gives a value, None or (on hosts) panics, call by call; "
           "four of them run in turn; non-trivial: more than four closure calls, with a retry or a nested fetch_update; distinct by the whole script")
NACT = 36


def shrink(cfg, b, args, what):
    """Leaves out the closure's actions, one after another, while it still fails alike."""
    drop = []

    def fails(d):
        r = cfg.run(b, {**args, "drop": ",".join(map(str, d))}, timeout=60)
        f = r.lines("FAIL")
        if f:
            return fail_parts(f[0])[1]
        return r.crash()
    last = None
    for k in range(NACT):
        e = fails(drop + [k])
        if e:
            drop.append(k)
            last = e
    return drop, last or what


def run_fu(ck, plan):
    """plan: list of (cfg, types, cases, chunks, stream)."""
    jobs = []
    for cfg, tys, count, chunks, stream in plan:
        per = max(1, count // chunks)
        for j in range(chunks):
            jobs.append((cfg, {"seed": SEED, "stream": stream, "from": j * per, "count": per, "types": tys}))
    kinds = {}

    def one(job):
        cfg, args = job
        if len(ck.viol) >= 6:
            return
        b = "xfu" if cfg.bare else "fu"
        r = cfg.run(b, args, timeout=500)
        st = r.stat()
        f = r.lines("FAIL")
        if st:
            d = st.pop("distinct")
            n = st.pop("cases")
            ck.add(n, d, **st)
            ck.per(cfg.name, cases=n, **st)
            ck.sample(*[f"[{cfg.name}] {s}" for s in r.samples()[:1]])
        if f or r.crash():
            if f:
                idx = int(re.search(r"index=(\d+)", f[0]).group(1))
                desc = fail_parts(f[0])[1]
            else:
                if cfg.bare:
                    r = cfg.run(b, {**args, "loud": 1}, timeout=500)
                    at = [l for l in r.out.splitlines() if l.startswith("AT ")]
                    idx = int(at[-1].split()[1]) if at else args["from"]
                else:
                    idx = r.index() if r.index() is not None else args["from"]
                desc = f"the program dies or hangs ({r.crash()}) at case {idx}"
            small = {**args, "from": idx, "count": 1}
            drop, desc = shrink(cfg, b, small, desc)
            small["drop"] = ",".join(map(str, drop))
            ck.violation(f"[{cfg.name}] {desc}", {"engine": "fu", "cfg": cfg.name, "bin": b, "case": desc, "args": small})
        elif r.rc != 0 or not st:
            ck.error(f"{cfg.name}: {b} {args} gave rc {r.rc} (timed out {r.timed}): {r.out[-300:]} {r.err[-300:]}")

    for e in par([lambda j=j: one(j) for j in jobs]):
        if isinstance(e, Exception):
            ck.error(repr(e))
