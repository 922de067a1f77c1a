"""Formatting, conversions, serde against plain values (C13)."""
from .base import *

RULE_FMT = ("a case is a value of a type, a way to build the atomic from it, and one of: Debug or Pointer under generated options (1008 combinations of fill, alignment, sign, #, 0, width, precision, hex; nested; into a sink that fails after some bytes), "
            "serialization into a recording serializer (failing or not) or JSON, deserialization (also in place) from a generated token or JSON text, a conversion round trip, or Default; the oracle is the plain value treated alike; non-trivial: the value is not zero; distinct by the whole case")


def run_fmt(ck, plan):
    """plan: list of (cfg, types, cases, chunks, stream)."""
    jobs = []
    for cfg, tys, count, chunks, stream in plan:
        per = max(1, count // chunks)
        for j in range(chunks):
            jobs.append((cfg, {"seed": SEED, "stream": stream, "from": j * per, "count": per, "types": tys}))

    def one(job):
        cfg, args = job
        if len(ck.viol) >= 6:
            return
        r = cfg.run("fmt", args, timeout=600)
        st = r.stat()
        if st:
            d, n = st.pop("distinct"), st.pop("cases")
            ck.add(n, d, **st)
            ck.per(cfg.name, cases=n, **st)
            ck.sample(*[f"[{cfg.name}] {s}" for s in r.samples()[:1]])
        f = r.lines("FAIL")
        if f:
            case, desc = fail_parts(f[0])
            ck.violation(f"[{cfg.name}] {desc}", {"engine": "fmt", "cfg": cfg.name, "bin": "fmt", "case": case})
        elif r.crash():
            i = r.index()
            ck.violation(f"[{cfg.name}] the program dies ({r.crash()}) at case {i}", {"engine": "fmt", "cfg": cfg.name, "bin": "fmt", "case": "", "args": {**args, "from": i or 0, "count": 1}})
        elif r.rc != 0 or not st:
            ck.error(f"{cfg.name}: fmt {args} gave rc {r.rc} (timed out {r.timed}): {r.out[-300:]} {r.err[-300:]}")

    for e in par([lambda j=j: one(j) for j in jobs]):
        if isinstance(e, Exception):
            ck.error(repr(e))
