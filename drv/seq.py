"""Single-thread sequences against the reference model (C01, C02, C08, C12, C15)."""
from .base import *

INT = "Bool,Ptr0,Ptr1,Ptr24,I8,U8,I16,U16,I32,U32,I64,U64,Isize,Usize,I128,U128"
FLT = "F32,F64,F16,F128"
ALL = INT + "," + FLT


def locate(cfg, binary, args):
    """The index of the case a dying run was in: run it again, one line per case."""
    r = cfg.run(binary, {**args, "loud": 1}, timeout=300, cpu=240)
    last = None
    for l in r.out.splitlines():
        if l.startswith("AT "):
            last = int(l[3:])
    return last


def investigate(ck, cfg, binary, args, r):
    """A run that neither finished nor printed FAIL: crashed, hung or was slow."""
    idx = r.index()
    if idx is None:
        idx = locate(cfg, binary, args)
    if idx is None:
        if r.crash() or r.rc == -signal.SIGXCPU:
            ck.error(f"{cfg.name}: {binary} {args} died ({r.crash() or r.rc}) before the first case: {r.out[-300:]} {r.err[-300:]}")
        else:
            ck.error(f"{cfg.name}: {binary} {args} gave no result (rc {r.rc}, timed out {r.timed})")
        return
    sh = cfg.run(binary, {k: v for k, v in args.items() if k in ("seed", "stream", "types", "mode")} | {"show": idx}, timeout=60)
    case = next((l for l in sh.out.splitlines() if l.startswith("case ")), None)
    if case is None:
        ck.error(f"{cfg.name}: cannot show case {idx}: {sh.out[-300:]}")
        return

    def dies(c):
        q = cfg.run(binary, {"replay": 1} if cfg.bare else {}, body=c, timeout=120, cpu=20)
        if q.crash():
            return "the program dies: " + q.crash()
        if q.rc == -signal.SIGXCPU or (q.timed and False):
            return "does not terminate (20 s of CPU time for this sequence)"
        return None

    why = dies(case)
    if not why:
        ck.error(f"{cfg.name}: {binary} {args} died at case {idx} ({r.crash() or r.rc}), not reproducible alone")
        return
    if "terminate" not in why:
        case = shrink_case(case, lambda c: bool(dies(c)))
        why = dies(case) or why
    ck.violation(f"[{cfg.name}] {why}: {case}", {"engine": "seq", "cfg": cfg.name, "bin": binary, "case": case})


def run_seq(ck, plan, mode="value"):
    """plan: list of (cfg, types, cases, chunks, stream)."""
    jobs = []
    for cfg, tys, count, chunks, stream in plan:
        per = max(1, count // chunks)
        for j in range(chunks):
            jobs.append((cfg, {"seed": SEED, "stream": stream, "from": j * per, "count": per, "types": tys, "mode": mode, "samples": 8 if j == 0 else 0}))

    def one(job):
        cfg, args = job
        if len(ck.viol) >= 3:
            return
        b = "xseq" if cfg.bare else "seq"
        r = cfg.run(b, args, timeout=700, cpu=600)
        st = r.stat()
        if r.rc in (0, 1) and st:
            ck.add(st["cases"], st["distinct"], operations=st["ops"], value_changing_operations=st["changed"], cas_ok=st["cas_ok"], cas_failed=st["cas_fail"], both_halves_changed=st["both_halves"])
            ck.per(cfg.name, cases=st["cases"], operations=st["ops"])
            for l in r.lines("INFO"):
                w = l.split()
                ck.per(cfg.name, **{w[0]: " ".join(w[1:])})
            ck.sample(*[f"[{cfg.name}] {s}" for s in r.samples()[:3]])
            if st.get("other"):
                ck.per(cfg.name, other_kind_of_failure=st["other"])
        if r.rc == 0 and st:
            return
        fl = r.lines("FAIL")
        if fl:
            case, desc = fail_parts(fl[0])
            ck.violation(f"[{cfg.name}] {desc}", {"engine": "seq", "cfg": cfg.name, "bin": b, "case": case})
            return
        investigate(ck, cfg, b, args, r)

    for e in par([lambda j=j: one(j) for j in jobs]):
        if isinstance(e, Exception):
            ck.error(repr(e))


RULE = ("a case is one generated sequence of 1..40 operations (orderings, arguments aimed at the current value, sign/carry/width boundaries) "
        "on one atomic at a generated position between guard bytes; non-trivial: at least two operations changed the stored value; "
        "distinct by hash of the whole case (hash collisions only lower the count)")
