"""Instruction-level schedules on x86 (C03, C05, C09, C15): generated programs of 2..3 threads."""
from .base import *

RULE_TF = ("a case is a generated program of 2..3 threads with 1..3 operations each on one or two variables (adjacent, lock-sharing or unrelated), plus a generated schedule that switches "
           "between any two machine instructions (trap-flag single stepping): one preemption and whole runs, a few long segments, or many short ones, then fair turns; "
           "non-trivial: a thread was preempted inside an operation while another thread's different or value-changing operation on the same variable overlapped it; distinct by hash of the whole case")


def kind(desc):
    return desc.split(":")[0][:60]


def probe(cfg, case):
    r = cfg.run("tf", {}, body=case, timeout=120, cpu=60)
    if r.crash():
        return "the program dies: " + r.crash()
    f = r.lines("FAIL")
    if f:
        return f[0]
    if r.rc == -signal.SIGXCPU:
        return "does not terminate (60 s of CPU time)"
    return None


def shrink(cfg, case, want, budget=120):
    n = [0]

    def still(c):
        n[0] += 1
        d = probe(cfg, c)
        return d is not None and kind(d) == kind(want)

    def sched(c):
        m = re.search(r"sched=(\S*?)(;|$)", c)
        return m.group(1).split(",") if m and m.group(1) else []

    if not still(case):
        return case, want
    # fewer operations, then fewer and shorter segments
    h, ops = split_case(case)
    i = 0
    while i < len(ops) and n[0] < budget:
        t = ops[:i] + ops[i + 1:]
        # thread numbers must stay
        if t and still(join_case(h, t)):
            ops = t
        else:
            i += 1
    case = join_case(h, ops)
    i = 0
    while n[0] < budget:
        g = sched(case)
        if i >= len(g):
            break
        t = g[:i] + g[i + 1:]
        c = case.replace("sched=" + ",".join(g), "sched=" + ",".join(t), 1)
        if still(c):
            case = c
        else:
            i += 1
    return case, probe(cfg, case) or want


def run_tf(ck, plan, n=None, warm=0):
    """plan: list of (cfg, types, mode, cases, chunks, stream, seconds)."""
    jobs = []
    for cfg, tys, mode, count, chunks, stream, secs in plan:
        per = max(1, count // chunks)
        for j in range(chunks):
            jobs.append((cfg, {"seed": SEED, "stream": stream, "from": j * per, "count": per, "types": tys, "mode": mode, "secs": secs, "samples": 1 if j == 0 else 0} | ({"warm": warm} if warm else {})))

    def one(job):
        cfg, args = job
        if len(ck.viol) >= 2:
            return
        r = cfg.run("tf", args, timeout=args["secs"] * 3 + 300)
        st = r.stat()
        if st:
            ck.add(st["cases"], st["distinct"], instructions_scheduled=st["instructions"], preemptions_inside_operations=st["preemptions_inside_operations"])
            ck.per(f"{cfg.name} {args['mode']} {args['types']}{' near wrap' if warm else ''}", cases=st["cases"], preemptions=st["preemptions_inside_operations"])
            ck.sample(*[f"[{cfg.name}] {s}" for s in r.samples()])
        if r.rc == 0 and st:
            return
        f = r.lines("FAIL")
        if f:
            case, desc = fail_parts(f[0])
            d2 = probe(cfg, case)
            if d2 is None or kind(d2) != kind(desc):
                ck.error(f"{cfg.name}: failure does not replay: {desc} // {case}")
                return
            if not warm:
                case, desc = shrink(cfg, case, desc)
            ck.violation(f"[{cfg.name}] {desc}", {"engine": "tf", "cfg": cfg.name, "bin": "tf", "case": case})
            return
        idx = r.index()
        if r.crash() and idx is not None:
            sh = cfg.run("tf", {k: args[k] for k in ("seed", "stream", "types", "mode", "warm") if k in args} | {"show": idx})
            c = next((l[5:] for l in sh.out.splitlines() if l.startswith("case ")), None)
            d = c and probe(cfg, c)
            if d:
                c, d = shrink(cfg, c, d)
                ck.violation(f"[{cfg.name}] {d}", {"engine": "tf", "cfg": cfg.name, "bin": "tf", "case": c})
                return
        ck.error(f"{cfg.name}: tf {args} gave rc {r.rc}, timed out {r.timed}: {r.out[-300:]} {r.err[-300:]}")

    for e in par([lambda j=j: one(j) for j in jobs], n):
        if isinstance(e, Exception):
            ck.error(repr(e))
