"""CPU models and feature reports (C15)."""
import random

from . import trl
from .base import *
from .cfgs import BARE, EXT_ZACAS, HWCAP2_LRCPC3, HWCAP2_LSE128, HWCAP_LSE, HWCAP_LSE2, LNX

RULE_DET = ("a detection case is a generated program of 1..3 threads (operations and is_lock_free queries on two 128-bit variables) run from a fresh process with single-stepped, generated preemptions, where every "
            "CPUID and XGETBV is answered by a generated CPU model (sometimes a different one per thread, as on a machine with unlike cores); non-trivial: at least two calls and the model was asked; distinct by hash of the whole case")
RULE_MOD = ("a model case is a generated machine (qemu CPU model with features taken away, plus the feature words the operating system reports) and generated programs run on it from fresh processes: generated operation sequences "
            "against the reference model, is_lock_free() against the machine's features, and the executed instructions of pairs of operations; non-trivial: the program ran to its end; distinct by machine and program")
LF = ("I8", "I16", "I32", "I64", "I128")


class Model:
    """One machine: how to run there and what must be lock-free."""

    def __init__(self, cfg, cpu, feed, i64, i128, lse2=0, avx=0):
        self.base = cfg
        c = BARE[cfg]
        run = list(c.runner) if cpu is None else cpu if isinstance(cpu, list) else [QEMU.get(cfg) or c.runner[0], "-cpu", cpu]
        self.cfg = c.clone(c.name, runner=run, feed=" ".join(x for x in (c.feed if cfg in STATIC_FEED else "", feed) if x))
        self.cfg.trace_opts = (run, lse2, avx)
        self.free = {"I8": True, "I16": True, "I32": True, "I64": i64, "I128": i128}
        self.text = f"{cfg} cpu={' '.join(cpu[1:]) if isinstance(cpu, list) else cpu} {feed}".strip()


QEMU = {"x64": "qemu-x86_64", "i686": "qemu-i386"}
STATIC_FEED = ("a64-lse2-rcpc3", "a64-lse2-128")
# configurations without detection: CPU models that have just what the target promises
MINIMAL = {
    "i686": ("n270 coreduo qemu32 Conroe max", True, False), "a64-noout": ("cortex-a53 cortex-a57 cortex-a72 cortex-a35", True, True),
    "a64-lse": ("cortex-a55 cortex-a76 neoverse-n1 a64fx", True, True), "a64-lse2": ("neoverse-v1 cortex-a710 neoverse-n2 max", True, True), "a64be": ("cortex-a53 cortex-a72", True, True),
    "mips": ("24Kf 34Kf 74Kf", False, False), "mipsel": ("24Kf 34Kf", False, False), "mips64": ("MIPS64R2-generic 5KEf", True, False),
    "armv6": ("arm1136 arm1176 arm11mpcore", True, False), "armv7": ("cortex-a8 cortex-a9 cortex-a15", True, False), "thumbv7": ("cortex-a8 cortex-a9 cortex-a7", True, False),
    "ppc": ("7400 750 g4 604 603", False, False), "s390x": ("z900-base", True, True), "s390x-z13": ("qemu", True, True), "s390x-z15": ("qemu", True, True),
    "rv64": ("sifive-u54 rv64,zba=off,zbb=off,zfa=off,zawrs=off", True, False), "rv32": ("sifive-u34", False, False), "ppc64le": ("power8", True, True), "ppc64le-pwr10": ("power10", True, True), "la64": ("la464", True, False),
}
# AT_HWCAP and AT_HWCAP2 as Linux reports them on POWER (and PowerPC 970, e5500, e6500)
PPC_FP = 0x8000000
P207, P300, P31, BOOKE = 0x80000000, 0x00800000, 0x00040000, 0x8000


def gen(i):
    """Machine number i."""
    r = random.Random(f"model-{SEED}-{i}")
    pick = r.choice
    fam = ["x64", "a64", "ppc64", "x64", "a64", "ppc64", "arm", "min", "rv", "rv"][i % 10]
    if fam == "x64":
        b = pick(["qemu64", "kvm64", "max", "Nehalem", "Haswell", "EPYC", "Opteron_G1", "Opteron_G4", "core2duo", "phenom", "Denverton", "Skylake-Client", "Conroe"])
        cx, avx, xs = r.random() < 0.6, r.random() < 0.6, r.random() < 0.7
        f = [b, "+cx16" if cx else "-cx16", "+avx,+ssse3,+sse4.1,+sse4.2" if avx else "-avx", "+xsave" if xs else "-xsave"]
        if r.random() < 0.4:
            f.append("vendor=" + pick(["GenuineIntel", "AuthenticAMD", "CentaurHauls", "HygonGenuine"]))
        return Model("x64", ",".join(f), "", True, cx, avx=int(cx and avx and xs))
    if fam == "a64":
        # what the hardware has; the operating system may report less
        hw = pick([("cortex-a53 cortex-a57 cortex-a72", 0, 0, 0, 0), ("cortex-a55 cortex-a76 neoverse-n1 a64fx", 1, 0, 0, 0), ("neoverse-v1 neoverse-n2 cortex-a710 max", 1, 1, 0, 0), ("neoverse-v1 max", 1, 1, 1, 0), ("max", 1, 1, 0, 1), ("max", 1, 1, 1, 1)])
        lse, lse2, rc, l128 = hw[1:]
        cpu = pick(hw[0].split())
        hide = pick(["", "", "", "lse", "lse2", "new", "all", "rc", "l128"])
        if hide in ("lse", "all"):
            lse = l128 = 0  # FEAT_LSE128 implies FEAT_LSE
        if hide in ("lse2", "all"):
            lse2 = 0
        if hide in ("new", "all", "rc"):
            rc = 0
        if hide in ("new", "all", "l128"):
            l128 = 0
        # fp asimd aes.. and the other words a kernel sets
        h = 0b11 | r.getrandbits(30) & (0b11111100 | 0x1FFFE << 9 & ~(1 << 25)) & ~(1 << 8)
        h2 = r.getrandbits(44)
        h |= lse * HWCAP_LSE | lse2 * HWCAP_LSE2
        h2 |= rc * HWCAP2_LRCPC3 | l128 * HWCAP2_LSE128
        return Model("a64", cpu, f"hwcap={h} hwcap2={h2} ill={rc * lse2 | l128 * lse2 * 2}", True, True, lse2=lse2)
    if fam == "ppc64":
        b = "ppc64"
        k = pick(["970", "power7", "power8", "power9", "power10", "power8-compat7", "booke", "none", "obsd9", "obsd10"])
        h = 0xDC0065C2 if k not in ("970", "booke") else 0xDC080000 if k == "970" else 0x8C008000 | 0x40000000
        h &= ~(BOOKE if k != "booke" else 0)
        h2 = {"970": 0, "power7": 0x3C000000 & ~P207, "power8": 0xEF000000, "power9": 0xEFE00000, "power10": 0xEFE60000, "power8-compat7": 0x28000000, "booke": pick([0x08000000, 0x88000000]), "none": 0,
              "obsd9": P300, "obsd10": P31 | P300}[k]
        if r.random() < 0.3:
            h2 &= ~0x40000000  # no transactional memory
        cpu = {"970": "970", "power7": "power7", "power8": "power8", "power9": "power9", "power10": "power10", "power8-compat7": pick(["power7", "power8"]), "booke": "power7", "none": "power7", "obsd9": "power9", "obsd10": "power10"}[k]
        return Model(b, cpu, f"hwcap={h} hwcap2={h2}", True, not h & BOOKE and h2 & (P207 | P300 | P31) != 0)
    if fam == "arm":
        b = pick(["armv4t", "armv5te"])
        v = pick([3, 4, 5, 6])
        return Model(b, pick(["arm926", "arm946"]) if b == "armv5te" else "ti925t", f"kuser={v}", v >= 5, False)
    if fam == "rv":
        b = pick(["rv64", "rv32"])
        probe, known, ima = pick([0, 1, 1, 1, 1, 1]), pick([3, 4, 4, 5, 13, 13, 2, 0]), pick([1, 1, 1, 1, 3, 0])
        ext = r.getrandbits(64) & ~EXT_ZACAS
        if r.random() < 0.6:
            ext |= EXT_ZACAS
        elif r.random() < 0.5:
            ext = 1 << pick([32, 33, 35, 2, 4])  # a neighbour of the bit
        says = probe and known >= 4 and ima & 1 and ext & EXT_ZACAS != 0
        has = int(bool(says) or probe == 0 and r.random() < 0.3)  # an old kernel on a new machine
        return Model(b, [LNX, f"zacas={has}", f"zabha={pick([0, 1])}", f"probe={probe}", f"known={known}", f"ima={ima}", f"ext={ext}", f"rest={r.getrandbits(32)}"], "", b == "rv64" or bool(says), b == "rv64" and bool(says))
    b = pick(sorted(MINIMAL))
    cpus, i64, i128 = MINIMAL[b]
    return Model(b, pick(cpus.split(" ")), "", i64, i128, lse2=int("lse2" in b))


def wide(m):
    if m.base.startswith("armv"):
        return ["U64,I64", "I64", "U64,F64", "U32,U64,U128"]
    if m.base in ("i686", "rv32", "mips", "mipsel", "armv6", "armv7", "thumbv7", "ppc"):
        return ["U64,I64", "F64,U64", "U32,U64,U128", "I8,U16,U64,I128", "U128"]
    return ["U128", "I128", "I128,U128", "U64,U128", "I8,U16,U32,U64,I128"]


def one_model(i, progs, cases):
    """Runs machine i. Returns (model, fails, error, stats)."""
    m = gen(i)
    r = random.Random(f"progs-{SEED}-{i}")
    st = {"cases": 0, "distinct": 0, "ops": 0, "orders": 0, "emulated": 0}
    samples = []
    for j in range(progs):
        tys = r.choice(wide(m))
        args = {"seed": SEED, "stream": 1500, "from": i * 1000 + j * 50, "count": cases, "types": tys}
        x = m.cfg.run("xseq", args, timeout=120)
        for l in x.lines("EMULATED"):
            st["emulated"] += sum(int(w.split("=")[1]) for w in l.split())
        got = {l.split()[0]: "lock_free=true" in l for l in x.lines("INFO")}
        rp = {"engine": "model", "model": i, "cfg": m.cfg.name, "bin": "xseq", "args": args, "case": m.text}
        for t, v in got.items():
            if v != m.free[t]:
                return m, (f"{t}: is_lock_free() is {v}, but {'' if m.free[t] else 'not '}all instructions it needs are there", rp), None, st, samples
        c = x.crash()
        if c:
            return m, (f"the program dies: {c} (types {tys})", rp), None, st, samples
        f = x.lines("FAIL")
        if f:
            return m, (f"wrong result: {f[0][:300]}", rp), None, st, samples
        s = x.stat()
        if x.rc != 0 or not s or len(got) < 3:
            return m, None, f"{m.text}: xseq {args} gave rc {x.rc} (timed out {x.timed}): {x.out[-300:]} {x.err[-300:]}", st, samples
        st["cases"] += s["cases"]
        st["distinct"] += s["distinct"]
        st["ops"] += s["ops"]
    tys = wide(m)[0] if m.base.startswith("armv") else "U128,I128" if trl.bits(m.cfg) == 64 else "U64,I64,F64,U128"
    inp = f"seed={SEED} stream=1501 types={tys} from={i * 20} count=20"
    t = trl.trace(m.cfg, inp, "single,lock", timeout=120)
    s = t.stat()
    f = trl.outcome(t)
    if f:
        what = f[2].split(" ;;")
        return m, (what[0] + (f" (executed:{what[1][:200]})" if len(what) > 1 else ""), {"engine": "model", "model": i, "cfg": m.cfg.name, "bin": "xtr", "input": inp, "case": m.text + " " + f[1]}), None, st, samples
    if t.rc != 0 or not s or "END rc=0" not in t.out:
        return m, None, f"{m.text}: trace {inp} gave rc {t.rc} (timed out {t.timed}): {t.out[-400:]}", st, samples
    st["cases"] += s["cases"]
    st["distinct"] += s["distinct"]
    st["orders"] += s["edges"]
    return m, None, None, st, [f"{m.text}: {st['cases']} cases, lock-free {[k for k in LF if m.free[k]]}"]


def run_models(ck, first, count, progs, cases):
    from . import xint
    xint.build_tools()

    def one(i):
        if len(ck.viol) >= 4:
            return
        m, f, e, st, smp = one_model(i, progs, cases)
        ck.add(st["cases"], st["distinct"], machines=1, operations_on_models=st["ops"], single_access_checks=st["orders"], emulated_instructions=st["emulated"])
        ck.per(f"{m.cfg.name} models", machines=1, cases=st["cases"])
        if i - first < 16:
            ck.sample(*smp)
        if e:
            ck.error(e)
        elif f:
            _, g, _, _, _ = one_model(i, progs, cases)
            if g is None:
                ck.error(f"{m.text}: failure does not replay: {f[0]}")
            else:
                ck.violation(f"[{m.text}] {g[0]}", g[1] | {"progs": progs, "cases": cases})

    for e in par([lambda i=i: one(i) for i in range(first, first + count)]):
        if isinstance(e, Exception):
            ck.error(repr(e))


def replay_model(d):
    BARE[gen(d["model"]).base].build([d["bin"], "xseq", "xtr"])
    m, f, e, _, _ = one_model(d["model"], d["progs"], d["cases"])
    print(m.text, f, e)
    return 1 if f else 0


# ---- single-stepped programs with emulated CPUID (x86_64)
def probe(cfg, case):
    r = cfg.run("det", {}, body=case, timeout=120, cpu=60)
    f = r.lines("FAIL")
    if f:
        return f[0]
    if r.crash():
        return "the program dies: " + r.crash()
    return None


def kind(d):
    return re.sub(r"[0-9a-f]{4,}|\d+", "#", d)[:40]


def shrink(cfg, case, want):
    n = [0]

    def still(c):
        n[0] += 1
        d = probe(cfg, c)
        return d is not None and kind(d) == kind(want)

    if not still(case):
        return case, want
    case = shrink_case(case, still, 80)
    while n[0] < 140:
        m = re.search(r"sched=(\S*?)(;|$)", case)
        g = [x for x in m.group(1).split(",") if x] if m else []
        for i in range(len(g)):
            c = case.replace("sched=" + ",".join(g), "sched=" + ",".join(g[:i] + g[i + 1:]), 1)
            if still(c):
                case = c
                break
        else:
            break
    return case, probe(cfg, case) or want


def run_det(ck, plan):
    """plan: list of (cfg, cases, chunks, stream, seconds)."""
    jobs = []
    for cfg, count, chunks, stream, secs in plan:
        per = max(1, count // chunks)
        for j in range(chunks):
            jobs.append((cfg, {"seed": SEED, "stream": stream, "from": j * per, "count": per, "secs": secs, "samples": 1 if j == 0 else 0}))

    def one(job):
        cfg, args = job
        if len(ck.viol) >= 2:
            return
        r = cfg.run("det", args, timeout=args["secs"] * 3 + 300)
        st = r.stat()
        if st:
            ck.add(st["cases"], st["distinct"], instructions_scheduled=st["instructions"], preemptions_inside_operations=st["preemptions_inside_operations"], detected_more_than_once=st["detected_more_than_once"])
            ck.per(f"{cfg.name} emulated CPUID", cases=st["cases"], detected_more_than_once=st["detected_more_than_once"])
            ck.sample(*[f"[{cfg.name}] {s}" for s in r.samples()])
        f = r.lines("FAIL")
        if f:
            case, desc = fail_parts(f[0])
            d = probe(cfg, case)
            if d is None:
                ck.error(f"{cfg.name}: failure does not replay: {desc} // {case}")
                return
            case, desc = shrink(cfg, case, d)
            ck.violation(f"[{cfg.name}] {desc}", {"engine": "det", "cfg": cfg.name, "bin": "det", "case": case})
        elif r.rc != 0 or not st:
            ck.error(f"{cfg.name}: det {args} gave rc {r.rc} (timed out {r.timed}): {r.out[-300:]} {r.err[-300:]}")

    for e in par([lambda j=j: one(j) for j in jobs]):
        if isinstance(e, Exception):
            ck.error(repr(e))
