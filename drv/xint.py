"""Operations interrupted at a chosen instruction on every architecture (C03, C04, C09)."""
from .base import *
from .seq import *

RULE_XINT = ("a case is one generated operation on a lock-free atomic under qemu, interrupted (up to three times) at generated instructions of it by a signal handler that makes 1..6 generated operations "
             "(library calls or the harness's own atomic instructions) on the same variable and its neighbour; non-trivial: the handler operated on the same variable")
TOOLS = os.path.join(TARGET, "tools")
_sy = {}


def build_tools():
    os.makedirs(TOOLS, exist_ok=True)
    with open(os.path.join(TOOLS, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "+1.99.1", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "h", "tools"), env={**base_env(), "CARGO_TARGET_DIR": TOOLS, "RUSTFLAGS": ""}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError("build of vtools failed:\n" + r.stdout[-1500:])


def symbols(path):
    if path not in _sy:
        o = subprocess.run(["llvm-nm-18", "-S", path], stdout=subprocess.PIPE, text=True, check=True).stdout
        d, rg = {}, []
        for l in o.splitlines():
            w = l.split()
            if len(w) == 4:
                a, sz, k, n = w
                if n in ("gate", "gend", "hgate", "XSTATE"):
                    d[n] = a
                if k in "tTwW" and (n in ("gate", "gend") or re.search(r"vcore4real|portable_atomic|4sync6atomic|^__(sync|aarch64|atomic)", n)):
                    rg.append(f"0x{int(a, 16) & ~1:x}+0x{int(sz, 16):x}")
        d["ranges"] = ",".join(rg)
        # ELFv2: calls within the program come in at the local entry point
        for l in subprocess.run(["llvm-readelf-18", "-sW", path], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            m = re.search(r"<other: 0x([0-9a-f]+)>.* (gate|gend|hgate)$", l)
            if m:
                e = int(m.group(1), 16) >> 5 & 7
                d[m.group(2)] = f"{int(d[m.group(2)], 16) + (1 << e >> 2 << 2):x}"
        _sy[path] = d
    return _sy[path]


def drive(cfg, inp, frm, count, secs, at=None, seed=0):
    b = cfg.binpath("xint")
    s = symbols(b)
    arm_thumb = "kind=2" if "thumb" in cfg.target else "kind=4"
    if cfg.target.startswith("s390x"):
        arm_thumb = "kind=2"
    cmd = [os.path.join(TOOLS, "release", "vtools"), "bin=" + b, "qemu=" + ",".join(cfg.runner), "gate=" + s["gate"], "gend=" + s["gend"], "hgate=" + s["hgate"], "state=" + s["XSTATE"],
           "ranges=" + s["ranges"], arm_thumb, f"seed={SEED * 1000003 + seed}", f"from={frm}", f"max={count}", f"secs={secs}", "input=" + (inp + " " + cfg.feed).strip(), "tmp=" + TOOLS]
    if at is not None:
        cmd.append("at=" + at)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 150)
        return Run(cfg, "xint", {}, "", r.returncode, r.stdout.decode(errors="replace"), "", False, 0)
    except subprocess.TimeoutExpired as e:
        return Run(cfg, "xint", {}, "", -9, (e.stdout or b"").decode(errors="replace"), "", True, secs)


def outcome(r):
    """None, or what is wrong."""
    f = r.lines("FAIL")
    if f:
        d = fail_parts(f[0])[1]
        return d + " " + " ".join(r.lines("FAIL+"))
    if "\nHUNG" in "\n" + r.out:
        return "no progress: the operation or the handler that interrupted it does not finish within 20 s although the type says it is lock-free"
    m = re.search(r"^SIGNAL (\d+)", r.out, re.M)
    if m:
        return "the program dies: gdb signal " + m.group(1)
    if "CRASH" in r.out:
        return "the program dies: " + (r.crash() or "")
    return None


def tail(r):
    st = [l for l in r.out.splitlines() if l.startswith("STAT+ ")]
    return {k: int(v) for k, v in (w.split("=") for w in st[-1].split()[1:])} if st else {}


def run_xint(ck, plan):
    """plan: list of (cfg, types, cases, chunks, stream, seconds)."""
    build_tools()
    jobs = []
    for cfg, tys, count, chunks, stream, secs in plan:
        per = max(16, count // chunks)
        for j in range(chunks):
            jobs.append((cfg, f"seed={SEED} stream={stream} types={tys}", j * per, per, secs))
    jobs.sort(key=lambda j: -j[3])

    def one(j):
        cfg, inp, frm, per, secs = j
        if len(ck.viol) >= 3:
            return
        r = drive(cfg, inp, frm, per, secs)
        if "NONE" in r.out.split():
            return
        st = tail(r)
        if st:
            ck.add(st["cases"], st["distinct"])
            ck.per(f"{cfg.name} interrupted", cases=st["cases"], interrupted=st["interrupted"])
            ck.sample(*[f"[{cfg.name}] {s}" for s in r.samples()[:1]])
        d = outcome(r)
        if d is None:
            if r.rc != 0 or not st or "DRIVER" not in r.out or "ERROR" in r.out:
                ck.error(f"{cfg.name}: xint {inp} from={frm} gave rc {r.rc} (timed out {r.timed}): {r.out[-400:]}")
            return
        m = re.search(r"index=(\d+)", r.out)
        last = re.search(r"^DRIVER .*last=(\d+)", r.out, re.M)
        idx = int(m.group(1)) if m else int(last.group(1)) if last else frm
        at = re.search(r"^AT (\S*)", r.out, re.M)
        at = at.group(1) if at else ""
        q = drive(cfg, inp, idx, 1, 40, at)
        d2 = outcome(q)
        if d2 is None:
            ck.error(f"{cfg.name}: failure does not replay: {d} // {inp} index {idx} at {at}")
            return
        # fewer interruptions
        g = at.split(".")
        i = 0
        while i < len(g) and len(g) > 1:
            t = g[:i] + g[i + 1:]
            e = outcome(drive(cfg, inp, idx, 1, 40, ".".join(t)))
            if e and e.split(":")[0] == d2.split(":")[0]:
                g, d2 = t, e
            else:
                i += 1
        ck.violation(f"[{cfg.name}] {d2} (interrupted at {'.'.join(g)})", {"engine": "xint", "cfg": cfg.name, "bin": "xint", "case": "", "input": inp, "index": idx, "at": ".".join(g)})

    for e in par([lambda j=j: one(j) for j in jobs]):
        if isinstance(e, Exception):
            ck.error(repr(e))
