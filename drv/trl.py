"""What the instructions executed by generated operations guarantee by the architecture's rules (C06; C03, C04, C15)."""
import glob

from . import xint
from .base import *

RULE_TR = ("a traced case is two generated operations of one thread on two variables, each between plain accesses before and after it; every access and fence they execute is taken from qemu's log and "
           "ordered by the architecture's memory model; non-trivial: at least one required order or indivisible access was looked for; distinct by the two types, operations, pairs of orderings and outcomes")
ASSUME_TR = ("the preserved program order of x86-TSO, ARMv7/v8, RVWMO, Power, z/Architecture, LoongArch and MIPS is as encoded in h/tools/src/bin/trace (only what the manuals guarantee; dependencies other than "
             "Arm's exclusive pairs and PowerPC's branch-isync are not used)")
ASSUME_ONE = ("which accesses are one indivisible access is as encoded in h/tools/src/bin/trace (naturally aligned accesses of up to the register width, and the wide ones each architecture's manual "
              "guarantees: AVX 16-byte moves, LSE2 pairs, Power quadword, z/Architecture LPQ/STPQ, x87/SSE 8-byte moves, Arm LDREXD/STREXD pairs)")
ARCH = (("aarch64", "a64", 64), ("arm", "arm", 32), ("thumb", "arm", 32), ("riscv64", "rv", 64), ("riscv32", "rv", 32), ("powerpc64", "ppc", 64), ("powerpc", "ppc", 32), ("s390x", "s390", 64),
        ("mips64", "mips", 64), ("mips", "mips", 32), ("loongarch64", "la", 64), ("x86_64", "x86", 64), ("i686", "x86", 32))

# decoding stops at what these have (qemu would run more)
MCPU = {"b-s390x": "z10", "b-s390x-z13": "z13", "b-s390x-z15": "z15"}


def objdump():
    g = glob.glob(os.path.expanduser("~/.rustup/toolchains/nightly-*/lib/rustlib/*/bin/llvm-objdump")) or glob.glob("/usr/bin/llvm-objdump*")
    if not g:
        raise ToolError("no llvm-objdump")
    return g[0]


def opts(cfg):
    """How the traced program runs there: (qemu command, lse2, avx)."""
    n = cfg.name[2:]
    q = list(cfg.runner)
    avx = 0
    if not q:
        q = ["qemu-x86_64" if cfg.target.startswith("x86_64") else "qemu-i386", "-cpu", "max"]
        avx = int(cfg.target.startswith("x86_64"))
    return q, int("lse2" in n), avx


def bits(cfg):
    return next(b for p, a, b in ARCH if cfg.target.startswith(p))


def trace(cfg, inp, reqs, timeout=400, show=""):
    q, lse2, avx = cfg.trace_opts if hasattr(cfg, "trace_opts") else opts(cfg)
    a, b = next((a, b) for p, a, b in ARCH if cfg.target.startswith(p))
    cmd = [os.path.join(xint.TOOLS, "release", "trace"), "arch=" + a, f"bits={b}", "bin=" + cfg.binpath("xtr"), "qemu=" + "|".join(q), "objdump=" + objdump(), "input=" + (inp + " " + cfg.feed).strip(),
           f"mcpu={MCPU.get(cfg.name, '')}", f"lse2={lse2}", f"avx={avx}", "reqs=" + reqs, "show=" + show]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=os.setsid)
    try:
        out, _ = p.communicate(timeout=timeout)
        return Run(cfg, "xtr", {}, "", p.returncode, out.decode(errors="replace"), "", False, 0)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return Run(cfg, "xtr", {}, "", -9, out.decode(errors="replace"), "", True, timeout)


def outcome(r):
    """None, or (index, text, what is wrong)."""
    for l in r.lines("FAIL"):
        m = re.match(r"index=(\d+) (.*?) ## (.*)", l)
        if m:
            return int(m.group(1)), m.group(2), m.group(3)
    if "CRASH" in r.out:
        return -1, "", "the program dies: " + (r.crash() or "")
    return None


def run_trace(ck, plan):
    """plan: list of (cfg, types, cases, chunks, stream, reqs)."""
    xint.build_tools()
    jobs = []
    for cfg, tys, count, chunks, stream, reqs in plan:
        per = -(-count // chunks)
        per += -per % 4
        for j in range(chunks):
            jobs.append((cfg, f"seed={SEED} stream={stream} types={tys}", j * per, per, reqs))
    jobs.sort(key=lambda j: -j[3])

    def one(j):
        cfg, inp, frm, per, reqs = j
        if len(ck.viol) >= 4:
            return
        r = trace(cfg, f"{inp} from={frm} count={per}", reqs, timeout=120 + per)
        st = r.stat()
        part = f"{cfg.name} traced"
        if st:
            ck.add(st["cases"] - st["skipped"], st["distinct"], required_orders=st["edges"])
            ck.per(part, cases=st["cases"], skipped=st["skipped"], locked=st["locked"])
            ck.sample(*[f"[{cfg.name}] {s}" for s in r.samples()[:1]])
        f = outcome(r)
        if f is None:
            if r.rc != 0 or not st or "ERROR" in r.out or "END rc=0" not in r.out:
                ck.error(f"{cfg.name}: trace {inp} from={frm} gave rc {r.rc} (timed out {r.timed}): {r.out[-400:]}")
            elif st["skipped"] * 20 > st["cases"]:
                ck.error(f"{cfg.name}: trace {inp} from={frm} left out {st['skipped']} of {st['cases']} cases")
            return
        idx, text, what = f
        if idx < 0:
            m = re.findall(r"^\s*T (\d+)\|", r.out, re.M)
            idx = int(m[-1]) + 1 if m else frm
        q = outcome(trace(cfg, f"{inp} from={idx} count=1", reqs))
        if q is None:
            ck.error(f"{cfg.name}: failure does not replay: {what} // {inp} index {idx}")
            return
        what = q[2].split(" ;;")
        ck.violation(f"[{cfg.name}] {what[0]}" + (f" (executed:{what[1][:200]})" if len(what) > 1 else ""),
                     {"engine": "trace", "cfg": cfg.name, "bin": "xtr", "case": q[1], "input": f"{inp} from={idx} count=1", "reqs": reqs})

    for e in par([lambda j=j: one(j) for j in jobs]):
        if isinstance(e, Exception):
            ck.error(repr(e))
