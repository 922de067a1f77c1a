"""Generated programs under Miri: undefined behaviour, data races, provenance, and histories of the language's memory model (C14, C06, C03)."""
import tempfile

from .base import *

RULE_MIR = ("a Miri case is one generated program (operations of one thread on memory with nothing to spare; pointers with provenance moved through an AtomicPtr and used; objects handed between threads; or 2-4 "
            "threads whose operations run eight times over on fresh variables, with non-atomic data behind acquire/release pairs), interpreted with one seed of Miri's scheduler and store buffers; "
            "non-trivial: it has at least two operations and, with threads, a variable written by one and used by another; distinct by types, places, operations, orderings and values")
ASSUME_MIR = "Miri's model of Rust (stacked or tree borrows, strict provenance, C++20 atomics with store buffering) is the language's; inline assembly is outside it: under Miri the crate's lock-based, core-atomics and intrinsics implementations run"
N = "Bool,Ptr0,Ptr1,Ptr24,I8,U8,I16,U16,I32,U32,I64,U64,Isize,Usize,F32,F64,I128,U128"
BASE = "-Zmiri-strict-provenance -Zmiri-symbolic-alignment-check -Zmiri-disable-isolation"
ROT = ["", "-Zmiri-tree-borrows", "-Zmiri-preemption-rate=0.05", "-Zmiri-tree-borrows -Zmiri-preemption-rate=0.2", "-Zmiri-compare-exchange-weak-failure-rate=0.2", "-Zmiri-preemption-rate=0",
       "-Zmiri-compare-exchange-weak-failure-rate=0 -Zmiri-address-reuse-rate=0.9"]


class M:
    def __init__(self, name, target, bits, be, types=N, flags=""):
        self.name, self.target, self.bits, self.be, self.types, self.flags = name, target, bits, be, types, flags

    def env(self, miriflags=""):
        e = base_env()
        e.update(XDG_CACHE_HOME=os.path.join(TARGET, "miri-" + self.target), CARGO_TARGET_DIR=os.path.join(TARGET, self.name), RUSTFLAGS=self.flags, MIRIFLAGS=(BASE + " " + miriflags).strip(), CARGO_BUILD_JOBS="4")
        e.pop("RUST_BACKTRACE", None)
        e.pop("RUSTC_WRAPPER", None)
        return e

    def cmd(self, args):
        return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target", self.target, "--"] + args

    def build(self):
        d = os.path.join(TARGET, self.name)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(TARGET, ".miri-" + self.target), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", self.target], cwd=os.path.join(VERIF, "h", "miri"), env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise ToolError(f"Miri's library for {self.target}: {r.stdout[-1200:]}")
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            Cfg._fresh(self, d)
            r = subprocess.run(self.cmd(["mode=ptr", "count=0"]), cwd=os.path.join(VERIF, "h", "miri"), env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or "STAT cases=0" not in r.stdout:
                raise ToolError(f"build of {self.name} failed:\n{r.stdout[-1500:]}")


MIR = {m.name: m for m in [
    M("m-x64", "x86_64-unknown-linux-gnu", 64, 0),
    M("m-x64-c16", "x86_64-unknown-linux-gnu", 64, 0, flags="-C target-feature=+cmpxchg16b"),
    M("m-x64-f16", "x86_64-unknown-linux-gnu", 64, 0, types=N + ",F16,F128", flags="--cfg portable_atomic_unstable_f16 --cfg portable_atomic_unstable_f128"),
    M("m-i686", "i686-unknown-linux-gnu", 32, 0),
    M("m-a64", "aarch64-unknown-linux-gnu", 64, 0),
    M("m-rv64", "riscv64gc-unknown-linux-gnu", 64, 0),
    M("m-s390x", "s390x-unknown-linux-gnu", 64, 1),
    M("m-ppc", "powerpc-unknown-linux-gnu", 32, 1),
]}


def tool():
    return os.path.join(TARGET, "mirx", "release", "vmirx")


def build_tool():
    d = os.path.join(TARGET, "mirx")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        Cfg._fresh(None, d)
        r = subprocess.run(["cargo", "+1.99.1", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "h", "mirx"), env={**base_env(), "CARGO_TARGET_DIR": d, "RUSTFLAGS": ""}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError("build of vmirx failed:\n" + r.stdout[-1500:])


def build(ck, names):
    build_tool()
    t = time.time()
    res = par([lambda n=n: MIR[n].build() for n in names])
    for n, r in zip(names, res):
        if isinstance(r, Exception):
            ck.error(r)
    log(f"built {len(names)} Miri configurations in {time.time() - t:.1f}s")
    return [n for n, r in zip(names, res) if not isinstance(r, Exception)]


class Out:
    def __init__(self):
        self.cases = self.distinct = self.open = 0
        self.sample, self.what, self.text, self.err, self.timed, self.last = "", None, "", None, False, None


def go(job, timeout):
    """job: dict cfg, modes, types, seed, stream, from, count, mseed, flags. Runs it under Miri and judges it."""
    m, o = MIR[job["cfg"]], Out()
    args = [f"{k}={job[k]}" for k in ("seed", "stream", "from", "count", "modes", "types")]
    native = [tool(), "{}"] + args + [f"bits={m.bits}", f"be={m.be}"]
    native += [f"{k}={job[k]}" for k in ("rounds", "times") if k in job]
    direct = job["modes"] in ("ptr", "own")
    with tempfile.TemporaryDirectory(prefix="vmir") as td:
        fi, fo = os.path.join(td, "in"), os.path.join(td, "out")
        if direct:
            open(fi, "w").close()
            cmd = m.cmd([f"{k}={job[k]}" for k in ("seed", "stream", "from", "count")] + ["mode=" + job["modes"]])
        else:
            with open(fi, "wb") as f:
                g = subprocess.run([native[0], "gen"] + native[2:], stdout=f, stderr=subprocess.PIPE, text=True)
            if g.returncode:
                o.err = "generator: " + g.stderr[-300:]
                return o
            o.distinct = int(re.search(r"distinct=(\d+)", g.stderr).group(1))
            o.sample = re.search(r"SAMPLE (.*)", g.stderr).group(1)
            cmd = m.cmd(["mode=run"])
        with open(fi, "rb") as f, open(fo, "wb") as g:
            p = subprocess.Popen(cmd, cwd=os.path.join(VERIF, "h", "miri"), env=m.env(f"-Zmiri-seed={job['mseed']} {job['flags']}"), stdin=f, stdout=g, stderr=subprocess.PIPE, preexec_fn=os.setsid)
            try:
                _, err = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                o.timed = True
                os.killpg(p.pid, signal.SIGKILL)
                _, err = p.communicate()
        err = err.decode(errors="replace")
        if direct:
            out = open(fo, errors="replace").read()
            at = re.findall(r"^AT (\d+)$", out, re.M)
            o.last = int(at[-1]) if at else None
            o.cases = len(at)
            o.distinct = o.cases
            o.sample = f"{job['modes']} programs {job['from']}.. of stream {job['stream']}"
            f = re.search(r"^FAIL index=(\d+) (.*?)## (.*)", out, re.M)
            ended = "STAT cases=" in out
            if f:
                o.what, o.text = f.group(3), f"{job['modes']} {f.group(2)}"
                return o
        else:
            j = subprocess.run([native[0], "judge"] + native[2:] + ["res=" + fo], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if j.returncode:
                o.err = "judge: " + j.stdout[-300:]
                return o
            f = re.search(r"^FAIL index=(\d+) (.*?) ## (.*)", j.stdout, re.M)
            if f:
                o.last, o.what, o.text = int(f.group(1)), f.group(3), f.group(2)
                return o
            s = re.search(r"cases=(\d+) undecided=(\d+) ended=(\d)", j.stdout)
            o.cases, o.open, ended = int(s.group(1)), int(s.group(2)), s.group(3) == "1"
            l = re.search(r"^LAST index=(\d+) (.*)", j.stdout, re.M)
            if l:
                o.last, o.text = int(l.group(1)), l.group(2)
    if o.timed:
        return o
    if p.returncode == 0 and ended:
        return o
    e = re.search(r"^error: (.*)$", err, re.M)
    where = re.search(r"--> (\S+)", err)
    if e and "unsupported operation" not in e.group(1) and not e.group(1).startswith(("could not", "failed to", "aborting")):
        o.what = e.group(1)[:300] + (f" ({where.group(1)})" if where else "")
    elif "panicked at" in err:
        o.what = "panic: " + err[err.find("panicked at"):][:200].replace("\n", " ")
    else:
        o.err = f"Miri ended with {p.returncode}: {err[-500:]}"
    return o


def run_mir(ck, plan, timeout=400):
    """plan: list of (config, modes, types or None, cases per process, processes, stream)."""
    jobs = []
    for name, modes, types, per, n, stream in plan:
        for j in range(n):
            # each mode is its own stream of cases; each process another seed of Miri's choices
            jobs.append({"cfg": name, "modes": modes, "types": types or MIR[name].types, "seed": SEED, "stream": stream, "from": j * per, "count": per, "mseed": (SEED * 7919 + stream * 131 + j) % 2**31,
                         "flags": ROT[(j + stream) % len(ROT)]})
    jobs.sort(key=lambda j: -j["count"] * (1 if j["modes"] == "seq" else 8))

    def one(j):
        if len(ck.viol) >= 3 or len(ck.errors) >= 6:
            return
        o = go(j, timeout)
        if o.err:
            ck.error(f"{j['cfg']} {j['modes']} from={j['from']}: {o.err}")
            return
        ck.add(o.cases, min(o.distinct, o.cases) if o.cases else 0, miri_undecided=o.open)
        ck.per(f"{j['cfg']} {j['modes']}", programs=o.cases)
        if o.sample and not o.what:
            ck.sample(f"[{j['cfg']}] {o.sample}")
        if o.timed:
            one_again = dict(j, **{"from": o.last if o.last is not None else j["from"], "count": 1})
            q = go(one_again, 180)
            if q.timed:
                ck.violation(f"[{j['cfg']}] a program does not finish under Miri (not within 180 s alone): {o.text}", {"engine": "miri", "cfg": j["cfg"], "case": o.text, "job": one_again})
            else:
                ck.error(f"{j['cfg']} {j['modes']} from={j['from']}: took over {timeout} s")
            return
        if not o.what:
            return
        # the same alone, or (Miri's choices follow from its seed) the same batch again
        keep, text = j, o.text
        if o.last is not None:
            for k in range(12):
                small = dict(j, **{"from": o.last, "count": 1, "mseed": j["mseed"] + k})
                q = go(small, 180)
                if q.what:
                    keep, text = small, q.text or text
                    o = q
                    break
        if keep is j and not go(j, timeout).what:
            ck.error(f"{j['cfg']} {j['modes']} from={j['from']}: failure does not replay: {o.what}")
            return
        ck.violation(f"[{j['cfg']}] {o.what} // {text}"[:900], {"engine": "miri", "cfg": j["cfg"], "case": text, "job": keep})

    for e in par([lambda j=j: one(j) for j in jobs]):
        if isinstance(e, Exception):
            ck.error(repr(e))
    ck.rule(RULE_MIR)
    if ASSUME_MIR not in ck.assume:
        ck.assume.append(ASSUME_MIR)


def replay(d):
    build_tool()
    MIR[d["cfg"]].build()
    o = go(d["job"], 600)
    print(o.text or d["case"], "->", o.what or o.err or ("does not finish" if o.timed else "nothing wrong"))
    return 1 if o.what or o.timed else 0
