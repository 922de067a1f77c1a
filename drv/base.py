"""Building, running, replay files, evidence: what every check shares."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO_OVERRIDE_FOR_DEBUG", "/repo")
TARGET = os.path.join(VERIF, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 8
T0 = time.time()
NOSTD = "-C linker=rust-lld -C linker-flavor=ld.lld -C link-arg=-nostdlib -C link-arg=-static -C relocation-model=static"


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class ToolError(Exception):
    """The machinery could not give an answer (never a violation)."""


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "tests", "bench", "tools", "target-specs", ".github"))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\1")
    return h.hexdigest()


_RH = None


def rh():
    global _RH
    if _RH is None:
        _RH = repo_hash()
    return _RH


class Cfg:
    """One way to build a harness crate and to run what comes out."""

    def __init__(self, name, crate, target, toolchain="1.99.1", flags="", profile="release", runner=(), bare=False, std="core,compiler_builtins", env=None, features="", fast=True, note="", feed=""):
        self.name, self.crate, self.target, self.toolchain = name, crate, target, toolchain
        self.flags, self.profile, self.runner, self.bare = flags, profile, list(runner), bare
        self.std, self.env, self.features, self.note = std, env or {}, features, note
        self.feed = feed  # extra words of the first input line (bare programs)
        self.bins = {}

    def clone(self, name, runner=None, feed=None):
        """The same build run differently."""
        c = Cfg(name, self.crate, self.target, self.toolchain, self.flags, self.profile, self.runner if runner is None else runner, self.bare, self.std, self.env, self.features, feed=self.feed if feed is None else feed)
        c.base = self
        return c

    base = None

    def dir(self):
        b = self.base or self
        return os.path.join(TARGET, b.name)

    def binpath(self, b):
        pd = {"dev": "debug"}.get(self.profile, self.profile)
        return os.path.join(self.dir(), self.target, pd, b)

    def build(self, bins):
        if self.base:
            return self.base.build(bins)
        d = self.dir()
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            self._fresh(d)
            cmd = ["cargo", "+" + self.toolchain, "build", "--offline", "--target", self.target]
            if self.profile == "release":
                cmd.append("--release")
            elif self.profile != "dev":
                cmd += ["--profile", self.profile]
            for b in bins:
                cmd += ["--bin", b]
            if self.features:
                cmd += ["--features", self.features]
            flags = self.flags
            if self.bare:
                cmd += ["-Zbuild-std=" + self.std, "-Zbuild-std-features=compiler-builtins-mem"]
                flags = NOSTD + " " + flags
            env = base_env()
            env.update(CARGO_TARGET_DIR=d, RUSTFLAGS=flags.strip(), CARGO_BUILD_JOBS="4")
            env.update(self.env)
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "h", self.crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError(f"build of {self.name} failed:\n{r.stdout[-1500:]}")

    def _fresh(self, d):
        """cargo compares times; a working tree whose content differs from the last build's is rebuilt whatever its times say."""
        st = os.path.join(d, ".repo-hash")
        old = open(st).read() if os.path.exists(st) else ""
        if old != rh():
            for root, dirs, _ in os.walk(d):
                if os.path.basename(root) == ".fingerprint":
                    for x in list(dirs):
                        if x.startswith("portable-atomic-"):
                            shutil.rmtree(os.path.join(root, x), ignore_errors=True)
                    dirs[:] = []
                elif os.path.basename(root) in ("deps", "build", "incremental"):
                    dirs[:] = []
            with open(st, "w") as f:
                f.write(rh())

    def run(self, binary, args, body="", timeout=600, cpu=None, keep=None):
        """args: dict of key -> value. Returns Run."""
        words = " ".join(f"{k}={v}" for k, v in args.items())
        b = self.binpath(binary)
        if self.bare:
            cmd = self.runner + [b]
            inp = (words + " " + self.feed).strip() + "\n" + body
        else:
            cmd = self.runner + [b] + [f"{k}={v}" for k, v in args.items()]
            if body:
                cmd.append("replay=" + body)
            inp = ""

        def pre():
            os.setsid()
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        t = time.time()
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=run_env())
        timed = False
        try:
            out, err = p.communicate(inp.encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            timed = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
        return Run(self, binary, args, body, p.returncode, out.decode(errors="replace"), err.decode(errors="replace"), timed, time.time() - t)


class Run:
    def __init__(self, cfg, binary, args, body, rc, out, err, timed, wall):
        self.cfg, self.binary, self.args, self.body = cfg, binary, args, body
        self.rc, self.out, self.err, self.timed, self.wall = rc, out, err, timed, wall

    def lines(self, tag):
        return [l[len(tag) + 1:] for l in self.out.splitlines() if l.startswith(tag + " ")]

    def stat(self):
        d = {}
        for l in self.lines("STAT"):
            for w in l.split():
                if "=" in w:
                    k, v = w.split("=", 1)
                    try:
                        d[k] = d.get(k, 0) + int(v, 0)
                    except ValueError:
                        pass
        return d

    def samples(self):
        return self.lines("SAMPLE")

    def crash(self):
        """Death of the program, as text, or None."""
        if self.timed:
            return None
        for l in self.out.splitlines():
            if l.startswith("CRASH "):
                return l[6:]
        if self.rc in (-signal.SIGXCPU, -signal.SIGKILL):
            return None
        if self.rc < 0:
            return f"signal={-self.rc}"
        if self.rc > 128:
            return f"signal={self.rc - 128}"
        return None

    def index(self):
        m = re.search(r"index=(\d+)", self.out[self.out.find("CRASH"):]) if "CRASH" in self.out else None
        return int(m.group(1)) if m else None


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTDOC"))}
    e.update(
        CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
        CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER="aarch64-linux-gnu-gcc",
        CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER="i686-linux-gnu-gcc",
        PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
    )
    return e


def run_env():
    e = dict(os.environ)
    e.pop("RUST_BACKTRACE", None)
    return e


def par(jobs, n=None):
    """Runs callables concurrently; results in order (exceptions are returned)."""
    def one(f):
        try:
            return f()
        except Exception as e:  # noqa: BLE001
            return e
    with cf.ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(one, jobs))


class Check:
    """State of one check: cases counted, violations found, errors met."""

    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.viol = []
        self.errors = []
        self.known = []
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.rules = []
        self.assume = []
        self.lock = threading.Lock()
        self.findings = load_findings(pid)

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def sample(self, *s):
        with self.lock:
            for x in s:
                if len(self.cov["samples"]) < 40:
                    self.cov["samples"].append(str(x)[:700])

    def add(self, ev, nt, **more):
        with self.lock:
            self.cov["evaluations"] += ev
            self.cov["distinct_nontrivial"] += nt
            for k, v in more.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def per(self, part, **kv):
        with self.lock:
            d = self.cov.setdefault("parts", {}).setdefault(part, {})
            for k, v in kv.items():
                d[k] = d.get(k, 0) + v if isinstance(v, int) and not isinstance(v, bool) else v

    def error(self, e):
        with self.lock:
            self.errors.append(str(e))
        log("ERROR", str(e)[-1600:])

    def violation(self, desc, replay):
        """replay: dict that bin/replay understands."""
        for f in self.findings:
            if f["kind"] == "known" and f["match"] and re.search(f["match"], desc):
                with self.lock:
                    if f["what"] not in self.known:
                        self.known.append(f["what"])
                return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        body = json.dumps({"property": self.pid, "what": desc, **replay}, indent=1)
        p = os.path.join(VERIF, "replays", f"{self.pid}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.json")
        with open(p, "w") as f:
            f.write(body + "\n")
        with self.lock:
            self.viol.append((desc, p))
        log("violation:", desc)

    def build(self, cfgs, bins):
        """Builds; drops (with an error) those that fail. bins: list or dict crate -> list."""
        uniq, seen = [], set()
        for c in cfgs:
            b = c.base or c
            if b.name not in seen:
                seen.add(b.name)
                uniq.append(b)
        t = time.time()
        if any(c.runner and c.runner[0].endswith("/lnx") for c in cfgs):
            from . import isrl
            isrl.build_emu()
        res = par([lambda c=c: c.build(bins[c.crate] if isinstance(bins, dict) else bins) for c in uniq])
        bad = set()
        for c, r in zip(uniq, res):
            if isinstance(r, Exception):
                self.error(r)
                bad.add(c.name)
        log(f"built {len(uniq) - len(bad)} configurations in {time.time() - t:.1f}s")
        return [c for c in cfgs if (c.base or c).name not in bad]

    def finish(self):
        self.cov["rule"] = " | ".join(self.rules)
        ev = {
            "property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
            "coverage": self.cov, "assumptions": self.assume, "wall_s": round(time.time() - T0, 2), "violations": len(self.viol),
        }
        if self.errors:
            ev["errors"] = [e[:500] for e in self.errors[:5]]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        s = json.dumps(ev, indent=1)
        while len(s) > 60000 and self.cov["samples"]:
            self.cov["samples"] = self.cov["samples"][: len(self.cov["samples"]) * 2 // 3]
            s = json.dumps(ev, indent=1)
        tmp = os.path.join(VERIF, "evidence", f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            f.write(s + "\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.pid}.json"))
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for d, p in self.viol:
            print(f"# {d}")
            print(f"VIOLATION property={self.pid} replay={os.path.relpath(p, VERIF)}")
        log(f"{self.pid}: {self.cov['evaluations']} cases, {self.cov['distinct_nontrivial']} distinct non-trivial, {len(self.viol)} violations, {len(self.errors)} errors")
        sys.stdout.flush()
        if self.viol:
            return 1
        if self.errors:
            return 2
        return 0


def load_findings(pid):
    """known-findings.txt: `known: property=ID match=/regex/ what` suppresses; `fixed: ...` is only a record."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append({"kind": "known", "match": m.group(2), "what": m.group(3)})
    return out


# ---- cases that are lines of text: `case head; op; op ...`
def split_case(s):
    p = [x.strip() for x in s.split(";")]
    return p[0], p[1:]


def join_case(h, ops):
    return "; ".join([h] + ops)


def shrink_case(s, still, budget=150):
    """Removes operations while `still(case)` holds."""
    h, ops = split_case(s)
    n = 0
    size = max(1, len(ops) // 2)
    while size >= 1 and n < budget:
        i, changed = 0, False
        while i < len(ops) and n < budget:
            t = ops[:i] + ops[i + size:]
            n += 1
            if t and still(join_case(h, t)):
                ops, changed = t, True
            else:
                i += size
        if size == 1 and not changed:
            break
        if not changed or size > len(ops):
            size //= 2
    return join_case(h, ops)


def fail_parts(line):
    """`index=N case ... ## description` -> (case, description)"""
    m = re.match(r"index=\d+ (.*?) ## (.*)", line)
    return (m.group(1), m.group(2)) if m else (line, line)
