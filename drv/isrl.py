"""Single-core machines in emulators: firmware, the driver that interrupts it."""
from .base import *

RULE_ISR = (
    "one case is a program of 1..3 operations on one variable of an emulated single-core machine, and 0..3 interrupts at chosen instruction boundaries whose handlers make another operation on the same variable and overwrite what is next to it; "
    "boundaries are those where the machine (or the critical section) lets interrupts through, those next to an access of the variable or to a change of the interrupt state first, all of them where there are few; handlers may be interrupted themselves; "
    "checked: results and final value against the reference model in some order respecting real time, processor status and critical section exactly as found (also for handlers, and with interrupts off throughout), sections in matching pairs and at most one per operation, callee-saved registers and stack pointer, bytes around the variable, faults, completion; "
    "non-trivial: interrupts were off from the start, or the handler ran after the operation's first access of the variable or right at a change of the interrupt state; distinct: by type, the two operations, ordering and program counter"
)
LDFLAGS = {
    "rv32": "-Ttext=0x10000", "rv64": "-Ttext=0x10000", "armv4t": "-Ttext=0x10000", "armv5te": "-Ttext=0x10000", "armv6m": "-Ttext=0x10000",
    "avr": "--defsym=DATA_AT=0x800200 -T avr.ld", "avrx": "--defsym=DATA_AT=0x802000 -T avr.ld", "msp430": "-T msp430.ld",
}


class Fw:
    """One firmware image and the machine it runs on."""

    def __init__(self, name, target, arch, features="sc", flags="", profile="small", run="", note=""):
        self.name, self.target, self.arch, self.features, self.flags, self.profile = "f-" + name, target, arch, features, flags, profile
        self.runargs = run.split()
        self.base = None
        self.env, self.entry, self.out = {}, "vop", self.name

    def gp(self):
        """The same image with generated programs in it."""
        f = Fw(self.name[2:], self.target, self.arch, self.features + ",gp", self.flags, self.profile)
        f.runargs, f.entry, f.out = self.runargs, "vgp", self.name + "-gp"
        return f

    def dir(self):
        return os.path.join(TARGET, self.name)

    def elf(self):
        return os.path.join(self.dir(), self.out + ".elf")

    def build(self, bins=None):
        d = self.dir()
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            Cfg._fresh(self, d)
            cmd = ["cargo", "+nightly", "build", "--offline", "--target", self.target, "--profile", self.profile, "-Zbuild-std=core", "-Zbuild-std-features=compiler-builtins-mem", "--features", self.features]
            env = base_env()
            env.update(CARGO_TARGET_DIR=d, RUSTFLAGS=("-Crelocation-model=static " + self.flags).strip(), CARGO_BUILD_JOBS="4")
            env.update(self.env)
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "h", "fw"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError(f"build of {self.name} failed:\n{r.stdout[-1500:]}")
            lib = os.path.join(d, self.target, {"dev": "debug"}.get(self.profile, self.profile), "libvfw.a")
            r = subprocess.run(["ld.lld-18", "--gc-sections", "-u", self.entry, "-e", self.entry] + LDFLAGS[self.arch].split() + ["-o", self.elf(), lib], cwd=os.path.join(VERIF, "h", "fw"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError(f"link of {self.name} failed:\n{r.stdout[-1500:]}")

    def run(self, args, timeout=600):
        cmd = [os.path.join(TARGET, "emu", "release", "isr"), f"fw={self.elf()}", f"arch={self.arch}"] + self.runargs + [f"{k}={v}" for k, v in args.items()]
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            return Run(self, "isr", args, "", p.returncode, p.stdout, p.stderr, False, time.time() - t)
        except subprocess.TimeoutExpired:
            return Run(self, "isr", args, "", -9, "", "", True, time.time() - t)


RV32, RV32MC, RV64 = "riscv32i-unknown-none-elf", "riscv32imc-unknown-none-elf", "riscv64imac-unknown-none-elf"
FW = {f.name[2:]: f for f in [
    Fw("rv32i", RV32, "rv32"),
    Fw("rv32i-dev", RV32, "rv32", profile="dev"),
    Fw("rv32imc", RV32MC, "rv32"),
    Fw("rv32imc-s", RV32MC, "rv32", "sc,smode", run="smode"),
    Fw("rv32imc-amo", RV32MC, "rv32", "sc,amo"),
    Fw("rv32imc-zaamo", RV32MC, "rv32", "sc", "-C target-feature=+zaamo"),
    Fw("rv32imc-zabha", RV32MC, "rv32", "sc", "-C target-feature=+zaamo,+zabha"),
    Fw("rv32i-cs", RV32, "rv32", "cs"),
    Fw("rv64i", "riscv64im-unknown-none-elf", "rv64"),
    Fw("thumbv6m", "thumbv6m-none-eabi", "armv6m"),
    Fw("thumbv6m-cs", "thumbv6m-none-eabi", "armv6m", "cs"),
    Fw("thumbv6m-dev", "thumbv6m-none-eabi", "armv6m", profile="dev"),
    Fw("armv4t", "armv4t-none-eabi", "armv4t"),
    Fw("armv4t-fiq", "armv4t-none-eabi", "armv4t", "sc,fiq", run="fiq"),
    Fw("armv4t-cs", "armv4t-none-eabi", "armv4t", "cs"),
    Fw("thumbv4t", "thumbv4t-none-eabi", "armv4t"),
    Fw("armv5te", "armv5te-none-eabi", "armv5te"),
    Fw("avr", "avr-none", "avr", flags="-C target-cpu=atmega1284"),
    Fw("avr-cs", "avr-none", "avr", "cs", flags="-C target-cpu=atmega1284"),
    Fw("avrx", "avr-none", "avrx", flags="-C target-cpu=atxmega64b1"),
    Fw("msp430", "msp430-none-elf", "msp430"),
    Fw("msp430-cs", "msp430-none-elf", "msp430", "cs", profile="tiny"),
    # more than one core: the lock of wide operations, held with interrupts off
    Fw("rv32imac-priv", "riscv32imac-unknown-none-elf", "rv32", "priv"),
    Fw("rv64imac-priv", RV64, "rv64", "priv"),
    # compare-and-swap instructions that no other emulator here has
    Fw("rv32-zacas", "riscv32imac-unknown-none-elf", "rv32", "plain", "-C target-feature=+zacas"),
    Fw("rv32-zabha", "riscv32imac-unknown-none-elf", "rv32", "plain", "-C target-feature=+zacas,+zabha"),
    Fw("rv64-zacas", RV64, "rv64", "plain", "-C target-feature=+zacas"),
    Fw("rv64-zabha", RV64, "rv64", "plain", "-C target-feature=+zacas,+zabha"),
    Fw("rv64-zacas-priv", RV64, "rv64", "priv", "-C target-feature=+zacas"),
]}


def build_emu():
    d = os.path.join(TARGET, "emu")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        Cfg._fresh(None, d)
        env = base_env()
        env.update(CARGO_TARGET_DIR=d, RUSTFLAGS="")
        r = subprocess.run(["cargo", "+1.99.1", "build", "--offline", "--release"], cwd=os.path.join(VERIF, "h", "emu"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError(f"build of the emulators failed:\n{r.stdout[-1500:]}")


def run_isr(ck, plan, timeout=600):
    """plan: (fw, types or None, mode, n, chunks, stream, secs)"""
    jobs = []
    if any(p[2] == "isr" and p[0].features == "plain" and not p[1] for p in plan):
        raise ToolError("a type that takes a lock may not be used in interrupt handlers")
    for fw, tys, mode, n, chunks, stream, secs in plan:
        per = (n + chunks - 1) // chunks
        for c in range(chunks):
            a = {"seed": SEED, "stream": stream, "mode": mode, "start": c * per, "n": per, "secs": secs}
            if tys:
                a["types"] = tys
            jobs.append((fw, a))

    def one(fw, a):
        r = fw.run(a, timeout)
        f = r.lines("FAIL")
        st = r.stat()
        if st:
            ck.add(st["cases"], st["distinct"], emulated_instructions=st["instructions"], interrupts_delivered=st["interrupts"])
            ck.per(f"{fw.name[2:]} {a['mode']}", cases=st["cases"], interrupts=st["interrupts"], panics=st["panics"])
            ck.sample(*[f"{fw.name[2:]}: {s}" for s in r.samples()[:1]])
        if f:
            case, desc = fail_parts(f[0])
            ck.violation(f"[{fw.name[2:]}] {desc}", {"engine": "isr", "cfg": fw.name, "case": case})
        elif r.rc != 0 or not st:
            ck.error(f"{fw.name}: isr gave rc {r.rc} (timed out {r.timed}): {r.out[-300:]} {r.err[-500:]}")
    par([lambda j=j: one(*j) for j in jobs])
