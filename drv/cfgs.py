"""The configurations the checks build and run."""
import os

from .base import TARGET, Cfg

X64 = "x86_64-unknown-linux-gnu"
I686 = "i686-unknown-linux-gnu"
A64 = "aarch64-unknown-linux-gnu"
CRT = "-C target-feature=+crt-static"
F16 = "--cfg portable_atomic_unstable_f16 --cfg portable_atomic_unstable_f128"


def host(name, **k):
    return Cfg("h-" + name, "host", X64, **k)


# hosted (std, threads), native
HOST = {
    "x64": host("x64"),
    "x64-dev": host("x64-dev", profile="dev"),
    "x64-da": host("x64-da", profile="rel-da"),
    "x64-detfalse": host("x64-detfalse", flags="--cfg portable_atomic_test_detect_false"),
    "x64-noout": host("x64-noout", flags="--cfg portable_atomic_no_outline_atomics"),
    "x64-cx16": host("x64-cx16", flags="-C target-feature=+cmpxchg16b"),
    "x64-cx16avx": host("x64-cx16avx", flags="-C target-feature=+cmpxchg16b,+avx"),
    "x64-f16": host("x64-f16", toolchain="nightly", flags=F16),
    "x64-f16-detfalse": host("x64-f16-detfalse", toolchain="nightly", flags=F16 + " --cfg portable_atomic_test_detect_false"),
    "i686": Cfg("h-i686", "host", I686, flags=CRT),
    "i686-dev": Cfg("h-i686-dev", "host", I686, flags=CRT, profile="dev"),
    "a64": Cfg("h-a64", "host", A64, flags=CRT, runner=["qemu-aarch64"]),
    "a64-lse": Cfg("h-a64-lse", "host", A64, flags=CRT + ",+lse", runner=["qemu-aarch64"]),
    "a64-lse2": Cfg("h-a64-lse2", "host", A64, flags=CRT + ",+lse,+lse2", runner=["qemu-aarch64"]),
}

# cmpxchg16b but no AVX: 128-bit loads and stores go through cmpxchg16b
HOST["x64-noavx"] = HOST["x64"].clone("h-x64-noavx", runner=["qemu-x86_64", "-cpu", "qemu64,+cx16,-avx"])
for _n in ("i686", "i686-dev"):
    HOST[_n].env["CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER"] = "i686-linux-gnu-gcc"
for _c in HOST.values():
    if not _c.base:
        _c.flags = (_c.flags + " -Alinker-messages").strip()
# the same with the serde feature
FMT = {n: Cfg("f-" + n, "fmt", HOST[n].target, HOST[n].toolchain, HOST[n].flags, HOST[n].profile, HOST[n].runner) for n in ("x64", "x64-dev", "x64-f16", "x64-detfalse", "i686", "a64")}


def bare(name, target, qemu, flags="", profile="release", cpu=None, feed="", **k):
    run = [] if qemu is None else ["qemu-" + qemu] + (["-cpu", cpu] if cpu else [])
    return Cfg("b-" + name, "cross", target, toolchain="nightly", flags=flags, profile=profile, runner=run, bare=True, feed=feed, **k)


# AT_HWCAP2 bit of POWER8 (ISA 2.07), where lqarx/stqcx. came in
P207 = "hwcap2=2147483648"
# static programs without a C library; the harness answers getauxval itself (hwcap=, hwcap2= of its input)
RCPC3 = '--cfg portable_atomic_target_feature="rcpc3"'
BARE = {
    "x64": bare("x64", X64, None),
    "i686": bare("i686", I686, None),
    "a64": bare("a64", A64, "aarch64"),
    "a64-noout": bare("a64-noout", A64, "aarch64", "--cfg portable_atomic_no_outline_atomics"),
    "a64-lse": bare("a64-lse", A64, "aarch64", "-C target-feature=+lse"),
    "a64-lse2": bare("a64-lse2", A64, "aarch64", "-C target-feature=+lse,+lse2"),
    # not -C target-feature=+rcpc3: it includes FEAT_LRCPC2, whose LDAPUR/STLUR with negative offsets qemu 8.2 gets wrong; this cfg is what
    # build.rs sets for the same on older compilers
    "a64-lse2-rcpc3": bare("a64-lse2-rcpc3", A64, "aarch64", f"-C target-feature=+lse,+lse2 {RCPC3}", feed="ill=1"),
    "a64-lse2-128": bare("a64-lse2-128", A64, "aarch64", f"-C target-feature=+lse,+lse2,+lse128 {RCPC3}", feed="ill=3"),
    "a64be": bare("a64be", "aarch64_be-unknown-linux-gnu", "aarch64_be"),
    "rv64": bare("rv64", "riscv64gc-unknown-linux-gnu", "riscv64"),
    "rv32": bare("rv32", "riscv32gc-unknown-linux-gnu", "riscv32"),
    "la64": bare("la64", "loongarch64-unknown-linux-gnu", "loongarch64"),
    "mips": bare("mips", "mips-unknown-linux-gnu", "mips"),
    "mipsel": bare("mipsel", "mipsel-unknown-linux-gnu", "mipsel"),
    "mips64": bare("mips64", "mips64-unknown-linux-gnuabi64", "mips64"),
    "armv4t": bare("armv4t", "armv4t-unknown-linux-gnueabi", "arm"),
    "armv5te": bare("armv5te", "armv5te-unknown-linux-gnueabi", "arm"),
    "armv6": bare("armv6", "arm-unknown-linux-gnueabi", "arm"),
    "armv7": bare("armv7", "armv7-unknown-linux-gnueabi", "arm"),
    "thumbv7": bare("thumbv7", "thumbv7neon-unknown-linux-gnueabihf", "arm"),
    "ppc": bare("ppc", "powerpc-unknown-linux-gnu", "ppc"),
    "ppc64": bare("ppc64", "powerpc64-unknown-linux-musl", "ppc64", cpu="power9", feed=P207),
    "ppc64le": bare("ppc64le", "powerpc64le-unknown-linux-gnu", "ppc64le"),
    "s390x": bare("s390x", "s390x-unknown-linux-gnu", "s390x"),
    "s390x-z13": bare("s390x-z13", "s390x-unknown-linux-gnu", "s390x", "-C target-cpu=z13"),
    "s390x-z15": bare("s390x-z15", "s390x-unknown-linux-gnu", "s390x", "-C target-cpu=z15"),
    "ppc64le-pwr10": bare("ppc64le-pwr10", "powerpc64le-unknown-linux-gnu", "ppc64le", "-C target-cpu=pwr10", cpu="power10"),
}
BARE["ppc64-p7"] = BARE["ppc64"].clone("b-ppc64-p7", feed="hwcap2=0")
HWCAP_LSE = 1 << 8
HWCAP_LSE2 = 1 << 25
BARE["a64-hwlse"] = BARE["a64"].clone("b-a64-hwlse", feed=f"hwcap={HWCAP_LSE}")
BARE["a64-hwlse2"] = BARE["a64"].clone("b-a64-hwlse2", feed=f"hwcap={HWCAP_LSE | HWCAP_LSE2}")
HWCAP2_LRCPC3 = 1 << 46
HWCAP2_LSE128 = 1 << 47
BARE["a64-hwlse2-rcpc3"] = BARE["a64"].clone("b-a64-hwlse2-rcpc3", feed=f"hwcap={HWCAP_LSE | HWCAP_LSE2} hwcap2={HWCAP2_LRCPC3} ill=1")
BARE["a64-hwlse2-128"] = BARE["a64"].clone("b-a64-hwlse2-128", feed=f"hwcap={HWCAP_LSE | HWCAP_LSE2} hwcap2={HWCAP2_LRCPC3 | HWCAP2_LSE128} ill=3")
BARE["a64-hwlse2-128b"] = BARE["a64"].clone("b-a64-hwlse2-128b", feed=f"hwcap={HWCAP_LSE | HWCAP_LSE2} hwcap2={HWCAP2_LSE128} ill=2")
# RISC-V Linux with Zacas, in our own emulator (qemu has none): found at run time, and known at compile time
LNX = os.path.join(TARGET, "emu", "release", "lnx")
EXT_ZACAS = 1 << 34
for _n in ("rv64", "rv32"):
    BARE[_n + "-hwzacas"] = BARE[_n].clone(f"b-{_n}-hwzacas", runner=[LNX, "zacas=1", f"ext={EXT_ZACAS}"])
    BARE[_n + "-zacas"] = bare(_n + "-zacas", BARE[_n].target, _n, "-C target-feature=+zacas,+zabha")
    BARE[_n + "-zacas"].runner = [LNX, "zacas=1", "zabha=1", f"ext={EXT_ZACAS | 1 << 58}"]
# kernels before 3.1: no __kuser_cmpxchg64
BARE["armv4t-k4"] = BARE["armv4t"].clone("b-armv4t-k4", feed="kuser=4")
BARE["armv5te-k3"] = BARE["armv5te"].clone("b-armv5te-k3", feed="kuser=3")
# 128-bit operations with cmpxchg16b alone, and with the lock
BARE["x64-noavx"] = BARE["x64"].clone("b-x64-noavx", runner=["qemu-x86_64", "-cpu", "qemu64,+cx16,-avx"])
BARE["x64-nocx"] = BARE["x64"].clone("b-x64-nocx", runner=["qemu-x86_64", "-cpu", "qemu64,-cx16,-avx"])
