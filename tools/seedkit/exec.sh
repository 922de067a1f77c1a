#!/bin/bash
# Builds main.rs as a static program without a C library for another architecture, against the crate in
# the current directory, and runs it under qemu: 0 when the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
export RUSTFLAGS="-C linker=rust-lld -C linker-flavor=ld.lld -C link-arg=-nostdlib -C link-arg=-static -C relocation-model=static @FLAGS@"
mkdir -p "$d/src"
cp "$here/main.rs" "$here/rt.rs" "$d/src/"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
portable-atomic = { path = "$repo", default-features = false, features = [@FEAT@] }
@DEPS@
[profile.release]
panic = "abort"
T
cd "$d" && cargo +nightly build --offline --release -Zbuild-std=core,compiler_builtins -Zbuild-std-features=compiler-builtins-mem --target @TARGET@ >"$d/log" 2>&1 || { cat "$d/log"; exit 99; }
b="$d/target/@TARGET@/release/demo"
timeout -k 5 200 @RUN@ -one-insn-per-tb -d exec,nochain -D "$d/trace" "$b" || exit 98
cat >"$d/x.py" <<'P'
# The instructions executed between the functions `begin` and `end` of the program, in order.
import glob, os, re, subprocess, sys
trace, prog, here = sys.argv[1:]
od = glob.glob(os.path.expanduser("~/.rustup/toolchains/nightly-*/lib/rustlib/*/bin/llvm-objdump"))[0]
ins, sym = {}, {}
for l in subprocess.run([od, "-d", "--no-show-raw-insn", "@MCPU@", prog], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    m = re.match(r"([0-9a-f]+) <(.*)>:", l)
    if m:
        sym[m.group(2)] = int(m.group(1), 16)
    m = re.match(r" *([0-9a-f]+): +(.*)", l)
    if m:
        ins[int(m.group(1), 16)] = " ".join(m.group(2).split())
pcs = [int(l.split("[")[1].split("/")[1], 16) for l in open(trace) if l.startswith("Trace")]
near = lambda pc, f: sym[f] <= pc <= sym[f] + 8
i = next(k for k, p in enumerate(pcs) if near(p, "begin"))
j = next(k for k, p in enumerate(pcs) if k > i and near(p, "end"))
run = [ins.get(p, "?") for p in pcs[i:j]]
exec(open(os.path.join(here, "judge.py")).read())
P
python3 "$d/x.py" "$d/trace" "$b" "$here"
r=$?
echo "demo: exit $r"
exit $r
