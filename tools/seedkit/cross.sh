#!/bin/bash
# Builds main.rs as a static program without a C library for another architecture, against the crate in
# the current directory, and runs it under qemu: 0 when the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
export RUSTFLAGS="-C linker=rust-lld -C linker-flavor=ld.lld -C link-arg=-nostdlib -C link-arg=-static -C relocation-model=static @FLAGS@"
mkdir -p "$d/src"
cp "$here/main.rs" "$here/rt.rs" "$d/src/"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
portable-atomic = { path = "$repo", default-features = false, features = [@FEAT@] }
@DEPS@
[profile.release]
panic = "abort"
T
cd "$d" && cargo +nightly build --offline --release -Zbuild-std=core,compiler_builtins -Zbuild-std-features=compiler-builtins-mem --target @TARGET@ >"$d/log" 2>&1 || { cat "$d/log"; exit 99; }
timeout -k 5 200 @RUN@ "$d/target/@TARGET@/release/demo"
r=$?
echo "demo: exit $r"
exit $r
