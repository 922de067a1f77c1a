#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: 0 when the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTFLAGS="@FLAGS@"
export CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER=aarch64-linux-gnu-gcc CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER=i686-linux-gnu-gcc
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
portable-atomic = { path = "$repo", features = ["std", "float"@FEAT@] }
@DEPS@
[profile.release]
panic = "@PANIC@"
T
cd "$d" && cargo +@TC@ build --offline --release --target @TARGET@ >"$d/log" 2>&1 || { cat "$d/log"; exit 99; }
timeout -k 5 240 @RUN@ "$d/target/@TARGET@/release/demo"
r=$?
echo "demo: exit $r"
exit $r
