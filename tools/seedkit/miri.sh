#!/bin/bash
# Runs main.rs against the crate in the current directory under Miri with several schedules: 0 when the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTFLAGS="@FLAGS@" XDG_CACHE_HOME="$d/cache"
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
portable-atomic = { path = "$repo", features = ["std", "float"@FEAT@] }
T
cd "$d" && cargo +nightly miri setup --target @TARGET@ >"$d/log" 2>&1 || { cat "$d/log"; exit 99; }
MIRIFLAGS="-Zmiri-many-seeds=0..@SEEDS@ @MF@" timeout -k 5 240 cargo +nightly miri run --quiet --target @TARGET@ >"$d/out" 2>&1
r=$?
head -c 3000 "$d/out"
echo "demo: exit $r"
exit $r
