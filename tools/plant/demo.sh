#!/bin/bash
# Builds demo.rs against the nt-hive in the current directory and runs it: exit 0 if the property held.
set -u
d="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 2
mkdir "$t/src"
cp "$d/demo.rs" "$t/src/main.rs"
cp "$d/hv.rs" "$t/src/hv.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nt-hive = { path = "$repo" }
zerocopy = "0.8"
[workspace]
T
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" && RUSTFLAGS= CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q
rc=$?
cd /
rm -rf "$t"
exit $rc
