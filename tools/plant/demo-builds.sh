#!/bin/bash
# Builds demo.rs against the nt-hive in the current directory, with all features and build modes, and
# runs each: exit 0 if the property held.
set -u
d="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 2
mkdir "$t/src"
cp "$d/demo.rs" "$t/src/main.rs"
cp "$d/hv.rs" "$t/src/hv.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[features]
alloc = ["nt-hive/alloc"]
std = ["nt-hive/std"]
[dependencies]
nt-hive = { path = "$repo", default-features = false }
[workspace]
T
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t"
rc=0
for f in "" alloc std; do
    for mode in "" --release; do
        RUSTFLAGS= CARGO_TARGET_DIR="$t/target" timeout 60 cargo run --offline -q --features "$f" $mode || { rc=1; echo "features '$f' $mode: failed"; }
    done
done
cd /
rm -rf "$t"
exit $rc
