#!/bin/bash
# Builds demo.rs against the nt-hive in the current directory and runs it on the machine named in
# the file "target", which is interpreted by Miri: exit 0 if the property held.
set -u
d="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 2
mkdir "$t/src"
cp "$d/demo.rs" "$t/src/main.rs"
cp "$d/hv.rs" "$t/src/hv.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nt-hive = { path = "$repo" }
[workspace]
T
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" && RUSTFLAGS= XDG_CACHE_HOME="$t/cache" CARGO_TARGET_DIR="$t/target" MIRIFLAGS=-Zmiri-disable-isolation \
    timeout 280 cargo +nightly miri run --offline -q --target "$(cat "$d/target")"
rc=$?
cd /
rm -rf "$t"
exit $rc
