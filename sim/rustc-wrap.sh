#!/bin/sh
# RUSTC_WRAPPER: compiles nt-hive and the driver crate that instantiates its generic code with
# basic-block callbacks (the simulator's step / preemption / cut points). Everything else is plain.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case "$name" in
    nt_hive|simdrv)
        exec "$rustc" "$@" -Cembed-bitcode=no -Ccodegen-units=1 -Cpasses=sancov-module \
            -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    *) exec "$rustc" "$@" ;;
esac
