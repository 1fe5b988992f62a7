# Sourced by check, replay and setup. Everything goes to $here/target.
export SIM_ROOT="$here" CARGO_NET_OFFLINE=true
export SIM_READHIVE="$here/target/tool/debug/readhive" SIM_SHIM="$here/target/simio.so"
build_all() {
    mkdir -p "$here/target/scratch" || return 1
    local log="$here/target/build.log"
    ( cd "$here/sim" && RUSTC_WRAPPER="$here/sim/rustc-wrap.sh" RUSTFLAGS= \
        cargo build --offline --release --target-dir "$here/target" ) >"$log" 2>&1 || { cat "$log" >&2; return 1; }
    ( cd "$here/sim" && RUSTFLAGS= cargo build --offline --manifest-path "$here/sim/tool/Cargo.toml" --target-dir "$here/target/tool" ) >"$log" 2>&1 || { cat "$log" >&2; return 1; }
    gcc -O1 -shared -fPIC -o "$SIM_SHIM" "$here/sim/simio.c" -ldl >"$log" 2>&1 || { cat "$log" >&2; return 1; }
}
build_all
