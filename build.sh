#!/bin/bash
# Builds the simulator, with the hooks of /repo on.
# usage: build.sh [property]: only the check of that property
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/sim/target" RUSTFLAGS="--cfg portgraph_sim" CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR/bin"
# Checks that start at the same time build one after another.
exec 9>"$CARGO_TARGET_DIR/bin/lock"; flock 9
log=$(cargo build --release --offline --manifest-path sim/Cargo.toml ${1:+--no-default-features --features "$1"} 2>&1 9>&-) || { echo "$log" | tail -60 >&2; exit 2; }
cp -f sim/target/release/sim "sim/target/bin/${1:-all}.new" && mv -f "sim/target/bin/${1:-all}.new" "sim/target/bin/${1:-all}"
