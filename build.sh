#!/bin/bash
# build.sh [cost]: build the simulator with /repo's hooks on; "cost": with
# the edges it executes counted. Sourced by check.sh.
here="${here:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR_SIM:-$here/target}"
export RUSTFLAGS="--cfg yary_sim"
export CARGO_NET_OFFLINE=true

# one build at a time; concurrent checks wait
sim_build() {
    mkdir -p "$CARGO_TARGET_DIR"
    (
        flock 9
        log="$CARGO_TARGET_DIR/build.log"
        if ! (cd "$here/sim" && cargo build --release --offline --locked) >"$log" 2>&1; then
            echo "build failed:" >&2
            tail -40 "$log" >&2
            exit 2
        fi
    ) 9>"$CARGO_TARGET_DIR/.lock"
}

case "${1:-plain}" in
cost)
    CARGO_TARGET_DIR="$CARGO_TARGET_DIR/cost"
    export RUSTC_WRAPPER="$here/tools/sancov.sh"
    ;;
esac
sim_build
