#!/bin/bash
# build.sh [all|main|rl]: builds the simulator and, through its path dependency, /repo's crate as it
# is now; "rl" is the build with the crate's random_leader feature. Writes only into sim/target.
set -u
cd "$(dirname "$0")/sim" || exit 2
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true
build() { # target dir, cargo arguments
    local log
    log=$(mktemp)
    if ! CARGO_TARGET_DIR="$PWD/$1" cargo build --release --offline "${@:2}" >"$log" 2>&1; then
        tail -40 "$log" >&2
        rm -f "$log"
        exit 2
    fi
    rm -f "$log"
}
what=${1:-all}
[ "$what" = rl ] || build target
[ "$what" = main ] || build target/rl --features random_leader
exit 0
