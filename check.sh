#!/bin/bash
# check.sh PROPERTY [quick|thorough] [SECONDS]: builds the simulator against /repo's working tree and
# runs the seeded search for one property. P02 is about the build with the feature random_leader.
set -u
cd "$(dirname "$0")" || exit 2
export OVSIM_ROOT="$PWD"
tier=${2:-${VERIF_TIER:-quick}}
build=main bin=sim/target/release/ovsim
[ "$1" = P02 ] && build=rl bin=sim/target/rl/release/ovsim
./build.sh $build || exit 2
exec ./$bin check --property "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" --seconds "${3:-0}"
