#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (VERIF_SEED, VERIF_TIER are honoured)
# Rebuilds the simulation from /repo's working tree, then explores.
set -u
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
. ./env.sh
./build.sh || { echo "build failed" >&2; exit 2; }
VERIF_ROOT="$PWD" VERIF_SEED="$seed" exec "$CARGO_TARGET_DIR/debug/posy-dst" check "$1" --tier "$tier" --seed "$seed"
