#!/bin/bash
# usage: replay.sh replays/FILE.json   re-executes a recorded violation exactly
cd "$(dirname "$0")" || exit 2
. ./env.sh
./build.sh || exit 2
VERIF_ROOT="$PWD" exec "$CARGO_TARGET_DIR/debug/posy-dst" replay "$1"
