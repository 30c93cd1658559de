#!/bin/bash
# Builds the simulator and the system under test. Cargo decides staleness by file times, which
# mean nothing in a copied tree, so the content of /repo is compared instead.
set -u
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.build.lock"
flock 9
repo=$(cd /repo && find src build.rs Cargo.toml Cargo.lock -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
mine=$(find dst sut -path '*/target' -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
stamp="$CARGO_TARGET_DIR/.built-from"
bin="$CARGO_TARGET_DIR/debug/posy-dst"
if [ -x "$bin" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$repo $mine" ]; then exit 0; fi
old=$(cut -d' ' -f1 "$stamp" 2>/dev/null)
oldmine=$(cut -d' ' -f2 "$stamp" 2>/dev/null)
: >"$stamp"
cd dst || exit 2
if [ "$old" != "$repo" ]; then cargo clean --offline -p posy >/dev/null 2>&1; fi
if [ "$oldmine" != "$mine" ]; then cargo clean --offline -p posy-dst >/dev/null 2>&1; fi
log="$CARGO_TARGET_DIR/.build.log"
if ! cargo build --offline --locked >"$log" 2>&1; then
    tail -40 "$log" >&2
    exit 1
fi
echo "$repo $mine" >"$CARGO_TARGET_DIR/.built-from"
