# Sourced by every script: the toolchain /repo is built with, offline, in our own target dir.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:${PATH:-}
export RUSTUP_TOOLCHAIN=1.70 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
