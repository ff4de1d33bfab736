#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]; builds from /repo's working tree, then searches.
set -u
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${SIM_TARGET:-$PWD/target} VERIF_ROOT=$PWD
export VERIF_SEED=${VERIF_SEED:-1}
mkdir -p evidence replays "$CARGO_TARGET_DIR"
log=$CARGO_TARGET_DIR/build.log
# the proof-system properties need the whole workspace of /repo; the others must not depend on it
case "${1:-}" in P0*) bin=simsnark ;; *) bin=sim ;; esac
if ! cargo build --release --offline --locked -p $bin >"$log" 2>&1; then echo "build of /repo's working tree failed:" >&2; grep -A12 '^error' "$log" | head -60 >&2; exit 2; fi
[ "${1:-}" = build ] && { cargo build --release --offline --locked -p simsnark >>"$log" 2>&1 || echo "the proof-system simulator does not build" >&2; exit 0; }
exec "$CARGO_TARGET_DIR/release/$bin" check --property "$1" --tier "${2:-quick}"
