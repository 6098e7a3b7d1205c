#!/bin/bash
# Builds the MIR driver, the dependencies of /repo for it, and the harness, offline, into /verif/.build.
set -e
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
cd "$(dirname "$0")/.."
mkdir -p .build
(cd mirdump && CARGO_TARGET_DIR=/verif/.build/mirdump cargo +nightly build --offline)
OUT=${1:-/verif/.build/setup-dump.json}
bash tools/dump.sh "$OUT" >/verif/.build/dump.log 2>&1 &
P=$!
(cd harness && CARGO_TARGET_DIR=/verif/.build/harness cargo +stable build --offline) || { wait $P || true; exit 3; }
wait $P || { cat /verif/.build/dump.log; exit 3; }
