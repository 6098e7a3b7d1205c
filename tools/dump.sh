#!/bin/bash
# Usage: dump.sh OUT.json  -- compile /repo's current tree with the mirdump driver and write its MIR.
set -e
OUT=$(realpath -m "$1"); REPO=${2:-/repo}
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
B=/verif/.build
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
cd "$REPO"
touch -c "$OUT"; rm -f "$OUT"
MIRDUMP_CRATE=ndarray_glm MIRDUMP_OUT=$OUT RUSTC_WRAPPER=$B/mirdump/debug/mirdump CARGO_TARGET_DIR=${MIRDUMP_TARGET:-$B/glmtgt} \
  cargo +nightly rustc --lib --features openblas-system,stats --offline -- --cfg mirdump_run_$RANDOM$RANDOM -A unexpected_cfgs 2>&1
test -s "$OUT"
