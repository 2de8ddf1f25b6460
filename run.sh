#!/bin/bash
# run.sh <ID> <tier> : rebuild the worker for one property from /repo's working tree and run it.
# exit 0 held / 1 violation (VIOLATION line) / 2 error or inconclusive
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
cd "$(dirname "$0")" || exit 2
export MON_VERIF="$PWD" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$TIER"
. ./env.sh
bin=$(echo "$ID" | tr A-Z a-z)
sync_target
[ "$ID" = C27 ] && exec python3 tools/sanitize.py "$TIER"
LOG=target/build-$bin.log; mkdir -p target
if ! cargo build --release --offline --manifest-path mon/Cargo.toml --target-dir target --bin "$bin" >"$LOG" 2>&1; then
  tail -n 40 "$LOG"; echo "ERROR build of $bin failed"; exit 2
fi
rm -f "evidence/$ID.json"
timeout -k 5 "${MON_TIMEOUT:-870}" target/release/$bin; rc=$?
finish $rc
