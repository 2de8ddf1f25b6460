#!/bin/bash
# builds every worker once so that each check only relinks what changed
cd "$(dirname "$0")" || exit 2
. ./env.sh
sync_target
cargo build --release --offline --manifest-path mon/Cargo.toml --target-dir target --bins 2>&1 | tail -n 5
[ -x setup_extra.sh ] && bash setup_extra.sh
exit 0
