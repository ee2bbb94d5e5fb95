#!/bin/bash
# Usage: check.sh <property> [quick|thorough]. Builds the monitor from /repo's working tree, runs one check.
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
[ -n "$2" ] && export VERIF_TIER="$2"
mkdir -p evidence work/replay
log=$(mktemp)
if ! cargo build --release --manifest-path harness/Cargo.toml >"$log" 2>&1; then
  # A tree on which the repository builds and the monitor does not: the monitor is what is broken.
  tail -60 "$log" >&2; rm -f "$log"; exit 3
fi
rm -f "$log"
[ "$1" = setup ] && exec harness/target/release/psmon setup
exec harness/target/release/psmon check "$1"
