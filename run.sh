#!/bin/bash
# run.sh <property> [quick|thorough]: rebuilds the server from /repo's working tree, then runs the check.
cd "$(dirname "$0")" || exit 3
export CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! (cd harness && flock Cargo.toml cargo build --release --offline >"$log" 2>&1); then
  cat "$log"; echo "the harness did not build"; rm -f "$log"; exit 3
fi
rm -f "$log"
exec node --stack-size=4000 js/run.js "$1" "${2:-${VERIF_TIER:-quick}}"
