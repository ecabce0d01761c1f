#!/bin/bash
# run.sh check <ID> [quick|thorough]   explore one property on /repo's current tree
# run.sh replay <file>                 re-execute one recorded violation
# run.sh list
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! (cd mc && cargo build --offline --quiet) >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "BUILD-ERROR: the harness does not build against /repo"
    exit 2
fi
rm -f "$log"
exec ./mc/target/debug/mc "$@"
