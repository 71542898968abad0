#!/bin/bash
# check.sh <ID>: rebuild /repo's crate and the harness, run the check of one property.
# Exit 0: held on everything explored; 1: VIOLATION line; 2: the check could not run.
set -u
id=$1; shift
bin=$(echo "$id" | tr A-Z a-z)
cd /verif/harness || exit 2
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$CARGO_TARGET_DIR" /verif/evidence
rm -f "/verif/evidence/$id.json"
# Drop what was built of the crate under test, so that only its present
# source counts, whatever the file times say.
cargo clean --offline -q --release -p llm-samplers >/dev/null 2>&1
if ! cargo build --offline -q --release --bin "$bin" >"$CARGO_TARGET_DIR/build-$id.log" 2>&1; then
    echo "build failed:" >&2
    tail -n 60 "$CARGO_TARGET_DIR/build-$id.log" >&2
    exit 2
fi
# A runaway allocation of the code under test ends the search process only.
ulimit -v 16000000 2>/dev/null || true
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
