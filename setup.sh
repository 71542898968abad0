#!/bin/bash
# Builds the harness (all checks) from the committed files, offline.
set -eu
cd /verif/harness
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$CARGO_TARGET_DIR" /verif/evidence
cargo build --offline -q --release --bins
