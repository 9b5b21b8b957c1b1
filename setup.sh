#!/bin/bash
# Builds the extractor and the harness from the committed files (offline).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
mkdir -p build
(cd vx && cargo build --release --offline --quiet --target-dir ../build/vx)
(cd harness && cargo build --release --offline --quiet --target-dir ../build/harness)
(cd cli && cargo build --release --offline --quiet --target-dir ../build/cli)
