#!/bin/bash
# Builds the explorer from the committed files and /repo's working tree, offline.
verif="$(cd "$(dirname "$0")" && pwd)"
cd "$verif/harness" && CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 cargo build --release --offline --bin mc || exit 1
CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 cargo build --release --offline --features bindings --bins || echo "the bindings do not build"
