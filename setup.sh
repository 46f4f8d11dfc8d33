#!/bin/bash
# builds the weaver and the harness, offline
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
unset NO_COLOR CARGO_TARGET_DIR
(cd tools/weave && cargo build --offline --release --quiet) || exit 1
(cd harness && RUSTFLAGS="--cfg termimad_verif" cargo build --offline --quiet) || exit 1
mkdir -p evidence build
verus --version >/dev/null || exit 1
