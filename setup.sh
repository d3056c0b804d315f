#!/bin/bash
# builds the extractor and the replay harness once; every check rebuilds what it needs anyway
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p .build evidence
(cd vx && CARGO_TARGET_DIR=../.build/vx cargo build --offline --quiet) || exit 1
(cd replay && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=../.build/replay cargo build --offline --quiet) || exit 1
verus --version >/dev/null || exit 1
