#!/bin/bash
# Nothing needs to persist: every check builds what it needs from /repo. This
# only shows early that the toolchain works offline.
set -e
cd "$(dirname "$0")/../contracts"
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=../.build/native cargo build --offline --bin native
cargo kani --version
