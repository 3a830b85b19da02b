#!/bin/bash
# Builds the checker once, so that the checks start warm; each check builds it again if /repo changed.
cd "$(dirname "$0")" || exit 3
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
mkdir -p evidence work
cargo build --offline --manifest-path mc/Cargo.toml
