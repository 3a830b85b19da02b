#!/bin/bash
# run.sh PROPERTY quick|thorough: builds the checker against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 3
export MC_VERIF="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
log="$PWD/work/build-$1-$$.log"
mkdir -p "$PWD/work" evidence
if ! cargo build --offline --manifest-path mc/Cargo.toml >"$log" 2>&1; then
    echo "machinery: the checker does not build against /repo:" >&2
    grep -E '^error' -A 12 "$log" | head -60 >&2
    rm -f "$log"
    exit 3
fi
rm -f "$log"
exec "$PWD/target/debug/mc" "$1" "$2"
