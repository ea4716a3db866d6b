#!/bin/bash
# bash run.sh <property id>: rebuild the explorer against /repo's working tree, explore, report.
# exit 0 held, 1 violated (VIOLATION line), 2 the check itself could not run.
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$VERIF_DIR/.build/target"
export CARGO_NET_OFFLINE=true
mkdir -p "$VERIF_DIR/.build"
log="$VERIF_DIR/.build/build-$$.log"
build() { (cd "$VERIF_DIR/harness" && cargo build --release --offline "$@" >>"$log" 2>&1); }
# (without `inner`: the same checks less the few questions put to items nobody outside the crate needs)
if ! build && ! build --no-default-features; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "build failed" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = "--build-only" ] && exit 0
exec "$CARGO_TARGET_DIR/release/fitsmc" check "$1"
