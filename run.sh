#!/bin/bash
# usage: run.sh <property> [--replay FILE]
. "$(dirname "$0")/env.sh"
id="$1"; shift
c="$(crate_of "$id")"
[ -n "$c" ] || { echo "unknown property $id" >&2; exit 2; }
mkdir -p "$CARGO_TARGET_DIR" "$V/evidence"
build_crate "$c" || { echo "the harness does not build against /repo's tree" >&2; exit 2; }
cd "$V" || exit 2
ulimit -v 16000000 # code that uses up the memory fails its case, not the sandbox
exec "$CARGO_TARGET_DIR/debug/h_$c" "$id" "$@"
