#!/bin/bash
# Builds every harness crate from the committed files and /repo's working tree.
. "$(dirname "$0")/env.sh"
mkdir -p "$CARGO_TARGET_DIR" "$V/evidence"
for c in $CRATES; do
  build_crate "$c" || exit 2
done
