#!/bin/sh
# Build every check against /repo's working tree.
cd "$(dirname "$0")/mc" || exit 1
./stale.sh && cargo build --release --offline --bins 2>&1 | tail -3
[ -x "${CARGO_TARGET_DIR:-target}/release/c02" ]
