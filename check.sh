#!/bin/sh
# check.sh ID [args]: build the check of property ID against /repo's working tree and run it.
# Cargo rebuilds what changed (by modification time); as a second line of defence the contents of
# every path crate are hashed, and crates whose contents changed since the last build are cleaned.
id=$1; shift
cd "$(dirname "$0")/mc" || exit 3
bin=$(echo "$id" | tr 'A-Z' 'a-z')
./stale.sh || exit 3
log=$(mktemp)
if ! cargo build --release --offline --quiet --bin "$bin" >"$log" 2>&1; then
    cat "$log"; rm -f "$log"; echo "ENGINE ERROR: build of $bin failed"; exit 3
fi
rm -f "$log"
exec "${CARGO_TARGET_DIR:-target}/release/$bin" "$@"
