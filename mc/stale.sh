#!/bin/sh
# Clean the path crates of /repo whose contents differ from those of the last build.
T=${CARGO_TARGET_DIR:-target}
mkdir -p "$T/srchash"
for f in /repo/*/Cargo.toml; do
    d=$(dirname "$f"); c=$(basename "$d")
    h=$(cd "$d" && find . -type f \( -path './src/*' -o -name Cargo.toml -o -name build.rs \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$T/srchash/$c" 2>/dev/null)
    if [ "$h" != "$old" ]; then
        if [ -n "$old" ]; then
            cargo clean --release --offline --quiet -p "$c" 2>/dev/null
        fi
        echo "$h" > "$T/srchash/$c"
    fi
done
exit 0
