#!/bin/sh
# Builds the harness crates once (the checks build them again, from /repo's current tree).
cd "$(dirname "$0")/.." || exit 1
for c in harness dbh; do (cd $c && cargo build --offline -q 2>/dev/null); done
(cd harness && cargo build --offline -q --no-default-features --features caching --target-dir target/bare 2>/dev/null
 cargo build --offline -q --no-default-features --features time --target-dir target/few 2>/dev/null)
exit 0
