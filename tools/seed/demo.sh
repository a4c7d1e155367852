#!/bin/bash
# Run with cwd = the repository. Exits 0 if the property holds in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -r "$here/src" "$here/Cargo.toml" "$here/Cargo.lock" "$work/"
sed -i "s|REPO|$repo|" "$work/Cargo.toml"
cd "$work" && CARGO_TARGET_DIR="$work/target" timeout 280 cargo run -q --offline 2>&1 | tail -20
exit "${PIPESTATUS[0]}"
