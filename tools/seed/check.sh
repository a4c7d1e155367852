#!/bin/bash
# tools/seed/check.sh <id>..: does each planted bug count? (scratch copy under /tmp)
V=$(cd "$(dirname "$0")/../.." && pwd)
S=/tmp/seedrepo
rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo
for id in "$@"; do
  D=/tmp/seeddemo.$id; rm -rf "/tmp/seeddemo.$id"; cp -r "$V/seeded/$id" "$D"
  cd $S && git checkout -q -- . && git clean -fdq
  bash "$D/demo.sh" > "/tmp/seeddemo.$id/clean.log" 2>&1; c=$?
  git apply "$D/patch.diff" || { echo "$id: patch does not apply"; continue; }
  b=$(cargo test --offline --workspace --all-features --lib 2>&1 | grep -E "^test result.* [1-9][0-9]* passed|^error|FAILED" | cut -c1-60 | tr '\n' ' ')
  bash "$D/demo.sh" > "/tmp/seeddemo.$id/bug.log" 2>&1; p=$?
  echo "$id: clean=$c patched=$p | $b | $(tail -1 /tmp/seeddemo.$id/bug.log | cut -c1-200)"
  [ $c = 0 ] || tail -5 "/tmp/seeddemo.$id/clean.log"
  rm -rf "/tmp/seeddemo.$id"
done
rm -rf /tmp/seedrepo
