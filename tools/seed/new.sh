#!/bin/bash
# new.sh <id> <property> <file> <old> <new> <needs> <breaks>   with src/main.rs on stdin
V=$(cd "$(dirname "$0")/../.." && pwd); T="$V/tools/seed"; D="$V/seeded/$1"
mkdir -p "$D/src"; cp "$T/demo.sh" "$T/Cargo.toml" "$T/Cargo.lock" "$D/"; cp "$T/src/srv.rs" "$D/src/"; cat > "$D/src/main.rs"
cd /repo && [ -z "$(git status --short)" ] || exit 1
python3 - "$3" "$4" "$5" <<'P'
import sys
f,o,n=sys.argv[1:4]; s=open(f).read()
assert s.count(o)==1,("matches",s.count(o))
open(f,'w').write(s.replace(o,n,1))
P
[ $? = 0 ] && git diff > "$D/patch.diff"; git checkout -q -- .
python3 - "$D/meta.json" "$2" "$6" "$7" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
