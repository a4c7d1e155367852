#!/bin/bash
# mutate.sh <worker> <workers> <file>..: mutate.py with private copies in the places of /repo and /verif
w=$1; n=$2; shift 2
d=/tmp/mw/$w
mkdir -p $d
[ -d $d/repo ] || cp -a /repo $d/repo
[ -d $d/verif ] || cp -a /verif $d/verif
cp -a /verif/run.py /verif/tools /verif/spec $d/verif/
exec unshare -m bash -c 'mount --bind '$d/repo' /repo && mount --bind '$d/verif' /verif && cd /verif && exec python3 tools/mutate.py "$@"' x $w $n /tmp/mw/out.$w.jsonl "$@"
