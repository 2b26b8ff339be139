#!/bin/bash
# run facets of one harness: run1.sh BINARY [REGEX] [extra options]
cd /verif; python3 tools/targets.py $1 >/dev/null || exit 2
B=$(ls -t build/bin/$1.* | head -1); export OMP_NUM_THREADS=1
T=$(mktemp -d /tmp/run1.XXXX)
one() { f=$1; shift; $B --facet $f --shrink-time 5 "$@" > $T/$f.json 2>$T/$f.err; rc=$?; [ $rc -gt 1 ] && { echo "$f rc=$rc"; tail -3 $T/$f.err; return; }; python3 - $T/$f.json <<'PY'
import json,sys
j=json.load(open(sys.argv[1]))
print(j['facet'],j['evaluated'],j['discarded'],j['distinct_nontrivial'],round(j['wall_s'],1),j['labels'] if len(j['labels'])<14 else '',j['counts'],j['known'], ('\n   FAIL '+j['message'][:600]+'\n      first: '+j['first_message'][:300]+'\n     '+str(j['notes'])[:900]) if 'message' in j else '')
PY
}
export -f one; export B T
$B --list | awk '{print $1}' | grep -E "${2:-.}" | xargs -P ${JOBS:-6} -I{} bash -c 'one "$@"' _ {} "${@:3}"
rm -rf "$T"
