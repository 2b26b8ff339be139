#!/bin/bash
# apply one planted bug to /repo, run its check (quick), undo: tryseed.sh ID [P..]
set -u
d=/verif/seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 9
cd /verif; VERIF_SEED=1 VERIF_TIER=quick VERIF_EVIDENCE=/tmp/ev python3 bin/check $p quick > /tmp/tryseed.out 2>&1; rc=$?
git -C /repo checkout -- .
tail -5 /tmp/tryseed.out; echo "$1 $p rc=$rc"
