#!/bin/bash
# catch.sh [-a] ID...: runs the check of the bug's property (-a: every claimed check) against the planted bug in /repo, and undoes it
V="$(cd "$(dirname "$0")/.." && pwd)"; ALL=; [ "$1" = -a ] && { ALL=1; shift; }
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  B=$V/seeded/$id
  git -C /repo apply $B/patch.diff || { echo "$id: does not apply"; continue; }
  P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
  [ -n "$ALL" ] && P=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']))")
  for p in $P; do
    o=$(VERIF_SEED=1 VERIF_TIER=quick $V/bin/check $p 2>&1); rc=$?
    u=$(echo "$o" | grep -c undecided:); fo=$(echo "$o" | grep -m1 "failed obligation" | cut -c1-160)
    f=$(python3 -c "
import json
try:
    d=json.load(open('$V/out/$p-replay.json')); print(';'.join(x['function'] for x in d['failed_obligations']))
except Exception: print('-')" )
    echo "$id $p rc=$rc $(echo "$o" | grep VIOLATION | sed 's/.*replay=[^ ]*/V/') proof-fails=[$f] undecided=$(echo "$o" | grep -A9 '; bounded' | grep -c 'undecided: ')"
  done
  git -C /repo checkout -- .
done
