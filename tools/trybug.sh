#!/bin/bash
# trybug.sh ID...: confirms planted bugs in a scratch copy: applies, builds, stable tests pass, demo 0 before / non-zero after
S=/tmp/bug/repo
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p /tmp/bug
[ -d $S ] || cp -a /repo $S
(cd $S && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD)
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
for id in "$@"; do
  B=$V/seeded/$id; R="$id:"
  cd $S; git checkout -q -f .; 
  if [ -z "$SKIP_CLEAN" ]; then bash $B/demo.sh >/tmp/bug/$id.clean.log 2>&1; R="$R demo-clean=$?"; fi
  git apply $B/patch.diff || { echo "$id: patch does not apply"; continue; }
  touch src/lib.rs src/main.rs
  cargo build --workspace --offline >/tmp/bug/$id.build.log 2>&1; R="$R build=$?"
  touch src/lib.rs src/main.rs
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/bug/test.log 2>&1
  python3 /opt/vp/results.py /tmp/bug/res.json cargo:/tmp/bug/test.log >/dev/null
  R="$R tests=$(python3 -c "
import json;a=json.load(open('/tmp/bug/res.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[t for t in b['stable'] if t not in a['passed']];print('pass' if not m else 'FAIL:'+','.join(m))")"
  bash $B/demo.sh >/tmp/bug/$id.bug.log 2>&1; R="$R demo-bug=$?"
  git checkout -q -f .
  echo "$R"
done
