#!/bin/bash
# Runs demo.rs (beside this file) inside the crate, through its guarded hook module. cwd: the repository.
D="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
unset RUSTFLAGS
export DUMP_SYMS_VERIF_HOOKS="$D/demo.rs"
touch -c src/lib.rs
log="$(mktemp)"; trap 'rm -f "$log"' EXIT
cargo rustc --offline --lib --profile test --message-format=json -- --cfg dump_syms_verif >"$log" 2>/dev/null \
  || { echo "demo does not build"; cargo rustc --offline --lib --profile test -- --cfg dump_syms_verif 2>&1 | tail -20; exit 2; }
exe="$(python3 -c '
import json,sys
for l in open(sys.argv[1]):
    try: j=json.loads(l)
    except ValueError: continue
    if j.get("executable"): print(j["executable"])' "$log" | tail -1)"
[ -x "$exe" ] || { echo "no executable"; exit 2; }
timeout 200 "$exe" verif:: --test-threads 1
