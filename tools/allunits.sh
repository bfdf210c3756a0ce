#!/bin/bash
# Verifies every unit against /repo and prints one line per unit (a development aid: a unit whose
# text does not compile decides nothing, and this shows it).
d=$(mktemp -d)
cd "$(dirname "$0")/.." || exit 9
one() {
    u=$1
    tools/extract/target/release/extract units/$u.spec /repo "$d/$u.rs" "$d/$u.json" > "$d/$u.x" 2>&1 || { echo "$u: not extracted"; return; }
    (cd "$d" && verus --crate-type lib "$d/$u.rs" > "$d/$u.out" 2>&1)
    echo "$u: $(grep -o '[0-9]* verified, [0-9]* errors' "$d/$u.out" || grep -m1 '^error' "$d/$u.out") $(python3 -c "
import json,sys
print(*['lost '+f['fn']+': '+str(f.get('why')) for f in json.load(open('$d/$u.json'))['fns'] if f['status'] not in('ok','used')])")"
}
export -f one; export d
ls units/*.spec | xargs -n1 basename | sed 's/.spec$//' | xargs -P 4 -I{} bash -c 'one {}'
rm -rf "$d"
