#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property that has functions under contract in units/."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTE = json.load(open(V + "/tools/notes.json"))
claimed = set()
fns = {}
for f in sorted(os.listdir(V + "/units")):
    cur = None; assumed = False
    for l in open(V + "/units/" + f):
        l = l.strip()
        if l.startswith("@fn "):
            cur = l[4:]; assumed = False
        elif l == "@assumed":
            assumed = True
        elif l.startswith("@props ") and cur and not assumed:
            for p in l.split()[1:]:
                claimed.add(p); fns.setdefault(p, []).append(cur)
checks = []
for p in props:
    if p in claimed and p not in NOTE["not_applicable"]:
        checks.append({"property": p, "quick_cmd": "bin/check %s" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
            "technique": "contract-based deductive verification (Verus/Z3) of the functions extracted from /repo on every run; bounded replay on the real code for the glue around them and to find failing inputs",
            "level": "proof",
            "level_note": NOTE["level"].get(p, "") + " Under contract: " + ", ".join(dict.fromkeys(fns[p])) + ". Trusted: Verus, Z3, the extractor's rewriting rules, the assumed contracts on std and dependencies (each listed in the evidence file)."})
na = [{"property": p, "reason": NOTE["not_applicable"].get(p, "no contract of this property is in place yet; the replay harness only samples it")} for p in props if p not in [c["property"] for c in checks]]
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"]).decode().split()
m = {"version": 1, "setup_cmd": "bash bin/setup", "hooks": {"guard": "cfg(dump_syms_verif)",
     "enable": "RUSTFLAGS=\"--cfg dump_syms_verif\" DUMP_SYMS_VERIF_HOOKS=/verif/replay/hooks.rs (module crate::verif includes that file); see replay/build.sh",
     "source_commits": hook}, "checks": checks, "not_applicable": na,
     "notes": "Every check: bin/check CNN. See DESIGN.md. known_findings.txt lists the repaired defects."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
