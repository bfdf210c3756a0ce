#!/usr/bin/env python3
"""mkbug.py FILE.bug: makes /verif/seeded/<id>/ from a description:
id / property / needs / breaks headers, then blocks `=== file`, old text, `=>>`, new text, and `=== demo.rs` (rust) or `=== demo.sh`."""
import json, os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/bug/mk"
for fn in sys.argv[1:]:
    t = open(fn).read()
    head, *blocks = re.split(r"^=== ?", t, flags=re.M)
    h = dict(l.split(":", 1) for l in head.strip().splitlines())
    h = {k.strip(): v.strip() for k, v in h.items()}
    d = os.path.join(V, "seeded", h["id"])
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(S, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", S])
    demo = False
    if "patch" in h: subprocess.check_call(["git", "-C", S, "apply", h["patch"]])
    for b in blocks:
        name, body = b.split("\n", 1)
        name = name.strip()
        if name == "demo.rs":
            open(d + "/demo.rs", "w").write(body)
            if not demo:
                shutil.copy(V + "/tools/demo_template.sh", d + "/demo.sh")
        elif name == "demo.sh":
            open(d + "/demo.sh", "w").write(body); demo = True
        else:
            old, new = body.split("\n=>>\n", 1)
            new = new.rstrip("\n"); old = old.strip("\n"); new = new.strip("\n")
            s = open(S + "/" + name).read()
            assert s.count(old) == 1, (h["id"], name, s.count(old), old)
            open(S + "/" + name, "w").write(s.replace(old, new))
    os.chmod(d + "/demo.sh", 0o755)
    p = subprocess.check_output(["git", "-C", S, "diff"]).decode()
    open(d + "/patch.diff", "w").write(p)
    json.dump({"property": h["property"], "needs": h["needs"], "what_it_breaks": h["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(h["id"], len(p.splitlines()))
shutil.rmtree(S, ignore_errors=True)
