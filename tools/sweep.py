#!/usr/bin/env python3
"""sweep.py [-j LANES] ITEM...: ITEM = seeded id, or a .diff file. Development tool (not a check): in scratch copies
of /repo and /verif under /tmp/lane, applies each patch, re-verifies the units whose extracted text changed and runs
the bounded replay of every property; prints failures, undecided functions and replay findings."""
import sys, os, subprocess, shutil, json, hashlib, importlib.util, importlib.machinery, threading, queue, time, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "/tmp/lane"
ALLP = os.environ.get("ALLP")
NOREPLAY = os.environ.get("NOREPLAY")

def lane_init(n):
    d = "%s/%d" % (L, n)
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/replay/target", "--exclude", "/seeded", V + "/", d + "/verif/"]) if shutil.which("rsync") else None
    if not shutil.which("rsync"):
        os.makedirs(d + "/verif", exist_ok=True)
        for x in ("bin", "tools", "units", "shim", "replay/src"):
            shutil.rmtree(d + "/verif/" + x, ignore_errors=True)
            shutil.copytree(V + "/" + x, d + "/verif/" + x)
        for x in os.listdir(V + "/replay"):
            if os.path.isfile(V + "/replay/" + x): shutil.copy(V + "/replay/" + x, d + "/verif/replay/" + x)
        shutil.copy(V + "/known_findings.txt", d + "/verif/")
        if not os.path.exists(d + "/verif/replay/target"):
            subprocess.call(["cp", "-a", V + "/replay/target", d + "/verif/replay/target"])
    if not os.path.exists(d + "/repo"):
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
    subprocess.check_call("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq src", shell=True, cwd=d + "/repo")
    for f in ("Cargo.toml", "Cargo.lock"):
        p = d + "/verif/replay/" + f
        if os.path.exists(p):
            t = open(p).read().replace('"/repo"', '"%s/repo"' % d); open(p, "w").write(t)
    return d

def load(d):
    os.environ["VERIF_REPO"] = d + "/repo"
    ld = importlib.machinery.SourceFileLoader("chk", d + "/verif/bin/check")
    sp = importlib.util.spec_from_loader("chk", ld)
    m = importlib.util.module_from_spec(sp); ld.exec_module(m)
    return m

def sig(m, u):
    rs, js = u.path("s")
    cmd = [m.EXTRACT, u.spec, m.REPO, rs, js]
    subprocess.run(cmd, capture_output=True)
    t = open(rs).read()
    import re
    return hashlib.sha1(re.sub(r"(?m)^\s*//.*$", "", t).encode()).hexdigest()

def one(d, item, base):
    m = load(d)
    patch = item if item.endswith(".diff") else "%s/seeded/%s/patch.diff" % (V, item)
    name = os.path.basename(os.path.dirname(patch)) if patch.endswith("/patch.diff") else os.path.basename(patch)
    out = []
    try: target = json.load(open(os.path.dirname(patch) + "/meta.json"))["property"]
    except Exception: target = name[:3].upper() if name[:1] == "c" and name[1:3].isdigit() else None
    subprocess.check_call(["git", "checkout", "-q", "-f", "."], cwd=d + "/repo")
    p = subprocess.run(["git", "apply", patch], cwd=d + "/repo", capture_output=True)
    if p.returncode: return "%s: DOES NOT APPLY %s" % (name, p.stderr.decode()[:200])
    t0 = time.time()
    w = d + "/work"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    bt = threading.Thread(target=lambda: out.append(("mode", m.build_replay(target or ("C25" if ALLP else None))))); bt.start()
    alarms = {}
    for spec in sorted(glob.glob(d + "/verif/units/*.spec")):
        u = m.Unit(spec, w)
        if sig(m, u) == base.get(u.name): continue
        m.T0 = time.time()
        u.report = u.extract()
        u.solve()
        if u.undecided_unit: out.append(("UNIT-UNDECIDED", u.name, u.undecided_unit[:300]))
        for f, o in u.fail.items():
            fr = next((x for x in u.report["fns"] if x["fn"] == f), {})
            if fr.get("status") == "used": continue
            out.append(("PROOF-FAIL", u.name, f, ",".join(fr.get("prop", [])), o[0][:200]))
            for q in fr.get("prop", []): alarms.setdefault(q, []).append("proof")
        for f, why in u.stubs.items():
            fr = next((x for x in u.report["fns"] if x["fn"] == f), {})
            if fr.get("status") == "used": continue
            out.append(("undecided", u.name, f, ",".join(fr.get("prop", [])), why[:200]))
        if not (u.fail or u.stubs or u.undecided_unit): out.append(("unit-ok", u.name))
    bt.join()
    mode = next(x[1] for x in out if x[0] == "mode")
    if mode in ("hooks", "public") and not NOREPLAY:
        for i in range(1,26):
            q = "C%02d" % i
            if target and q != target and not ALLP: continue
            rc, r = m.run_replay(q, 1, "quick", w, 60)
            if r.get("failure"):
                alarms.setdefault(q, []).append("replay"); out.append(("REPLAY", q, json.dumps(r["failure"])[:250]))
            if r.get("error"): out.append(("REPLAY-ERROR", q, r["error"][:300]))
    subprocess.check_call(["git", "checkout", "-q", "-f", "."], cwd=d + "/repo")
    head = "##### %s target=%s %s alarms=%s (%.0f s)" % (name, target, "CAUGHT" if target in alarms else ("MISSED" if target else ""), {k: sorted(set(v)) for k, v in sorted(alarms.items())}, time.time() - t0)
    return head + "\n" + "\n".join("   " + " | ".join(map(str, x)) for x in out if x[0] != "mode" or x[1] != "hooks")

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--lane":     # child: one lane, items on stdin
        d = a[1]; m = load(d); base = {}
        subprocess.check_call(["git", "checkout", "-q", "-f", "."], cwd=d + "/repo")
        w = d + "/work0"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        for spec in sorted(glob.glob(d + "/verif/units/*.spec")):
            u = m.Unit(spec, w); base[u.name] = sig(m, u)
        for it in a[2:]:
            print(one(d, it, base), flush=True)
        sys.exit(0)
    n = 2
    if a[0] == "-j": n = int(a[1]); a = a[2:]
    ps = []
    for k in range(n):
        items = a[k::n]
        if not items: continue
        d = lane_init(k)
        ps.append(subprocess.Popen([sys.executable, d + "/verif/tools/sweep.py", "--lane", d] + [os.path.abspath(x) if x.endswith(".diff") else "%s/seeded/%s/patch.diff" % (V, x) for x in items]))
    for p in ps: p.wait()
