#!/usr/bin/env python3
"""run, for every planted bug, the check of its property on a copy of the source with the bug; writes spec/caught.json"""
import glob, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(ROOT, "spec", "caught.json")
res = json.load(open(out)) if os.path.exists(out) else {}
only = set(sys.argv[1:])
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "S*"))):
    i = os.path.basename(d)
    if only and i not in only:
        continue
    m = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="caught", dir="/tmp")
    shutil.copytree("/repo/src", t + "/src")
    subprocess.run(["patch", "-p1", "-s", "-i", d + "/patch.diff"], cwd=t, check=True)
    p = subprocess.run(["python3", "check.py", m["property"], "quick"], cwd=ROOT, env={**os.environ, "VERIF_SRC": t + "/src"}, capture_output=True, text=True)
    shutil.rmtree(t)
    ok = p.returncode == 1 and f"VIOLATION property={m['property']} " in p.stdout
    res[i] = m["property"] if ok else "missed"
    if not ok:
        print(i, m["property"], "MISSED", p.returncode)
res = {k: v for k, v in sorted(res.items()) if os.path.exists(os.path.join(ROOT, "seeded", k))}
json.dump(res, open(out, "w"), indent=1)
