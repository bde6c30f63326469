#!/usr/bin/env python3
"""plant.py FILE: make a planted bug from a description (scratch copy of /repo under /tmp).

FILE is Python defining: id, property, needs, breaks, edits=[(path, old, new)], demo (source of demo.py)."""
import json, os, shutil, subprocess, sys, tempfile

d = {}
exec(open(sys.argv[1], encoding="utf-8").read(), d)
tmp = tempfile.mkdtemp(prefix="plant")
wt = os.path.join(tmp, "repo")
subprocess.run(["cp", "-a", "/repo", wt], check=True)
out = os.path.join("/verif/seeded", d["id"])
try:
    for path, old, new in d["edits"]:
        p = os.path.join(wt, path)
        s = open(p, encoding="utf-8", newline="").read()
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            sys.exit(f"{d['id']}: {path}: {s.count(old)} occurrences of the text to change")
        open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
    env = dict(os.environ, LANG="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(wt, "src"))
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-x", "tests"],
                       cwd=wt, env=env, capture_output=True, text=True)
    if t.returncode:
        print(t.stdout[-1500:])
        sys.exit(f"{d['id']}: the tests notice the change")
    diff = subprocess.run(["git", "-C", wt, "diff", "--binary"], capture_output=True, check=True).stdout
    # every changed line must be a line of the original repository
    base = subprocess.run(["git", "-C", wt, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    base = "cd4dc13"
    for path in {e[0] for e in d["edits"]}:
        orig = subprocess.run(["git", "-C", wt, "show", f"{base}:{path}"], capture_output=True).stdout.decode().splitlines()
        for l in diff.decode("utf-8", "replace").splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].rstrip("\r") not in [x.rstrip("\r") for x in orig]:
                print(f"warning: {d['id']} changes a line of a fix: {l}")
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "wb").write(diff)
    open(os.path.join(out, "demo.py"), "w", encoding="utf-8").write(d["demo"].strip() + "\n")
    open(os.path.join(out, "demo.sh"), "w").write(
        '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec python3 "$here/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    r0 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=wt, capture_output=True, text=True)
    if r0.returncode or not r1.returncode:
        print(r0.stdout, r0.stderr, r1.stdout, r1.stderr)
        shutil.rmtree(out)
        sys.exit(f"{d['id']}: demo gives {r0.returncode} unchanged, {r1.returncode} changed")
    # our checks on the changed copy
    hit = []
    for pid in ([d["property"]] if len(sys.argv) < 3 else sys.argv[2:]):
        c = subprocess.run(["python3", "/verif/check.py", pid, "quick"], cwd="/verif",
                           env=dict(os.environ, VERIF_SRC=os.path.join(wt, "src")), capture_output=True, text=True)
        hit.append(f"{pid}:{c.returncode}")
        if c.returncode != 1:
            print(c.stdout[-1500:], c.stderr[-500:])
    print(d["id"], "tests pass, demo ok, checks", *hit)
finally:
    shutil.rmtree(tmp)
