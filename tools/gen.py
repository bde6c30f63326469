#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from spec/props.py and rules/registry.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from rules.registry import RULES
from spec.props import PROPS, NOT_APPLICABLE

lines, checks = [], []
for pid in sorted(RULES):
    p = PROPS[pid]
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    lines.append({"id": pid, "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                              "observe_at": p["observe"], "hook_needed": None}})
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} quick", "thorough_cmd": f"python3 check.py {pid} thorough",
                   "technique": RULES[pid][2]["technique"], "level": "other",
                   "level_note": p["covers"] + (" Assumes: " + "; ".join(p["assumes"]) + "." if p["assumes"] else "")})
na = []
for x in NOT_APPLICABLE:
    lines.append(x["prop"])
    na.append({"property": x["prop"]["id"], "reason": x["reason"]})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for l in sorted(lines, key=lambda l: l["id"]):
        fh.write(json.dumps(l, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
missing = set(PROPS) - set(RULES)
if missing:
    print("no rule:", sorted(missing))
