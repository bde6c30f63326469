#!/usr/bin/env python3
"""rewrite the generated sections of DESIGN.md from spec/props.py, the evidence of the last run and seeded/"""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from rules.registry import RULES
from spec.props import PROPS, NOT_APPLICABLE

out = []
for pid in sorted(RULES):
    p = PROPS[pid]
    fn = RULES[pid]
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Statement.* {p['statement']}\n")
    out.append(f"*Analysed and compared.* {p['covers']}\n")
    out.append(f"*Range.* {p['text'][0].upper() + p['text'][1:]}.\n")
    out.append(f"*Why tests cannot settle it.* {p['why']}\n")
    if p["assumes"]:
        out.append(f"*Assumed.* {'; '.join(p['assumes'])}.\n")
    cost = []
    for tier in ("quick", "thorough"):
        f = os.path.join(ROOT, "spec", "costs.json")
        c = json.load(open(f)).get(tier, {}).get(pid) if os.path.exists(f) else None
        if c:
            cost.append(f"{tier}: {c[0]} obligations in {c[1]} cases, {c[2]} s")
    if cost:
        out.append(f"*Cost (8 cores).* {'; '.join(cost)}.\n")
props = "\n".join(out)
out = []
for x in NOT_APPLICABLE:
    out.append(f"* **{x['prop']['id']} {x['prop']['title']}** - {x['reason']}")
na = "\n".join(out)
out = ["| bug | property | what it breaks | what it needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    c = json.load(open(os.path.join(ROOT, "spec", "caught.json"))).get(i, "") if os.path.exists(os.path.join(ROOT, "spec", "caught.json")) else ""
    out.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {c or '?'} |")
seeds = "\n".join(out)
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
for name, text in (("properties", props), ("not-applicable", na), ("seeds", seeds)):
    s, n = re.subn(rf"(<!-- begin {name} -->\n).*?(<!-- end {name} -->)", lambda m: m[1] + text + "\n" + m[2], s, flags=re.S)
    assert n == 1, name
open(p, "w").write(s)
