#!/usr/bin/env python3
"""check.py ID [quick|thorough] - decide one property by static analysis of /repo"""
import importlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    from rules import common, registry
    common.DEADLINE = t0 + float(os.environ.get("VERIF_BUDGET", 700 if tier == "quick" else 780))
    mod, fn, meta = registry.RULES[pid]
    rep = common.Report(pid, tier)
    m = importlib.import_module("rules." + mod)
    try:
        getattr(m, fn)(rep)
    except common.Anchor as e:
        print(f"ANCHOR-MISSING property={pid} {e}")
        return 2
    except Exception as e:  # outside any case: what was not reached stays undecided
        rep.items.append(("undecided", "analysis", "", f"{type(e).__name__}: {e} " + traceback.format_exc()[-1500:]))
    for s, ob, w, msg in rep.items:
        if s == "anchor":
            print(f"ANCHOR-MISSING property={pid} {ob}")
            return 2
    known = load_known(pid)
    viol, kn, und, ok = [], [], [], 0
    obs = {}
    for s, ob, w, msg in rep.items:
        if s == "ok":
            ok += 1
            obs[ob] = obs.get(ob, 0) + 1
        elif s == "violation":
            k = next((k for k in known if k["match"] in f"{ob} | {w} | {msg}"), None)
            if k is not None:
                kn.append((k, ob, w, msg))
            else:
                viol.append((ob, w, msg))
        else:
            und.append((ob, w, msg))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    replay = os.path.join(ROOT, "evidence", f"{pid}.report.txt")
    with open(replay, "w", encoding="utf-8") as fh:
        fh.write(f"property {pid}: {meta['technique']}\n")
        for ob, w, msg in viol:
            fh.write(f"VIOLATION [{ob}] at {w}: {msg}\n")
        for k, ob, w, msg in kn:
            fh.write(f"known [{ob}] at {w}: {msg}\n")
        for ob, w, msg in und:
            fh.write(f"undecided [{ob}] at {w}: {msg}\n")
    n = ok + len(viol) + len(kn) + len(und)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": meta["level"], "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "technique": meta["technique"],
            "explanation": meta["covers"],
            "obligations": n, "discharged": ok, "undecided": len(und), "known_findings": len(kn),
            "cases": rep.ncases, "abstract_statements": rep.stmts, "abstract_calls": rep.calls,
            "functions_analysed": sorted(f"{a}.{b}" for a, b in rep.funcs if not a.startswith("refspec")),
            "source_lines_reached": len([x for x in rep.lines if "refspec" not in str(x)]),
            "samples": [ob for ob in list(obs)[:: max(1, len(obs) // 8)]][:8],
            "rule": meta.get("rule", "one obligation per abstract path, attribute or call site compared with the reference"),
            "checker_cmd": f"python3 check.py {pid} {tier}",
            "trusted_base": ["CPython ast module", "absint engine and its models of builtins and standard library",
                             "reference definitions in spec/ and rules/"],
        },
        "assumptions": meta.get("assumes", []),
    }
    ev["violations"] = len(viol)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=str)
    seen = set()
    for k, ob, w, msg in kn:
        if k["id"] not in seen:
            seen.add(k["id"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} [{tier}]: {n} obligations, {ok} discharged, {len(und)} undecided, {len(viol)} violated, "
          f"{rep.ncases} cases, {len(rep.funcs)} functions, {rep.stmts} abstract statements, {time.time() - t0:.1f}s")
    if os.environ.get("VERIF_SLOW"):
        print("slow:", sorted(rep.slow, reverse=True)[:10])
    for ob, w, msg in und[:int(os.environ.get("VERIF_SHOW", "5"))]:
        print(f"UNDECIDED [{ob}] at {w}: {msg[:int(os.environ.get('VERIF_WIDTH', '400'))]}")
    if n == 0:
        print("no obligations generated")
        return 2
    if viol:
        for ob, w, msg in viol[:8]:
            print(f"violated [{ob}] at {w}: {msg[:700]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as fh:
        d = json.load(fh)
    return [k for k in d.get("known", []) if k["property"] == pid]


if __name__ == "__main__":
    sys.exit(main())
