#!/usr/bin/env python3
"""Development test of the analyser itself: small functions of our own (tools/snippets.py) are analysed abstractly, the inferred
terms evaluated on sample valuations and compared with running the same function on these values.  No code of the repository is involved."""
import ast, os, random, signal, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from absint.interp import Interp, Unsupported
from absint import witness
from rules.common import excname
from absint.values import atom, C, T
SRCF = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1].endswith(".py") else os.path.join(ROOT, "tools", "snippets.py")
only = [a for a in sys.argv[1:] if not a.endswith(".py")]
ns = {"__name__": "snippets"}
exec(compile(open(SRCF).read(), SRCF, "exec"), ns)
tree = ast.parse(open(SRCF).read())
KIND = {"s": ("str", {}), "w": ("str", {"excl": frozenset(",*$\r\n")}), "c": ("str", {"minlen": 1, "maxlen": 1}),
        "d": ("str", {"minlen": 1, "maxlen": 1, "incl": frozenset("0123456789")}), "n": ("int", {}), "u": ("int", {"lo": 0, "hi": 5000}),
        "b": ("bytes", {}), "f": ("float", {}), "p": ("float", {"lo": 0.0, "hi": 180.0}), "dt": ("datetime", {"aware": True}),
        "nd": ("datetime", {}), "da": ("date", {"lo": 1970, "hi": 2067}), "ti": ("time", {}), "bo": ("bool", {}), "x": ("any", {})}
def frozen(st, v):
    from absint.values import Ref, Tup, Phi
    if isinstance(v, Ref) and st.get(v.oid).kind == "list":
        return Tup(tuple(frozen(st, x) for x in st.get(v.oid).data))
    if isinstance(v, Tup):
        return Tup(tuple(frozen(st, x) for x in v.items))
    if isinstance(v, Phi):
        return Phi(tuple((g, frozen(st, x)) for g, x in v.alts))
    return v


def plain(v):
    return tuple(plain(x) for x in v) if isinstance(v, (list, tuple)) else v


it = Interp("/repo/src", extra={"snippets": SRCF})
stats = {"ok": 0, "unsupported": 0, "undef": 0}


def alarm(*_):
    raise TimeoutError


signal.signal(signal.SIGALRM, alarm)
for node in tree.body:
    if not isinstance(node, ast.FunctionDef) or node.name.startswith("_") or only and node.name not in only:
        continue
    ps = [a.arg for a in node.args.args]
    atoms = []
    for p in ps:
        k = p.rstrip("0123456789")
        ty, kw = KIND[k]
        atoms.append(atom(p, ty, **kw))
    signal.alarm(60)
    try:
        outs = it.run(it.lookup("snippets." + node.name), atoms)
    except Unsupported as e:
        stats["unsupported"] += 1
        print(f"  unsupported {node.name}: {str(e)[:100]}")
        continue
    except TimeoutError:
        print(f"  TIMEOUT {node.name}")
        continue
    except Exception as e:
        print(f"ENGINE ERROR {node.name}: {type(e).__name__} {str(e)[:150]}")
        continue
    finally:
        signal.alarm(0)
    for o in outs:
        if o.kind == "ret":
            o.val = frozen(o.st, o.val)
    rng = random.Random(7)
    hints = witness.hints_of([t for o in outs for t, _ in o.st.flog] + [o.val for o in outs if o.kind == "ret" and o.val is not None])
    sh = [h for h in hints if isinstance(h, str)]
    nh = [h for h in hints if not isinstance(h, str)]
    bad = undef = good = none = 0
    for _ in range(300):
        val = {}
        try:
            for a in atoms:
                val[a] = witness.sample(a, rng, sh if a.ty in ("str", "bytes") else nh)
        except witness.Undef:
            continue
        args = [val[a] for a in atoms]
        try:
            want = ("ret", plain(ns[node.name](*args)))
        except Exception as e:
            want = ("exc", type(e).__name__)
        hit = False
        for o in outs:
            try:
                memo = {}
                if not witness.hold(o.st.flog, val, memo):
                    continue
                nd = any(t.op == "nd" for t, _ in o.st.flog)
                if o.kind == "exc":
                    got = [("exc", n) for n in excname(it, o)]
                else:
                    got = [("ret", v) for v in witness.values(o.val, val, memo)]
                    if not got:
                        continue
            except witness.Undef as e:
                undef += 1
                hit = True
                und = str(e)
                continue
            except witness.Err:
                continue
            except Exception as e:
                undef += 1
                hit = True
                und = f"{type(e).__name__} {e}"
                continue
            hit = True
            if any(g[0] == want[0] and (g[0] == "exc" or type(g[1]) is type(want[1]) and not witness.differ(g[1], want[1])) for g in got):
                good += 1
            elif nd:
                continue
            elif want[0] == "exc" and got[0][0] == "exc" and "None" in str(got):
                undef += 1
                und = str(got)
            else:
                bad += 1
                if bad <= 2:
                    print(f"MISMATCH {node.name}{tuple(args)!r}: real {want!r}, inferred {got!r} [{o.val!r}]"[:600])
        if not hit:
            none += 1
            if none <= 1:
                print(f"NO OUTCOME {node.name}{tuple(args)!r}: real {want!r}"[:400])
    stats["ok"] += bad == 0 and none == 0
    if undef:
        stats["undef"] += 1
        print(f"  undef {node.name}: {undef} of {undef + good}: {und[:120]}")
print(stats)
