"""Parsing of sentences: fields, types, groups, variants, serialisation."""

from __future__ import annotations

import json
import os

from .common import *  # noqa: F401,F403
from .common import (ROOT, C, T, Tup, Ref, Phi, NONE, TRUE, FALSE, EMPTY, UNBOUND, S, AbsRaise, Infeasible, Unsupported,
                     engine, entry, table, fld, sentence, compare, bad, is_lib, excname, attrs_of, public, expand,
                     witness, path)

TABLES = {("GET", 0): "NMEA_PAYLOADS_GET", ("GET", 1): "NMEA_PAYLOADS_GET_PROP",
          ("SET", 0): "NMEA_PAYLOADS_SET", ("SET", 1): "NMEA_PAYLOADS_SET_PROP",
          ("POLL", 0): "NMEA_PAYLOADS_POLL", ("POLL", 1): "NMEA_PAYLOADS_POLL_PROP"}
MODE = {"GET": 0, "SET": 1, "POLL": 2}
_CACHE = {}


_L = None


def frozen():
    global _L
    if _L is None:
        with open(os.path.join(ROOT, "spec", "layouts.json"), encoding="utf-8") as fh:
            d = json.load(fh)

        def lay(x):
            return {f[0]: f[1] if len(f) == 2 else (f[1], lay(f[2])) for f in x}
        d["layouts"] = {(k.split(":")[0], int(k.split(":")[1])): {n: lay(x) for n, x in t.items()} for k, t in d["layouts"].items()}
        _L = d
    return _L


def current(name):
    """a table as the source defines it"""
    if name not in _CACHE:
        _CACHE[name] = table(f"{name}" if name != "NMEA_PAYLOADS_SET" else name_set())
    return _CACHE[name]


def tab(name):
    """the table a check refers to: reviewed layouts, and current ones for new identifiers"""
    key = next((k for k, v in TABLES.items() if v == name), None)
    if key is None:
        return current(name)
    ref = _CACHE.get(("ref", name))
    if ref is None:
        ref = dict(current(name))
        old = frozen()["layouts"].get(key, {})
        for k in ref:
            if k in old:
                ref[k] = old[k]
        _CACHE["ref", name] = ref
    return ref


def name_set():
    return "pynmeagps.NMEA_PAYLOADS_SET"


class Subj:
    """one payload definition and the sentences that select it"""

    def __init__(self, mode, key, defn, prop):
        self.mode, self.key, self.defn, self.prop = mode, key, defn, prop
        pre = list(tab("NMEA_PREFIX_PROP"))
        self.fixed = {}
        self.conds = []       # (refspec condition, [args]) on the fields
        base = key
        self.base = base
        if not prop:
            self.hdr = "GN" + key
            self.ident = "GN" + key
            return
        if key in ("QTMACK", "QTMNAK"):
            self.hdr, self.ident = "PQTMCFGNAVMODE", "PQTMCFGNAVMODE"
            self.fixed[0] = "OK" if key == "QTMACK" else "ERROR"
            return
        if key.startswith("STMDRSENMSG_"):
            self.hdr = self.ident = "PSTMDRSENMSG"
            self.fixed[0] = key.split("_", 1)[1]
            return
        if "_" in key:
            base = key.split("_", 1)[0]
        self.base = base
        for p in pre:
            if key == p == "ASHR":
                self.hdr, self.ident = "PASHR", "PASHR"
                self.conds.append(("second_is_digit", [0]))
                return
            if base.startswith(p) and base != p:
                self.hdr, self.ident = "P" + p, "P" + base
                self.fixed[0] = base[len(p):]
                return
        self.hdr = self.ident = "P" + base
        if base.startswith("QTM") and mode == "GET":
            if base == "QTMSN":
                if key == "QTMSN_ALT":
                    self.fixed[0] = "7"
                else:
                    self.fixed[0] = "OK"
            else:
                self.conds.append(("isnot", [0, C("ERROR")]))
                self.conds.append(("isnot", [0, C("OK")]))

    def __repr__(self):
        return f"{self.mode}:{self.key}"


def subjects(modes=("GET", "SET", "POLL"), prop=(0, 1)):
    out = []
    pre = tuple(tab("NMEA_PREFIX_PROP"))
    propids = set(tab("NMEA_MSGIDS_PROP"))
    for m in modes:
        for p in prop:
            for k, d in tab(TABLES[m, p]).items():
                if not isinstance(d, dict):
                    continue
                if not p and m != "GET" and (k.startswith(pre) or k in propids):
                    continue
                if welltyped(d):
                    out.append(Subj(m, k, d, p))
    return out


TYPES = {"CH", "DE", "DT", "DTL", "DM", "HX", "IN", "LA", "LAD", "LN", "LND", "QS", "ST", "TM"}


def welltyped(d):
    """ill-typed definitions are the subject of a property of their own"""
    return all(welltyped(t[1]) if isinstance(t, tuple) else t in TYPES for t in d.values())


def subj(mode, key):
    for p in (0, 1):
        d = tab(TABLES[mode, p]).get(key)
        if d is not None and (p or mode == "GET" or not key.startswith(tuple(tab("NMEA_PREFIX_PROP")))
                              and key not in tab("NMEA_MSGIDS_PROP")):
            return Subj(mode, key, d, p)
    raise KeyError(key)


def flatcount(defn):
    return sum(flatcount(t[1]) * t[0] if isinstance(t, tuple) else 1 for t in defn.values()
               if not isinstance(t, tuple) or isinstance(t[0], int))


def groupof(defn):
    """(kind, name, member dict) of the variable group of a definition"""
    for k, t in defn.items():
        if isinstance(t, tuple) and not isinstance(t[0], int):
            return ("count", t[0], t[1]) if t[0] != "None" else ("rest", None, t[1])
    return None


def fieldcounts(defn, sizes=(0, 1, 2)):
    g = groupof(defn)
    n = flatcount(defn)
    if g is None:
        return [(n, {})]
    return [(n + k * flatcount(g[2]), {g[1]: k} if g[0] == "count" else {}) for k in sizes]


# ---- scenario states -----------------------------------------------------------


def spec(name):
    return engine().lookup("refspec." + name)


def alts(fn, st):
    """[(literals, kind, value, where)] of a pure client computation in state st"""
    it = engine()
    n = len(st.flog)
    out = []
    for o in it.do(fn, st.fork()):
        lits = list(o.st.flog[n:])
        if o.kind != "ret":
            out.append((lits, "exc", o.val, o.where))
            continue
        if isinstance(o.val, Phi):
            for g, a in o.val.alts:
                out.append((lits + sorted(g, key=lambda tp: tp[0].n), "ret", a, None))
        else:
            out.append((lits, "ret", o.val, None))
    return out


def with_lits(st, lits):
    """a copy of st with the literals assumed, or None when contradictory"""
    it = engine()
    st = st.fork()
    try:
        for t, p in lits:
            it.assume(st, t, p)
        it.propagate(st, st.ors)
    except Infeasible:
        return None
    return st


def conv_alts(st, att, f):
    return alts(lambda cx: cx.call(spec("conv"), [C(att), f]), st)


def isblank(v):
    return v is EMPTY


def valid_states(st, att, f):
    """states in which field f is a valid, non-blank value of type att"""
    if isinstance(f, C):
        return [st]
    if att in ("CH", "ST", "HX", "QS", "LAD", "LND"):
        return [st]
    out = []
    for lits, k, v, _ in conv_alts(st, att, f):
        if k == "ret" and not isblank(v) and not (v is f):
            s = with_lits(st, lits)
            if s is not None:
                out.append(s)
    if not out:
        raise Unsupported(f"no valid value of type {att} for {f!r}")
    return out


def cond_state(st, name, args):
    for lits, k, v, _ in alts(lambda cx: cx.it.truthv(cx, cx.call(spec(name), args)), st):
        if k != "ret" or v is FALSE:
            continue
        s = with_lits(st, lits)
        if s is None:
            continue
        if v is TRUE:
            return s
        s = with_lits(s, [(v, True)])
        if s is not None:
            return s
    raise Unsupported(f"condition {name}{args} cannot be met")


class Scene:
    """an abstract sentence for a definition"""

    def __init__(self, sj, n, counts=None, free=(), blank=(), choice=0, extra=0, valid=True):
        it = engine()
        self.sj, self.n, self.counts = sj, n, counts or {}
        self.layout = expand(sj.defn, n, self.counts)
        self.fields = [C(sj.fixed[i]) if i in sj.fixed and i < n else EMPTY if i in blank else fld(i)
                       for i in range(n + extra)]
        st = it.newstate()
        for name, args in sj.conds:
            if args[0] < n:
                st = cond_state(st, name, [self.fields[a] if isinstance(a, int) else a for a in args])
        for i, (att, t, base) in enumerate(self.layout):
            f = self.fields[i]
            if att in self.counts and not isinstance(f, C):
                st = cond_state(st, "isint", [f, C(self.counts[att])])
        if valid:
            for i, (att, t, base) in enumerate(self.layout):
                f = self.fields[i]
                if i in free or isinstance(f, C):
                    continue
                ss = valid_states(st, t, self.text(st, i))
                st = ss[choice % len(ss)]
        self.st = st

    def text(self, st, i):
        """text of field i as the definition sees it (SNC groups are bracketed)"""
        f = self.fields[i]
        if self.sj.key == "SSNSNC" and not isinstance(f, C):
            return engine().do(lambda cx: cx.call(spec("unbracket"), [f]), st.fork())[0].val
        return f

    def message(self, **kw):
        return sentence(self.sj.hdr, self.fields, **kw)

    def expected(self, st, i):
        """[(literals, kind, value)] of attribute i"""
        att, t, base = self.layout[i]
        f = self.text(st, i)
        hemi = None
        if att in ("lat", "lon"):
            for j, (a2, t2, b2) in enumerate(self.layout):
                if t2 == ("LAD" if att == "lat" else "LND") and j > i:
                    hemi = (self.fields[j], C("S" if att == "lat" else "W"))

        def go(cx):
            v = cx.call(spec("conv"), [C(t), f])
            if hemi is None:
                return v
            return cx.call(spec("signed"), [v, cx.it.truthv(cx, cx.call(spec("same"), list(hemi)))])
        return alts(go, st)


def parse(sc, mode=None, validate=0, msg=None, **kw):
    it = engine()
    kws = {"msgmode": C(MODE[sc.sj.mode if mode is None else mode]), "validate": C(validate)}
    kws.update(kw)
    return it.run(entry("NMEAReader.parse"), [msg if msg is not None else sc.message()], kws, st=sc.st.fork())


def fetch(st, obj, name):
    """[(literals, kind, value)] of reading an attribute"""
    d = attrs_of(engine(), st, obj)
    if name in d and d[name] is not UNBOUND:
        v = d[name]
        if isinstance(v, Phi):
            return [(sorted(g, key=lambda tp: tp[0].n), "ret", a, None) for g, a in v.alts]
        return [([], "ret", v, None)]
    return alts(lambda cx: cx.it.getattr(cx, obj, name), st)


def match(r, ob, st, act, exp, where, what, rel=None):
    """act, exp: alternatives; every compatible pair must agree"""
    rel = rel or compare
    for gl, k, a, w in act:
        s1 = with_lits(st, gl)
        if s1 is None:
            continue
        for hl, k2, e, w2 in exp:
            s2 = with_lits(s1, hl)
            if s2 is None:
                continue
            if k == "exc" and k2 == "exc":
                r.ok(ob)
            elif k == "exc":
                bad(r, ob, s2, w or where, f"{what}: raises instead of {e!r}")
            elif k2 == "exc":
                bad(r, ob, s2, where, f"{what}: gives {a!r} although the field is malformed")
            else:
                rel(r, ob, s2, s2.eqc.get(a, a), s2.eqc.get(e, e), where, what)


def objects(o):
    """[(literals, value)] of an outcome's value"""
    if isinstance(o.val, Phi):
        return [(sorted(g, key=lambda tp: tp[0].n), v) for g, v in o.val.alts]
    return [([], o.val)]


def loc(name="NMEAMessage"):
    return f"{name} (parsed attributes)"


# ---- the rules -------------------------------------------------------------------


def case_fields(r, mode, key, n, counts, free, choice, extra=0):
    """C10: which attributes a sentence has and what their values are"""
    it = engine()
    sj = subj(mode, key)
    sc = Scene(sj, n, counts, free=(free,) if free is not None else (), choice=choice, extra=extra)
    ob = f"{mode} {key}/{n}" + (f" free {free}" if free is not None else "")
    names = [a for a, _, _ in sc.layout]
    for o in parse(sc):
        if o.kind == "exc":
            # allowed only when a numeric field is malformed
            okx = False
            for i in range(len(sc.layout)):
                for hl, k2, e, w2 in sc.expected(o.st, i):
                    if k2 == "exc" and with_lits(o.st, hl) is not None:
                        okx = True
            if okx and is_lib(it, o):
                r.ok(ob + " malformed")
            else:
                bad(r, ob, o.st, o.where, f"{sj}: parsing {sc.message()!r} raises {excname(it, o)}")
            continue
        for lits, v in objects(o):
            st = with_lits(o.st, lits)
            if st is None:
                continue
            if not isinstance(v, Ref):
                bad(r, ob, st, o.where, f"{sj}: parse returns {v!r} instead of a message")
                continue
            where = loc()
            got = [k for k in public(attrs_of(it, st, v))]
            if [g for g in got] != names:
                bad(r, ob + " names", st, where,
                    f"{sj}: attributes {got} instead of {names} for {n + extra} fields")
                continue
            r.ok(ob + " names")
            for i, name in enumerate(names):
                match(r, f"{ob} {name}", st, fetch(st, v, name), sc.expected(st, i), where, f"{sj}.{name}")


def rule_fields(rep):
    cases = []
    full = rep.tier != "quick"
    for sj in subjects():
        for n, counts in fieldcounts(sj.defn):
            layout = expand(sj.defn, n, counts)
            cases.append((case_fields, (sj.mode, sj.key, n, counts, None, 0)))
            fr = [i for i, (a, t, b) in enumerate(layout)
                  if t not in ("CH", "ST", "HX", "QS") and i not in sj.fixed and a not in counts]
            if not full:
                seen = set()
                keep = []
                for i in fr:
                    t = layout[i][1]
                    if t not in seen:
                        seen.add(t)
                        keep.append(i)
                fr = keep
            for i in fr:
                cases.append((case_fields, (sj.mode, sj.key, n, counts, i, 0)))
    rep.run(cases)
