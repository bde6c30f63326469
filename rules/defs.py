"""Payload definitions: well-formedness, reachability, recognition, layouts (C36-C39)."""

from __future__ import annotations

import json
import os
import re

from . import msgs
from .common import (C, Tup, NONE, ROOT, S, engine, entry, compare, bad, is_lib, excname, sentence, attrs_of, public, fld,
                     cksum_atoms, AbsRaise, Cls)
from .msgs import frozen, current, TABLES, MODE, TYPES, Subj, Scene, tab, parse, objects, with_lits, fetch, match, loc, flatcount, expand
from .parsing import method, _items
from .reader import StreamModel, B_items, it_explore, classes

# ---- C36 every definition is well formed ------------------------------------------------


def public_names():
    """public names of the message class"""
    it = engine()
    c = entry("NMEAMessage")
    st = it.newstate()
    return {k for k in st.get(c.oid).data if isinstance(k, str) and not k.startswith("_")} if isinstance(c, Cls) else set()


NUMERIC = ("IN", "DE", "HX")


def lint(d, taken, seen, where, depth=0):
    """[what is wrong with a definition]"""
    out = []
    opened = None
    if not d and depth:
        out.append(f"{where}: group without attributes")
    for i, (name, t) in enumerate(d.items()):
        if not isinstance(name, str) or not re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*", name):
            out.append(f"{where}: {name!r} is not an attribute name")
            continue
        if isinstance(t, tuple):
            if depth:
                out.append(f"{where}.{name}: nested group")
            if len(t) != 2 or not isinstance(t[1], dict):
                out.append(f"{where}.{name}: a group is a size and a dictionary")
                continue
            size, sub = t
            if isinstance(size, bool) or not (isinstance(size, int) and size > 0 or size == "None" or
                                               isinstance(size, str) and seen.get(size) == "IN"):
                out.append(f"{where}.{name}: group size {size!r} is neither a number, 'None' nor an earlier integer attribute")
            if size == "None":
                if opened:
                    out.append(f"{where}.{name}: second open group")
                opened = name
            out += lint(sub, taken, seen, f"{where}.{name}", depth + 1)
            continue
        if opened and isinstance(t, tuple):
            out.append(f"{where}.{name}: group after an open group")
        if t not in TYPES:
            out.append(f"{where}.{name}: {t!r} is not a field type")
        if name in taken:
            out.append(f"{where}.{name}: hides the message attribute of that name")
        if name in seen:
            out.append(f"{where}.{name}: defined twice")
        seen[name] = t
    # a position has its hemisphere
    for name, ty, hemi in (("lat", "LA", "LAD"), ("lon", "LN", "LND")):
        if d.get(name) == ty and depth == 0:
            ks = list(d)
            later = [d[k] for k in ks[ks.index(name) + 1:] if not isinstance(d[k], tuple)]
            if hemi not in later:
                out.append(f"{where}.{name}: no hemisphere field follows")
    return out


def case_lint(r, mode, prop):
    t = current(TABLES[mode, prop])
    taken = public_names()
    ids = set(tab("NMEA_MSGIDS")) | set(tab("NMEA_MSGIDS_PROP"))
    for key, d in t.items():
        if key == "FOO":  # a dummy kept for error testing
            continue
        where = f"{TABLES[mode, prop]}[{key!r}]"
        errs = lint(d, taken, {}, where) if isinstance(d, dict) else [f"{where}: not a dictionary"]
        if key not in ids and key.split("_")[0] not in ids and key not in ("TNLGGKX", "QTMACK", "QTMNAK", "ASHRHR"):
            errs.append(f"{where}: the identifier has no description")
        if errs:
            for e in errs:
                r.viol(f"definition {mode} {key}", where, e)
        else:
            r.ok(f"definition {mode} {key}")


def rule_lint(rep):
    rep.run([(case_lint, k) for k in TABLES], procs=1)


# ---- C37 every definition can be selected -------------------------------------------------


def one(mode, prop, key, defn):
    """the subject of a frozen or current definition"""
    return Subj(mode, key, defn, prop)


def count_of(defn):
    g = msgs.groupof(defn)
    if g is None:
        return flatcount(defn), {}
    return flatcount(defn) + 2 * flatcount(g[2]), ({g[1]: 2} if g[0] == "count" else {})


def case_reach(r, mode, prop, key):
    """a sentence with all its fields is recognised, with identifiers validated, as its definition"""
    it = engine()
    d = current(TABLES[mode, prop]).get(key)
    ob = f"{mode} {key}"
    if d is None:
        r.viol(ob, TABLES[mode, prop], f"there is no definition of {key} in mode {mode}")
        return
    n, counts = count_of(d)
    sj = one(mode, prop, key, d)
    sc = Scene(sj, n, counts)
    names = [a for a, _, _ in sc.layout]
    for o in parse(sc, validate=2):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{sj}: parsing {sc.message()!r} with identifiers validated raises {sorted(excname(it, o))}")
            continue
        for lits, v in objects(o):
            st = with_lits(o.st, lits)
            if st is None:
                continue
            got = list(public(attrs_of(it, st, v))) if v is not NONE else None
            if got != names:
                bad(r, ob, st, loc(), f"{sj}: attributes {got} instead of those of its definition {names}")
                continue
            r.ok(ob)
            for o2 in it.do(lambda cx: cx.it.getattr(cx, v, "identity"), st):
                compare(r, ob + " identity", o2.st, o2.val, C(sj.ident), loc(), f"{sj}: identity")


def reachable():
    """definitions a sentence selects (the others are listed in DESIGN.md)"""
    for (m, p), t in frozen()["layouts"].items():
        cur = current(TABLES[m, p])
        for k in list(t) + [k for k in cur if k not in t]:
            d = cur.get(k, t.get(k))
            if not p and m != "GET" and (k.startswith(tuple(frozen()["prefixes"])) or k in frozen()["msgids_prop"]):
                continue
            if isinstance(d, dict) and msgs.welltyped(d):
                yield m, p, k


def case_described(r, which):
    """the known identifiers stay known"""
    cur = tab("NMEA_MSGIDS" if which == "msgids" else "NMEA_MSGIDS_PROP")
    for k in frozen()[which]:
        if k in cur:
            r.ok(f"description {k}")
        else:
            r.viol(f"description {k}", "nmeatypes_core", f"{k} is no longer a known identifier")


def rule_reach(rep):
    rep.run([(case_reach, x) for x in reachable()] + [(case_described, (w,)) for w in ("msgids", "msgids_prop")])


# ---- C38 sentences of every talker are recognised ---------------------------------------------


def case_recognise(r, talker, nmeaonly):
    it = engine()
    hdr = talker + ("XYZ" if talker != "P" else "XYZW")
    content = sentence(hdr, [fld(0), fld(1)], ck=cksum_atoms())
    st = it.newstate()
    noise = C(b"\x00\n") if not nmeaonly else C(b"")
    stream = st.alloc("ext", None, [S.cat([noise, content], True)], StreamModel())
    ob = f"talker {talker} nmeaonly={nmeaonly}"

    def client(cx):
        rd = cx.call(entry("NMEAReader"), [stream], {"validate": C(0), "quitonerror": C(2), "nmeaonly": C(nmeaonly)})
        try:
            v = cx.force(method(cx, rd, "read"))
        except AbsRaise as e:
            cx.it._last = ("exc", e.exc, e.where)
            return
        raw, msg = [cx.force(x) for x in B_items(cx, v)]
        cx.it._last = ("ret", raw, None if msg is NONE else Tup([it.getattr(cx, msg, "talker"), it.getattr(cx, msg, "identity")]))
    for o in it_explore(it, client, st):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, "raises")
            continue
        kind, a, b = o.val
        if kind == "exc":
            bad(r, ob, o.st, b, f"reading a sentence of talker {talker} raises {sorted(classes(it, o.st, a))}")
            continue
        compare(r, ob, o.st, a, content, "NMEAReader.read", f"bytes read of a sentence of talker {talker}")
        if b is None:
            bad(r, ob, o.st, "NMEAReader.read", f"a sentence of talker {talker} is skipped")
        else:
            compare(r, ob + " talker", o.st, b, Tup([C(talker), C(hdr)]), "NMEAReader.read", "talker and identity")


def case_known_talker(r, talker):
    """a listed talker passes the validation of identifiers"""
    it = engine()
    fields = [fld(i) for i in range(1)]
    msg = sentence(talker + "ACK", fields)
    for o in it.run(entry("NMEAReader.parse"), [msg], {"validate": C(2)}):
        ob = f"known talker {talker}"
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"a sentence of talker {talker} is rejected: {sorted(excname(it, o))}")
        else:
            r.ok(ob)


def rule_talkers(rep):
    tks = sorted(set(frozen()["talkers"]) | set(tab("NMEA_TALKERS")))
    cases = [(case_recognise, (t, n)) for t in tks + (["P"] if "P" not in tks else []) for n in (False, True)]
    cases += [(case_known_talker, (t,)) for t in tks if len(t) == 2]
    rep.run(cases)


# ---- C39 the layouts of the sentences ------------------------------------------------------------


def case_layout(r, mode, prop, key, k):
    """names, order and conversions of the attributes are those of the reviewed layout"""
    it = engine()
    d = frozen()["layouts"][mode, prop][key]
    g = msgs.groupof(d)
    n, counts = flatcount(d), {}
    if g is not None:
        n += k * flatcount(g[2])
        counts = {g[1]: k} if g[0] == "count" else {}
    sj = one(mode, prop, key, d)
    sc = Scene(sj, n, counts)
    names = [a for a, _, _ in sc.layout]
    ob = f"layout {mode} {key}/{n}"
    for o in parse(sc):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{sj}: parsing {sc.message()!r} raises {sorted(excname(it, o))}")
            continue
        for lits, v in objects(o):
            st = with_lits(o.st, lits)
            if st is None:
                continue
            got = list(public(attrs_of(it, st, v))) if v is not NONE else None
            if got != names:
                bad(r, ob + " names", st, loc(), f"{sj}: attributes {got} instead of {names}")
                continue
            r.ok(ob + " names")
            for i, name in enumerate(names):
                match(r, f"{ob} {name}", st, fetch(st, v, name), sc.expected(st, i), loc(), f"{sj}.{name}")


def rule_layouts(rep):
    cases = []
    for m, p, k in reachable():
        d = frozen()["layouts"][m, p].get(k)
        if d is not None and msgs.welltyped(d):
            g = msgs.groupof(d)
            for n in ((None,) if g is None else (1, 3) if rep.tier == "quick" else (0, 1, 2, 3, 5, 9)):
                cases.append((case_layout, (m, p, k, n)))
    rep.run(cases)
