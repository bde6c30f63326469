"""Rules about created messages (C18-C20) and message objects (C09, C21-C23, C40, C42)."""

from __future__ import annotations

import ast

from .common import *  # noqa: F401,F403
from .common import (C, T, Tup, Ref, Phi, Bi, NONE, TRUE, FALSE, EMPTY, UNBOUND, S, AbsRaise, Infeasible, Unsupported,
                     engine, entry, table, fld, sentence, compare, bad, is_lib, excname, attrs_of, public, expand,
                     witness, path, atom, DELIMS, cksum_atoms, contains_term, classname)
from absint.values import atoms_of
from .msgs import (Subj, Scene, subjects, subj, parse, fieldcounts, match, fetch, with_lits, alts, objects, spec, tab,
                   MODE, loc, flatcount, groupof, TABLES, cond_state)
from .parsing import run, lifted, method, lits_of, messages, value_check, _items, unknown_id, variants
from .reader import snapshot


def given(i, t, form, excl=DELIMS):
    """an arbitrary value of an attribute of type t"""
    if t == "IN":
        return atom(f"v{i}", "int")
    if t == "DE":
        return atom(f"v{i}", "float")
    if t in ("LA", "LN"):
        b = 90.0 if t == "LA" else 180.0
        return atom(f"v{i}", "float", lo=-b, hi=b)
    if t == "TM":
        return atom(f"v{i}", "time") if form == "obj" else atom(f"v{i}", "str", excl=excl)
    if t in ("DT", "DTL", "DM"):
        return atom(f"v{i}", "date") if form == "obj" else atom(f"v{i}", "str", excl=excl)
    return atom(f"v{i}", "str", excl=excl)


def creatable(sj):
    """definitions a created message can select (others describe responses or are chosen by content)"""
    return not (sj.key in ("QTMACK", "QTMNAK", "QTMSN_ALT") or sj.key == "ASHR"
                or (sj.mode == "GET" and sj.key == "QTMCFGGEOFENCE_DIS"))


NOW = atom("now_us", "int", lo=62135596800000000, hi=315537897599999999)


class Made:
    """arguments that create a message of a definition"""

    def __init__(self, sj, n, counts, form="obj", omit=(), high=False):
        self.sj, self.high = sj, high
        self.layout = expand(sj.defn, n, counts)
        h = sj.hdr
        s = 1 if h[0] == "P" else 2
        self.talker, self.ident = h[:s], h[s:]
        self.kw = {}
        names = [a for a, _, _ in self.layout]
        for i, (a, t, b) in enumerate(self.layout):
            if i in sj.fixed:
                v = C(sj.fixed[i])
                if t == "IN":
                    v = C(int(sj.fixed[i]))
            elif a in counts:
                v = C(counts[a])
            elif sj.key.endswith("_DIS") and a in ("geofencemode", "enable"):
                v = C(0)
            elif sj.mode == "SET" and sj.key in ("QTMCFGGEOFENCE", "QTMCFGPPS") and a in ("geofencemode", "enable"):
                v = C(1)
            elif i in omit:
                continue
            else:
                v = given(i, t, form, DELIMS | frozenset("[]") if sj.key == "SSNSNC" else DELIMS)
            self.kw[a] = v
        self.args = [C(self.talker), C(self.ident), C(MODE[sj.mode])]
        self.st = engine().newstate()
        for name, args in sj.conds:  # not a response that has a definition of its own
            v = self.kw.get(names[args[0]]) if args[0] < len(names) else None
            if isinstance(v, T) and name == "isnot":
                self.st = cond_state(self.st, name, [v, args[1]])

    def create(self, st=None):
        engine().clock = NOW  # the wall clock while the message is created
        kw = dict(self.kw)
        if self.high:
            kw["hpnmeamode"] = TRUE
        return engine().run(entry("NMEAMessage"), self.args, kw, st=(st or self.st).fork())

    def expected(self, st, i):
        """[(literals, value)] of attribute i, None when any current date or time is allowed"""
        a, t, b = self.layout[i]
        ref = {"LAD": "lat", "LND": "lon"}.get(t)
        if ref is not None:
            j = next((j for j, (x, _, _) in enumerate(self.layout) if x == ref and j < i), None)
            if j is not None:
                c = self.kw.get(ref, EMPTY)
                return alts(lambda cx: cx.call(spec("hemisphere"), [C(t), c]), st)
        if a in self.kw:
            return [([], "ret", self.kw[a], None)]
        if t in ("TM", "DT", "DTL", "DM"):
            return None
        return alts(lambda cx: cx.call(spec("nominal"), [C(t), C(MODE[self.sj.mode])]), st)

    def text(self, st, i, v):
        return alts(lambda cx: cx.call(spec("text"), [C(self.layout[i][1]), v, C(self.high)]), st)


def made(r, ob, mk, outs):
    it = engine()
    for o in outs:
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{mk.sj}: creating the message raises {sorted(excname(it, o))}")
            continue
        for lits, v in objects(o):
            st = with_lits(o.st, lits)
            if st is not None:
                yield st, v


def case_create(r, mode, key, n, counts, form, omit, high):
    it = engine()
    sj = subj(mode, key)
    mk = Made(sj, n, counts, form, omit, high)
    ob = f"{mode} {key}/{n} {form}{' hp' if high else ''}{' without ' + str(len(omit)) if omit else ''}"
    names = [a for a, _, _ in mk.layout]
    where = "NMEAMessage (created)"
    for st, m in made(r, ob, mk, mk.create()):
        got = list(public(attrs_of(it, st, m)))
        if got != names:
            bad(r, ob + " names", st, where, f"{sj}: created with {sorted(mk.kw)}: attributes {got}, expected {names}")
            continue
        r.ok(ob + " names")
        for o in run(st, lambda cx: Tup(cx.force(x) for x in _items(cx, cx.it.getattr(cx, m, "payload")))):
            if o.kind == "exc":
                bad(r, ob, o.st, o.where, "payload raises")
                continue
            for lits, pl in lits_of(o.val):
                s = with_lits(o.st, lits)
                if s is None:
                    continue
                if len(pl.items) != len(names):
                    bad(r, ob + " payload", s, where, f"{sj}: payload has {len(pl.items)} fields, expected {len(names)}")
                    continue
                for i, name in enumerate(names):
                    e = mk.expected(s, i)
                    t = mk.layout[i][1]
                    if e is None:  # the current date or time
                        for gl, k, v, _ in fetch(s, m, name):
                            s2 = with_lits(s, gl)
                            if s2 is None:
                                continue
                            want = "time" if t == "TM" else "date"
                            if getattr(v, "ty", None) == want and NOW in atoms_of(v):
                                r.ok(f"{ob} {name}")
                            elif getattr(v, "ty", None) == want and isinstance(v, C):
                                bad(r, f"{ob} {name}", s2, where, f"{sj}.{name}: nominal value {v!r} is not the current {want}")
                                continue
                            elif getattr(v, "ty", None) == want:
                                if contains_term(v, ("clockus", "now")):
                                    bad(r, f"{ob} {name}", s2, where, f"{sj}.{name}: nominal value {v!r} was not read from the clock "
                                        f"while the message was created but before")
                                else:
                                    r.und(f"{ob} {name}", f"origin of nominal value {v!r}", where)
                                continue
                            else:
                                bad(r, f"{ob} {name}", s2, where, f"{sj}.{name}: nominal value {v!r} is not a {want}")
                                continue
                            match(r, f"{ob} {name} text", s2, [([], "ret", pl.items[i], None)], mk.text(s2, i, v), where,
                                  f"payload field of {sj}.{name}")
                        continue
                    match(r, f"{ob} {name}", s, fetch(s, m, name), e, where, f"{sj}.{name} of the created message")
                    for gl, k, v, _ in e:
                        s2 = with_lits(s, gl)
                        if s2 is not None:
                            match(r, f"{ob} {name} text", s2, [([], "ret", pl.items[i], None)], mk.text(s2, i, v), where,
                                  f"payload field of {sj}.{name}")


def created_cases(full, fn, *tail):
    cases = []
    for sj in subjects():
        if not creatable(sj):
            continue
        for n, counts in fieldcounts(sj.defn, (0, 1, 2, 11) if full else (0, 2)):
            cases.append((fn, (sj.mode, sj.key, n, counts) + tail))
    return cases


def rule_create(rep):
    full = rep.tier != "quick"
    cases = created_cases(full, case_create, "obj", (), False)
    for sj in subjects():
        if not creatable(sj):
            continue
        n, counts = fieldcounts(sj.defn, (1,))[0]
        lay = expand(sj.defn, n, counts)
        ts = {t for _, t, _ in lay}
        if ts & {"TM", "DT", "DTL", "DM"}:
            cases.append((case_create, (sj.mode, sj.key, n, counts, "text", (), False)))
        if ts & {"LA", "LN"}:
            cases.append((case_create, (sj.mode, sj.key, n, counts, "obj", (), True)))
        if len(variants(sj)) > 1:
            continue
        g = groupof(sj.defn)
        base = [i for i, (a, _, _) in enumerate(lay) if i not in sj.fixed and a not in counts]
        omits = []
        if g is None or g[0] == "count":
            omits.append(tuple(base))
            if full or len(base) <= 12:
                omits += [(i,) for i in base]
        omits += [tuple(base[::2])] if len(base) > 1 and (g is None or g[0] == "count") else []
        if g is not None and g[0] == "rest":
            # one member of every repeat is enough
            omits.append(tuple(i for i in base if lay[i][2] != lay[i][0] and lay[i][2] != list(g[2])[0]))
        for om in omits:
            cases.append((case_create, (sj.mode, sj.key, n, counts, "obj", om, False)))
    rep.run(cases)


# ---- C19 what a created message serialises to ---------------------------------------------


def case_serial(r, mode, key, n, counts, form):
    it = engine()
    sj = subj(mode, key)
    mk = Made(sj, n, counts, form)
    ob = f"{mode} {key}/{n} {form}"
    serial(r, ob, mk.talker, mk.ident, made(r, ob, mk, mk.create()))


def serial(r, ob, talker, ident, msgs):
    for st, m in msgs:
        def client(cx):
            pl = cx.it.getattr(cx, m, "payload")
            fields = cx.newlist([cx.force(x) for x in _items(cx, pl)])
            ref = cx.call(spec("framed"), [C(talker) if isinstance(talker, str) else talker,
                                           C(ident) if isinstance(ident, str) else ident, fields])
            return Tup((cx.force(method(cx, m, "serialize")), cx.force(ref)))
        for o in run(st, client):
            if o.kind == "exc":
                bad(r, ob, o.st, o.where, f"{ob}: serialising a created message raises {sorted(excname(engine(), o))}")
                continue
            for lits, v in lits_of(o.val):
                s = with_lits(o.st, lits)
                if s is not None:
                    compare(r, ob, s, v.items[0], v.items[1], "NMEAMessage.serialize", f"{ob}: serialize() of the created message")


def case_serial_payload(r, kind, nf):
    """a message created from a list of field texts"""
    it = engine()
    st = it.newstate()
    fields = [fld(i) for i in range(nf)]
    talker, ident = {"unknown": ("GN", "XYZ"), "known": ("GN", "TXT"), "prop": ("P", "XYZ"), "any": ("GN", None)}[kind]
    if ident is None:
        ident = atom("id", "str", excl=DELIMS)
        st = unknown_id(st, ident)
    a = C(ident) if isinstance(ident, str) else ident
    ob = f"{kind} payload of {nf}"

    def client(cx):
        return cx.call(entry("NMEAMessage"), [C(talker), a, C(0)], {"payload": cx.newlist(list(fields))})

    def msgs():
        for o in run(st, client):
            if o.kind == "exc":
                if is_lib(it, o, ("NMEATypeError",)):
                    continue
                bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
                continue
            for lits, v in objects(o):
                s = with_lits(o.st, lits)
                if s is not None:
                    value_check(r, ob + " payload", s, lambda cx: Tup(_items(cx, cx.it.getattr(cx, v, "payload"))), Tup(fields), "payload")
                    yield s, v
    serial(r, ob, talker, ident, msgs())


def rule_serial(rep):
    full = rep.tier != "quick"
    cases = created_cases(full, case_serial, "obj")
    if full:
        cases += created_cases(full, case_serial, "text")
    for k in ("unknown", "known", "prop", "any"):
        for nf in (0, 1, 2, 4, 7):
            cases.append((case_serial_payload, (k, nf)))
    rep.run(cases)


# ---- C20 parsing what was created -----------------------------------------------------------


def case_back(r, mode, key, n, counts, validate, omit=(), high=False, form="obj"):
    """the created message, serialised and parsed, has the attributes it was given"""
    it = engine()
    sj = subj(mode, key)
    mk = Made(sj, n, counts, form, omit, high)
    ob = f"{mode} {key}/{n} v{validate}{' hp' if high else ''}{' text' if form == 'text' else ''}"
    where = "NMEAMessage.serialize / NMEAReader.parse"
    for st, m in made(r, ob, mk, mk.create()):
        def client(cx):
            raw = cx.force(method(cx, m, "serialize"))
            return cx.call(entry("NMEAReader.parse"), [raw], {"msgmode": C(MODE[mode]), "validate": C(validate)})
        for o in run(st, client):
            if o.kind == "exc":
                bad(r, ob, o.st, o.where, f"{sj}: parsing the serialised message raises {sorted(excname(it, o))}")
                continue
            for lits, m2 in lits_of(o.val):
                s = with_lits(o.st, lits)
                if s is None:
                    continue
                names = [a for a, _, _ in mk.layout]
                got = list(public(attrs_of(it, s, m2))) if isinstance(m2, Ref) else m2
                if got != names:
                    bad(r, ob + " names", s, where, f"{sj}: parsed back attributes {got}, expected {names}")
                    continue
                r.ok(ob + " names")
                for i, (a, t, b) in enumerate(mk.layout):
                    e = mk.expected(s, i)
                    if e is None:
                        continue
                    if t in ("LA", "LN", "TM", "DT", "DTL", "DM"):
                        e = stored(mk, s, i, e)
                    match(r, f"{ob} {a}", s, fetch(s, m2, a), e, where, f"{sj}.{a} parsed back")


def stored(mk, st, i, e):
    """what the field text of attribute i stands for: the given value to the resolution of the format"""
    out = []
    a, t, b = mk.layout[i]
    for gl, k, v, _ in e:
        s = with_lits(st, gl)
        if s is None:
            continue
        for hl, k2, txt, _ in mk.text(s, i, v):
            s2 = with_lits(s, hl)
            if s2 is None:
                continue
            signed = a in ("lat", "lon") and any(t2 == ("LAD" if a == "lat" else "LND") and j > i
                                                 for j, (_, t2, _) in enumerate(mk.layout))

            def f(cx):
                x = cx.call(spec("conv"), [C(t), txt])
                if not signed:
                    return x
                letter = cx.call(spec("hemisphere"), [C("LAD" if a == "lat" else "LND"), v])
                return cx.call(spec("signed"), [x, cx.it.truthv(cx, cx.call(spec("same"), [letter, C("S" if a == "lat" else "W")]))])
            for il, k3, w, _ in alts(f, s2):
                out.append((list(gl) + list(hl) + list(il), k3, w, None))
    return out


def rule_back(rep):
    full = rep.tier != "quick"
    cases = created_cases(full, case_back, 1)
    for sj in subjects():
        if not creatable(sj):
            continue
        n, counts = fieldcounts(sj.defn, (1,))[0]
        ts = {t for _, t, _ in expand(sj.defn, n, counts)}
        if ts & {"LA", "LN"}:
            cases.append((case_back, (sj.mode, sj.key, n, counts, 1, (), True)))
        if ts & {"TM", "DT", "DTL", "DM"}:
            cases.append((case_back, (sj.mode, sj.key, n, counts, 1, (), False, "text")))
    rep.run(cases)
