"""Rules about NMEAReader.parse and the messages it returns."""

from __future__ import annotations

from .common import *  # noqa: F401,F403
from .common import (C, T, Tup, Ref, Phi, Bi, NONE, TRUE, FALSE, EMPTY, UNBOUND, S, AbsRaise, Infeasible, Unsupported,
                     engine, entry, table, fld, sentence, compare, bad, is_lib, excname, attrs_of, public, expand,
                     witness, path, atom, DELIMS, cksum_atoms, contains_term)
from .msgs import (Subj, Scene, subjects, subj, parse, fieldcounts, match, fetch, with_lits, alts, objects, spec, tab,
                   MODE, loc, flatcount, groupof, conv_alts, isblank, welltyped, TABLES, cond_state)


def run(st, fn):
    return engine().do(fn, st.fork())


def lifted(st, x):
    """a Python value as an abstract value, and the state that holds it"""
    o = run(st, lambda cx: cx.lift(x))[0]
    return o.val, o.st


def method(cx, obj, name, *args):
    return cx.call(cx.it.getattr(cx, obj, name), list(args))


def lits_of(v):
    if isinstance(v, Phi):
        return [(sorted(g, key=lambda tp: tp[0].n), a) for g, a in v.alts]
    return [([], v)]


def messages(r, ob, sc, outs, allow=()):
    """(state, message) of every outcome; other outcomes are violations unless allowed"""
    it = engine()
    for o in outs:
        if o.kind == "exc":
            if allow and is_lib(it, o, allow):
                r.ok(ob + " error")
            else:
                bad(r, ob, o.st, o.where, f"{sc.sj}: parsing raises {sorted(excname(it, o))}")
            continue
        for lits, v in objects(o):
            st = with_lits(o.st, lits)
            if st is None:
                continue
            if not isinstance(v, Ref):
                bad(r, ob, st, o.where, f"{sc.sj}: parse returns {v!r} instead of a message")
                continue
            yield st, v


def value_check(r, ob, st, fn, exp, what, where="NMEAMessage"):
    """obligation: a client computation fn(cx) in st returns exp without raising"""
    it = engine()
    for o in run(st, fn):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{what} raises {sorted(excname(it, o))}")
            continue
        for lits, v in lits_of(o.val):
            s = with_lits(o.st, lits)
            if s is not None:
                compare(r, ob, s, v, exp, o.where or where, what)


# ---- C01 error containment -------------------------------------------------------

CONTAIN = ("NMEAMessageError", "NMEAParseError", "NMEATypeError", "NMEAStreamError")


def contained(r, ob, outs, what):
    it = engine()
    for o in outs:
        if o.kind != "exc":
            for _, v in lits_of(o.val):
                if v is NONE or isinstance(v, Ref):
                    r.ok(ob)
                else:
                    bad(r, ob, o.st, o.where, f"{what}: returns {v!r}")
        elif is_lib(it, o):
            r.ok(ob)
        else:
            bad(r, ob, o.st, o.where, f"{what}: {sorted(excname(it, o))} escapes")


def allkeys():
    ks = set()
    for t in TABLES.values():
        ks |= set(tab(t))
    for t in ("NMEA_MSGIDS", "NMEA_MSGIDS_PROP", "NMEA_PREFIX_PROP"):
        ks |= set(tab(t))
    return Tup(C(k) for k in sorted(ks))


def unknown_id(st, ident):
    """assume that an identifier (in either case) is not one the library knows"""
    st = st.fork()
    it = engine()
    ks = allkeys()
    it.assume(st, T("inkeys", (ident, ks), "bool"), False)
    up = it.do(lambda cx: cx.call(spec("upper"), [ident]), st.fork())[0].val
    if isinstance(up, T):
        it.assume(st, T("inkeys", (up, ks), "bool"), False)
    return st


def case_contain_def(r, mode, key, n, validate, ptype):
    sj = subj(mode, key)
    sc = Scene(sj, n, valid=False) if n <= 400 else None
    sc.st = engine().newstate()
    msg = sentence(sj.hdr, sc.fields, byt=ptype == "bytes")
    engine().lone = ptype == "str"  # texts may contain lone surrogates
    try:
        contained(r, f"{mode} {key}/{n} v{validate} {ptype}", parse(sc, validate=validate, msg=msg), f"{sj} with {n} fields as {ptype}")
    finally:
        engine().lone = False


def case_contain_shape(r, name, validate, mode):
    it = engine()
    P = entry("NMEAReader.parse")
    st = it.newstate()
    msg = SHAPES[name](st)
    if isinstance(msg, tuple):
        msg, st = msg
    it.lone = "text" in name
    try:
        outs = it.run(P, [msg], {"validate": C(validate), "msgmode": C(mode)}, st=st)
    finally:
        it.lone = False
    contained(r, f"shape {name} v{validate} m{mode}", outs, f"input shape '{name}'")


def nostar(ty):
    return lambda st: atom("m" + ty, ty, excl=frozenset("*") if ty == "str" else frozenset("*"))


def header(talker, nf, star=True):
    def f(st):
        ident = atom("id", "str", excl=DELIMS)
        st = unknown_id(st, ident)
        ps = [C("$")] + ([C(talker)] if isinstance(talker, str) else
                         [atom("t0", "str", minlen=1, maxlen=1, excl=frozenset(",*$\r\nP")),
                          atom("t1", "str", minlen=1, maxlen=1, excl=DELIMS)]) + [ident]
        for i in range(nf):
            ps += [C(","), fld(i)]
        ps += [C("*"), atom("ck", "str", excl=frozenset("\r\n$")), C("\r\n")]
        return S.encode(S.cat(ps, False)), st
    return f


SHAPES = {
    "text without checksum separator": nostar("str"),
    "bytes without checksum separator": nostar("bytes"),
    "None": lambda st: NONE,
    "number": lambda st: atom("i", "int"),
    "empty bytes": lambda st: C(b""),
    "empty text": lambda st: C(""),
    "delimiters only": lambda st: C(b"$*\r\n"),
    "only a separator": lambda st: C(b"*"),
    "lone $": lambda st: C(b"$\r\n"),
    "one-letter header": lambda st: S.encode(S.cat([C("$"), atom("t0", "str", minlen=1, maxlen=1, excl=DELIMS), C("*"), *cksum_atoms(), C("\r\n")], False)),
    "two-letter header": lambda st: S.encode(S.cat([C("$"), atom("t0", "str", minlen=1, maxlen=1, excl=frozenset(",*$\r\nP")), atom("t1", "str", minlen=1, maxlen=1, excl=DELIMS), C("*"), *cksum_atoms(), C("\r\n")], False)),
    "undecodable field": lambda st: S.cat([C(b"$GNGLL,"), atom("raw", "bytes", excl=frozenset(",*$\r\n")), C(b",N*00\r\n")], True),
    "undecodable header": lambda st: S.cat([C(b"$GN\xff\xfe,1*00\r\n")], True),
    "binary": lambda st: C(b"\xb5\x62\x01\x02*\xff"),
    "two separators": lambda st: S.encode(S.cat([C("$GNGLL,"), fld(0), C("*"), fld(1), C("*"), fld(2), C("\r\n")], False)),
    "no terminator": lambda st: S.encode(S.cat([C("$GNGLL,"), fld(0), C("*"), fld(1)], False)),
    "no start": lambda st: S.encode(S.cat([C("GNGLL,"), fld(0), C("*"), fld(1), C("\r\n")], False)),
    **{f"unknown id {t} {n} fields": header(t, n) for t in ("GN", "P", None) for n in (0, 1, 2, 5)},
}


def case_badargs(r, what):
    """invalid arguments are rejected with a library error"""
    it = engine()
    P = entry("NMEAReader.parse")
    M = entry("NMEAMessage")
    if what == "parse mode":
        m = atom("mode", "int")
        st = it.newstate()
        for k in (0, 1, 2):
            it.assume(st, T("eq", (m, C(k)), "bool"), False)
        outs = it.run(P, [C(b"$GNGLL,,,,,,*00\r\n")], {"msgmode": m}, st=st)
        for o in outs:
            if o.kind == "exc" and is_lib(it, o, ("NMEAParseError",)):
                r.ok("invalid mode")
            else:
                bad(r, "invalid mode", o.st, o.where, f"parse with a mode other than 0, 1, 2 gives {o.kind} {o.val!r}")
    elif what == "message mode":
        m = atom("mode", "int")
        st = it.newstate()
        for k in (0, 1, 2):
            it.assume(st, T("eq", (m, C(k)), "bool"), False)
        for o in it.run(M, [C("GN"), C("GLL"), m], {}, st=st):
            if o.kind == "exc" and is_lib(it, o, ("NMEAMessageError",)):
                r.ok("invalid mode")
            else:
                bad(r, "invalid mode", o.st, o.where, f"message with a mode other than 0, 1, 2 gives {o.kind} {o.val!r}")


def rule_contain(rep):
    cases = []
    for sj in subjects():
        for n, counts in fieldcounts(sj.defn, (0, 2)):
            for k in sorted({0, 1, n, n + 1}):
                for v in ((0,) if rep.tier == "quick" else (0, 1, 2, 3)):
                    cases.append((case_contain_def, (sj.mode, sj.key, k, v, "bytes")))
                    if k == n:
                        cases.append((case_contain_def, (sj.mode, sj.key, k, v, "str")))
    for name in SHAPES:
        for v in (0, 1, 2, 3):
            for m in (0, 1, 2):
                cases.append((case_contain_shape, (name, v, m)))
    cases += [(case_badargs, (w,)) for w in ("parse mode", "message mode")]
    rep.run(cases)


# ---- C11 short and long payloads ------------------------------------------------


def case_length(r, mode, key, n, counts, extra, comma):
    sj = subj(mode, key)
    sc = Scene(sj, n, counts)
    if extra:
        if comma:
            sc.fields.append(atom("rest", "str", excl=frozenset("*$\r\n")))
            extra = 1
        else:
            sc.fields += [fld(n + i) for i in range(extra)]
    ob = f"{mode} {key}/{n}+{extra}{'*' if comma else ''}"
    names = [a for a, _, _ in sc.layout]
    for st, m in messages(r, ob, sc, parse(sc)):
        got = list(public(attrs_of(engine(), st, m)))
        if got != names:
            bad(r, ob, st, loc(), f"{sj}: {n + extra} fields give attributes {got}, expected {names}")
            continue
        r.ok(ob)
        for i, name in enumerate(names):
            match(r, f"{ob} {name}", st, fetch(st, m, name), sc.expected(st, i), loc(), f"{sj}.{name}")


def variants(sj):
    """definitions the sentences of this subject may select depending on the number of fields"""
    t = tab(TABLES[sj.mode, sj.prop])
    b = sj.base
    return [k for k in t if k == b or k.startswith(b + "_")]


def rule_lengths(rep):
    cases = []
    for sj in subjects():
        if len(variants(sj)) > 1 and not sj.key.startswith(("STMDRSENMSG", "QTMSN")):
            continue
        if sj.key in ("QTMACK", "QTMNAK"):
            continue
        g = groupof(sj.defn)
        full = fieldcounts(sj.defn, (2,))[0]
        lo = 1 if sj.fixed or sj.conds else 0
        if g is not None and g[0] == "count":
            lo = max(lo, list(sj.defn).index(g[1]) + 1)
        step = range(lo, full[0])
        if rep.tier == "quick" and len(step) > 6:
            step = sorted({lo, lo + 1, full[0] // 2, full[0] - 2, full[0] - 1})
        for n in step:
            if sj.base.startswith("QTM") and sj.mode == "GET" and n <= 2 and not sj.conds and not sj.fixed:
                continue
            cases.append((case_length, (sj.mode, sj.key, n, full[1], 0, False)))
        if g is None or g[0] == "count":
            for e, c in ((1, False), (2, False), (1, True)):
                cases.append((case_length, (sj.mode, sj.key, full[0], full[1], e, c)))
    rep.run(cases)


# ---- C12 blank and malformed fields ------------------------------------------------


def case_blank(r, mode, key, n, counts, i):
    sj = subj(mode, key)
    sc = Scene(sj, n, counts, blank=(i,) if i >= 0 else range(n))
    ob = f"{mode} {key} blank {i}"
    for st, m in messages(r, ob, sc, parse(sc)):
        for j, (name, t, b) in enumerate(sc.layout):
            if sc.fields[j] is EMPTY:
                match(r, f"{ob} {name}", st, fetch(st, m, name), [([], "ret", EMPTY, None)], loc(), f"{sj}.{name} (blank field)")


def case_malformed(r, mode, key, n, counts, i):
    it = engine()
    sj = subj(mode, key)
    sc = Scene(sj, n, counts, free=(i,))
    name, t, b = sc.layout[i]
    ob = f"{mode} {key} malformed {name}"
    f = sc.text(sc.st, i)
    for lits, k, v, _ in conv_alts(sc.st, t, f):
        numeric = k == "exc"
        if not numeric and not (isblank(v) and t not in ("DE", "IN")):
            continue
        st = with_lits(sc.st, lits)
        if st is None:
            continue
        if numeric and f is not sc.fields[i]:
            pass
        sc2 = sc
        old, sc.st = sc.st, st
        outs = parse(sc2)
        sc.st = old
        if numeric:
            for o in outs:
                if o.kind == "exc" and is_lib(it, o, ("NMEATypeError",)):
                    r.ok(ob)
                elif o.kind == "exc":
                    bad(r, ob, o.st, o.where, f"{sj}.{name}: malformed number raises {sorted(excname(it, o))}")
                else:
                    bad(r, ob, o.st, loc(), f"{sj}.{name}: malformed number is accepted")
        else:
            for st2, m in messages(r, ob, sc, outs):
                match(r, ob, st2, fetch(st2, m, name), [([], "ret", EMPTY, None)], loc(), f"{sj}.{name} (malformed)")


def rule_blank(rep):
    cases = []
    for sj in subjects():
        n, counts = fieldcounts(sj.defn, (1,))[0]
        lay = expand(sj.defn, n, counts)
        if not counts and not sj.fixed and not sj.conds:
            cases.append((case_blank, (sj.mode, sj.key, n, counts, -1)))
        for i, (a, t, b) in enumerate(lay):
            if i in sj.fixed or a in counts or any(i in args for _, args in sj.conds):
                continue
            cases.append((case_blank, (sj.mode, sj.key, n, counts, i)))
            if t in ("DE", "IN", "LA", "LN", "DT", "DM", "DTL", "TM"):
                cases.append((case_malformed, (sj.mode, sj.key, n, counts, i)))
    rep.run(cases)


# ---- C13 hemisphere ------------------------------------------------------------------


def case_hemi(r, mode, key, name, hemi):
    it = engine()
    sj = subj(mode, key)
    n, counts = fieldcounts(sj.defn, (1,))[0]
    sc = Scene(sj, n, counts)
    want = "LAD" if name == "lat" else "LND"
    i = next(i for i, x in enumerate(sc.layout) if x[0] == name)
    js = [j for j, x in enumerate(sc.layout) if x[1] == want and j > i]
    if hemi is not None:
        for j in js:
            sc.fields[j] = C(hemi)
    ob = f"{mode} {key} {name} {hemi}"
    neg = hemi == ("S" if name == "lat" else "W")
    for st, m in messages(r, ob, sc, parse(sc)):
        match(r, ob, st, fetch(st, m, name), sc.expected(st, i), loc(), f"{sj}.{name} with hemisphere {hemi!r}")
        if hemi is not None:
            for gl, k, v, _ in fetch(st, m, name):
                s = with_lits(st, gl)
                if s is None:
                    continue
                lo, hi = num_interval(s, v)
                if neg and hi is not None and hi <= 0 or not neg and lo is not None and lo >= 0:
                    r.ok(ob + " sign")
                else:
                    w = witness.separate(s.flog, v, T("neg", (T("abs", (v,), "float"),), "float") if neg else T("abs", (v,), "float"))
                    if w:
                        r.viol(ob + " sign", loc(), f"{sj}.{name} = {v!r} has the wrong sign for {hemi!r}, e.g. {witness.show(w)}")
                    else:
                        r.und(ob + " sign", f"{v!r}")


def num_interval(st, v):
    from absint import num
    return num.interval(v, st)


def odd(neg, pos):
    """hemisphere fields that are not one of the letters"""
    return (neg.lower(), " " + neg, neg + " ", neg + pos, pos + neg, neg * 2, "-", "1", "-1", "0", "W" if neg == "S" else "S")


def rule_hemi(rep):
    cases = []
    for sj in subjects():
        n, counts = fieldcounts(sj.defn, (1,))[0]
        lay = expand(sj.defn, n, counts)
        for name, t, hs in (("lat", "LAD", ("N", "S", "", None) + odd("S", "N")), ("lon", "LND", ("E", "W", "", None) + odd("W", "E"))):
            i = next((i for i, x in enumerate(lay) if x[0] == name and x[1] in ("LA", "LN")), None)
            if i is None or not any(x[1] == t and j > i for j, x in enumerate(lay)):
                continue
            for h in hs:
                cases.append((case_hemi, (sj.mode, sj.key, name, h)))
    rep.run(cases)


# ---- C14 repeating groups ------------------------------------------------------------


def case_group(r, mode, key, k, declared, extra=0):
    sj = subj(mode, key)
    g = groupof(sj.defn)
    size = flatcount(g[2])
    n = flatcount(sj.defn) + k * size
    counts = {g[1]: declared} if g[0] == "count" else {}
    sc = Scene(sj, n, counts, extra=extra)
    ob = f"{mode} {key} {k} items declared {declared}{f' and {extra} fields of another' if extra else ''}"
    have = min(k, declared) if g[0] == "count" else k
    names = [a for a, _, _ in expand(sj.defn, flatcount(sj.defn) + have * size, counts)]
    for st, m in messages(r, ob, sc, parse(sc)):
        got = list(public(attrs_of(engine(), st, m)))
        if got != names:
            bad(r, ob, st, loc(), f"{sj}: attributes {got[-6:]} ({len(got)}), expected {names[-6:]} ({len(names)})")
            continue
        r.ok(ob)
        for i, name in enumerate(names):
            match(r, f"{ob} {name}", st, fetch(st, m, name), sc.expected(st, i), loc(), f"{sj}.{name}")


def rule_groups(rep):
    cases = []
    for sj in subjects():
        g = groupof(sj.defn)
        if g is None:
            continue
        ks = (0, 1, 2, 3, 5, 9, 10, 11) + ((100,) if flatcount(g[2]) <= 3 else ()) if rep.tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 33, 64, 99, 100, 101)
        for k in ks:
            if g[0] == "count":
                for d in {k, k + 1, max(0, k - 1), k + 90}:
                    cases.append((case_group, (sj.mode, sj.key, k, d)))
            else:
                if sj.base.startswith("QTM") and sj.mode == "GET" and flatcount(sj.defn) + k * flatcount(g[2]) <= 0:
                    continue
                cases.append((case_group, (sj.mode, sj.key, k, k)))
                size = flatcount(g[2])
                if k in (0, 1, 2, 11) and isinstance(list(sj.defn.values())[-1], tuple):
                    for e in range(1, size) if rep.tier != "quick" or size <= 6 else sorted({1, size // 2, size // 2 + 1, size - 1}):
                        cases.append((case_group, (sj.mode, sj.key, k, k, e)))
    from .objs import case_user_group
    for size in (1, 2, 3, 7, 10, 24, 60) if rep.tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 21, 24, 32, 60, 101, 250):
        for pre in (0, 1, 2, 5):
            for k in (0, 1, 2) if size > 12 else (0, 1, 2, 7):
                for rest in sorted({0, 1, size // 2, size - 1} & set(range(size))):
                    if pre or k * size + rest:
                        cases.append((case_user_group, (pre, size, k, rest)))
    rep.run(cases)


# ---- C16 unknown sentences ------------------------------------------------------------


def check_nominal(r, ob, st, m, fields, ident):
    names = [f"field_{i + 1:02d}" for i in range(len(fields))]
    got = list(public(attrs_of(engine(), st, m)))
    if got != names:
        bad(r, ob, st, loc(), f"unrecognised sentence: attributes {got}, expected {names}")
        return
    r.ok(ob)
    for f, name in zip(fields, names):
        match(r, f"{ob} {name}", st, fetch(st, m, name), [([], "ret", f, None)], loc(), name)
    value_check(r, ob + " identity", st, lambda cx: cx.it.getattr(cx, m, "identity"), ident, "identity")


class Ad:
    sj = "unrecognised"


def case_unknown(r, talker, nf, validate, mode):
    it = engine()
    ident = atom("id", "str", excl=DELIMS)
    st = unknown_id(it.newstate(), ident)
    if talker is None:
        tk = S.cat([atom("t0", "str", minlen=1, maxlen=1, excl=frozenset(",*$\r\nP")),
                    atom("t1", "str", minlen=1, maxlen=1, excl=DELIMS)], False)
    else:
        tk = C(talker)
    fields = [fld(i) for i in range(nf)]
    msg = sentence(S.cat([tk, ident], False), fields)
    ob = f"unknown {talker}/{nf} v{validate} m{mode}"
    outs = it.run(entry("NMEAReader.parse"), [msg], {"validate": C(validate), "msgmode": C(mode)}, st=st)
    if validate & 2:
        for o in outs:
            if o.kind == "exc" and is_lib(it, o, ("NMEAParseError",)):
                r.ok(ob)
            else:
                bad(r, ob, o.st, o.where, f"unknown message accepted although message IDs are validated ({o.kind} {o.val!r})")
        return
    for s, m in messages(r, ob, Ad, outs):
        check_nominal(r, ob, s, m, fields, S.cat([tk, ident], False))


def case_undefined_mode(r, ident, mode, validate):
    """a known identifier without a definition in the mode"""
    it = engine()
    fields = [fld(i) for i in range(3)]
    msg = sentence("GN" + ident, fields)
    outs = it.run(entry("NMEAReader.parse"), [msg], {"validate": C(validate), "msgmode": C(mode)})
    ob = f"{ident} in mode {mode} v{validate}"
    if validate & 2:
        for o in outs:
            if o.kind == "exc" and is_lib(it, o, ("NMEAParseError",)):
                r.ok(ob)
            else:
                bad(r, ob, o.st, o.where, f"{ident} has no definition in mode {mode} but is accepted")
        return
    for s, m in messages(r, ob, Ad, outs):
        check_nominal(r, ob, s, m, fields, C("GN" + ident))


def case_talker(r, validate):
    """an unknown talker is an error exactly when message IDs are validated"""
    it = engine()
    t0 = atom("t0", "str", minlen=1, maxlen=1, excl=frozenset(",*$\r\nP"))
    t1 = atom("t1", "str", minlen=1, maxlen=1, excl=DELIMS)
    tk = S.cat([t0, t1], False)
    keys = sorted(tab("NMEA_TALKERS"))
    fields = [fld(i) for i in range(7)]
    msg = sentence(S.cat([tk, C("GLL")], False), fields)
    for o in it.run(entry("NMEAReader.parse"), [msg], {"validate": C(validate)}):
        known = alts(lambda cx: cx.it.truthv(cx, _member(cx, tk, keys)), o.st)
        for lits, k, v, _ in known:
            s = with_lits(o.st, lits)
            if s is None or k != "ret":
                continue
            for val in ((True, False) if not isinstance(v, C) else (v.v,)):
                s2 = s if isinstance(v, C) else with_lits(s, [(v, val)])
                if s2 is None:
                    continue
                ob = f"talker known={val} v{validate} {o.kind}"
                wantexc = validate & 2 and not val
                if o.kind == "exc" and is_lib(it, o, ("NMEATypeError",)):
                    r.ok(ob)  # malformed field, reported by another property
                elif (o.kind == "exc") == bool(wantexc) and (o.kind != "exc" or is_lib(it, o, ("NMEAParseError",))):
                    r.ok(ob)
                else:
                    bad(r, ob, s2, o.where, f"talker {'known' if val else 'unknown'}, validate={validate}: {o.kind} {o.val!r}")


def _member(cx, x, keys):
    from absint import builtins_ as B
    d = cx.st.alloc("dict", None, {C(k): NONE for k in keys})
    return B.contains(cx, d, x)


def rule_unknown(rep):
    cases = []
    nfs = (0, 1, 2, 5, 12, 120) if rep.tier == "quick" else tuple(range(0, 25)) + (40, 99, 100, 120)
    for t in ("GN", "P", None):
        for nf in nfs:
            for v in (0, 2):
                for m in (0, 1, 2):
                    cases.append((case_unknown, (t, nf, v, m)))
    for k in tab("NMEA_PAYLOADS_GET"):
        for m in (1, 2):
            for v in (0, 2):
                if k not in tab("NMEA_PAYLOADS_POLL") or m == 1:
                    cases.append((case_undefined_mode, (k, m, v)))
    cases += [(case_talker, (v,)) for v in (0, 2)]
    rep.run(cases)


# ---- C17 parse then serialize -----------------------------------------------------------


def case_roundtrip(r, mode, key, n, counts, extra, byt):
    sj = subj(mode, key)
    sc = Scene(sj, n, counts, extra=extra)
    msg = sentence(sj.hdr, sc.fields, byt=byt)
    raw = sentence(sj.hdr, sc.fields)
    ob = f"{mode} {key}/{n}+{extra} {'bytes' if byt else 'text'}"
    for st, m in messages(r, ob, sc, parse(sc, msg=msg)):
        value_check(r, ob, st, lambda cx: method(cx, m, "serialize"), raw, f"{sj}: serialize() of the parsed sentence")
        value_check(r, ob + " ck", st, lambda cx: cx.it.getattr(cx, m, "checksum"), S.cat(cksum_atoms(), False), f"{sj}: checksum")
        value_check(r, ob + " id", st, lambda cx: cx.it.getattr(cx, m, "identity"), C(sj.ident), f"{sj}: identity")
        value_check(r, ob + " mode", st, lambda cx: cx.it.getattr(cx, m, "msgmode"), C(MODE[sj.mode]), f"{sj}: msgmode")
        s = 1 if sj.hdr[0] == "P" else 2
        value_check(r, ob + " talker", st, lambda cx: cx.it.getattr(cx, m, "talker"), C(sj.hdr[:s]), f"{sj}: talker")
        value_check(r, ob + " msgID", st, lambda cx: cx.it.getattr(cx, m, "msgID"), C(sj.hdr[s:]), f"{sj}: msgID")
        value_check(r, ob + " payload", st, lambda cx: Tup(cx.it.getattr(cx, m, "payload") and
                    list(_items(cx, cx.it.getattr(cx, m, "payload")))), Tup(sc.fields), f"{sj}: payload")


def _items(cx, v):
    from absint import builtins_ as B
    return B.iterate(cx, cx.force(v))


def case_roundtrip_unknown(r, talker, nf, ckform):
    it = engine()
    ident = atom("id", "str", excl=DELIMS)
    st = unknown_id(it.newstate(), ident)
    fields = [fld(i) for i in range(nf)]
    ck = atom("ck", "str", excl=frozenset("\r\n$")) if ckform == "any" else None
    msg = sentence(S.cat([C(talker), ident], False), fields, ck=ck)
    ob = f"unknown {talker}/{nf} {ckform}"
    for s, m in messages(r, ob, Ad, it.run(entry("NMEAReader.parse"), [msg], {"validate": C(0)}, st=st)):
        value_check(r, ob, s, lambda cx: method(cx, m, "serialize"), msg, "serialize() of the parsed sentence")


def rule_roundtrip(rep):
    cases = []
    for sj in subjects():
        for n, counts in fieldcounts(sj.defn, (0, 2) if rep.tier == "quick" else (0, 1, 2, 3, 9)):
            for b in (True, False):
                cases.append((case_roundtrip, (sj.mode, sj.key, n, counts, 0, b)))
            if rep.tier != "quick" and groupof(sj.defn) is None and len(variants(sj)) == 1:
                cases.append((case_roundtrip, (sj.mode, sj.key, n, counts, 2, True)))
    for t in ("GN", "P"):
        for nf in (0, 1, 3, 20):
            for f in ("two", "any"):
                cases.append((case_roundtrip_unknown, (t, nf, f)))
    rep.run(cases)
