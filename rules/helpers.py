"""Conversion helpers: dates, times, coordinates, geodesy, GNSS time, ISO 6709."""

from __future__ import annotations

from functools import partial

from .common import (C, T, Tup, Ref, Phi, NONE, TRUE, FALSE, EMPTY, S, num, engine, entry, compare, near, bad, is_lib, same,
                     excname, witness, atom, contains_term, path, resolve, DELIMS, table)
from .msgs import with_lits, alts, match, spec
from .parsing import lifted, lits_of

DIG = frozenset("0123456789")
HELP = "nmeahelpers."


def fn(name):
    return entry(HELP + name)


def digits(n, name="D", first=DIG):
    return [atom(f"{name}{i}", "str", minlen=1, maxlen=1, incl=first if i == 0 else DIG) for i in range(n)]


def flt(name, lo=None, hi=None):
    return atom(name, "float", lo=lo, hi=hi)


def call(name, *args, **kw):
    return lambda cx: cx.call(fn(name), list(args), kw)


def ref(name, *args):
    return lambda cx: cx.call(spec(name), list(args))


def agree(r, ob, st, act, exp, what, rel=None):
    """the code and the reference definition give the same outcome for every input"""
    it = engine()
    match(r, ob, st or it.newstate(), alts(act, st or it.newstate()), alts(exp, st or it.newstate()), what, what, rel)


# ---- C24 dates and times -------------------------------------------------------

BADDATES = [NONE, C(0), C(5), C(1.5), EMPTY, C("x"), C("2020-01-01")]


def case_dates(r, form):
    it = engine()
    f = C(form)
    date = "DM" if form == "DM" else "DTL" if form == "DTL" else "DT"
    s = atom("s", "str")
    agree(r, f"text to date {form}", None, call("date2utc", s, f), ref("date", s, C(date)), "date2utc")
    d = atom("d", "date")
    agree(r, f"date to text {form}", None, call("date2str", d, f), ref("date_text", d, C(date)), "date2str")
    if form == "DT":
        agree(r, "text to date default", None, call("date2utc", s), ref("date", s, C(date)), "date2utc")
        agree(r, "date to text default", None, call("date2str", d), ref("date_text", d, C(date)), "date2str")
    d = atom("dy", "date", lo=1000 if form == "DTL" else 1969, hi=9999 if form == "DTL" else 2068)
    agree(r, f"date round trip {form}", None,
          lambda cx: cx.call(spec("ymd"), [cx.force(cx.call(fn("date2utc"), [cx.call(fn("date2str"), [d, f]), f]))]),
          ref("ymd", d), "date2utc(date2str(d))")
    ds = digits(8)
    if form == "DTL":
        ds[4] = atom("D4nz", "str", minlen=1, maxlen=1, incl=DIG - {"0"})
    text = S.cat(ds[:8 if form == "DTL" else 6], False)

    def back(cx):
        v = cx.force(cx.call(fn("date2utc"), [text, f]))
        return v if v is EMPTY else cx.call(fn("date2str"), [v, f])

    def blank(cx):
        v = cx.force(cx.call(spec("date"), [text, C(date)]))
        return v if v is EMPTY else text
    agree(r, f"date text round trip {form}", None, back, blank, "date2str(date2utc(text))")


def case_times(r):
    s = atom("s", "str")
    t = atom("t", "time")
    agree(r, "text to time", None, call("time2utc", s), ref("time", s), "time2utc")
    agree(r, "time to text", None, call("time2str", t), ref("time_text", t), "time2str")
    u = atom("u", "datetime")
    agree(r, "datetime to text", None, call("time2str", u), ref("time_text", u), "time2str")
    agree(r, "time round trip", None,
          lambda cx: cx.call(spec("hms"), [cx.force(cx.call(fn("time2utc"), [cx.call(fn("time2str"), [t])]))]),
          ref("hms_centi", t), "time2utc(time2str(t))")
    ds = digits(8)
    for n in range(0, 7):
        full = ds[:6] + [C(".")] + [atom(f"F{i}", "str", minlen=1, maxlen=1, incl=DIG) for i in range(n)] if n else ds[:6]
        text = S.cat(full, False)
        want = S.cat((full + [C(".00")] if n == 0 else full + [C("0")])[:9], False)

        def back(cx, text=text):
            v = cx.force(cx.call(fn("time2utc"), [text]))
            return v if v is EMPTY else cx.call(fn("time2str"), [v])

        def blank(cx, text=text, want=want):
            v = cx.force(cx.call(spec("time"), [text]))
            return v if v is EMPTY else want
        agree(r, f"time text round trip {n} decimals", None, back, blank, "time2str(time2utc(text))")


def case_baddates(r):
    for b in BADDATES:
        for name, extra in (("date2str", [C("DT")]), ("date2str", [C("DTL")]), ("date2str", [C("DM")]), ("time2str", [])):
            agree(r, f"{name}({b!r})", None, call(name, b, *extra), lambda cx: EMPTY, name)
    for b in (NONE, C(0), C(5), C(1.5), EMPTY):
        for name, extra in (("date2utc", [C("DT")]), ("date2utc", [C("DTL")]), ("date2utc", [C("DM")]), ("time2utc", [])):
            agree(r, f"{name}({b!r})", None, call(name, b, *extra), lambda cx: EMPTY, name)


def case_givendates(r, form):
    """dates given as constants, among them both ends of the century and leap days"""
    for y in [1900 + i for i in range(69, 100)] + [2000 + i for i in range(69)]:
        for m, d in ((1, 1), (12, 31), (2, 28), (2, 29), (6, 30)):
            txt = {"DT": f"{d:02d}{m:02d}{y % 100:02d}", "DTL": f"{d:02d}{m:02d}{y:04d}", "DM": f"{m:02d}{d:02d}{y % 100:02d}"}[form]
            agree(r, f"{form} {txt}", None, call("date2utc", C(txt), C(form)), ref("date", C(txt), C(form)), "date2utc")


def rule_dates(rep):
    rep.run([(case_givendates, (f,)) for f in ("DT", "DTL", "DM")] + [(case_dates, (f,)) for f in ("DT", "DTL", "DM")] + [(case_times, ()), (case_baddates, ())])


# ---- C25 coordinates in sentences ------------------------------------------------


def coordatom(att, name="deg"):
    m = 90.0 if att == "LA" else 180.0
    return flt(name, -m, m)


def case_ddd2dmm(r, att, hp):
    it = engine()
    w, dp = 2 if att == "LA" else 3, 7 if hp else 5
    args = [TRUE] if hp else []
    for what, x in (("any number", flt("x")), ("coordinate", coordatom(att)), ("integer", atom("n", "int", lo=-180, hi=180))):
        agree(r, f"ddd2dmm {att} {dp} {what}", None, call("ddd2dmm", x, C(att), *args), ref("dmm", x, C(w), C(dp)), "ddd2dmm")
    for b in (NONE, EMPTY, C("x"), C("51.5")):
        agree(r, f"ddd2dmm({b!r})", None, call("ddd2dmm", b, C(att), *args), lambda cx: EMPTY, "ddd2dmm")
    if not hp:
        x = coordatom(att)
        agree(r, f"ddd2dmm {att} default", None, call("ddd2dmm", x, C(att), hpmode=FALSE), ref("dmm", x, C(w), C(dp)), "ddd2dmm")
    # shape of the text
    x = coordatom(att)
    for lits, k, v, where in alts(call("ddd2dmm", x, C(att), *args), it.newstate()):
        ob = f"ddd2dmm {att} {dp} shape"
        st = with_lits(it.newstate(), lits)
        if st is None:
            continue
        if k != "ret":
            bad(r, ob, st, where, "ddd2dmm raises")
            continue
        agree(r, ob + " length", st, lambda cx, v=v: cx.call(spec("length"), [v]), lambda cx: C(w + 3 + dp), "length of the text")
        agree(r, ob + " dot", st, lambda cx, v=v: cx.call(spec("charat"), [v, C(w + 2)]), lambda cx: C("."), "decimal point")
    # round trip: half a unit of the last digit of the minutes, and of the ten decimals of dmm2ddd
    def back(cx):
        return cx.call(fn("dmm2ddd"), [cx.force(cx.call(fn("ddd2dmm"), [x, C(att)] + args))])
    agree(r, f"ddd2dmm {att} {dp} round trip", None, back, ref("absval", x),
          "dmm2ddd(ddd2dmm(x))", partial(near, tol=0.5 * 10 ** -dp / 60 + 1e-10))


def case_dmm2ddd(r, w, dp):
    it = engine()
    s = atom("s", "str")
    agree(r, "dmm2ddd any text", None, call("dmm2ddd", s), ref("coord", s), "dmm2ddd")
    ds = digits(w + 2) + ([C(".")] + digits(dp, "F") if dp is not None else [])
    text = S.cat(ds, False)
    agree(r, f"dmm2ddd {w}+2.{dp} digits", None, call("dmm2ddd", text), ref("coord", text), "dmm2ddd")
    if dp:
        from absint import algebra
        for lits, k, v, where in alts(call("dmm2ddd", text), it.newstate()):
            ob = f"dmm2ddd {w}+2.{dp} value"
            st = with_lits(it.newstate(), lits)
            if k != "ret":
                bad(r, ob, st, where, "dmm2ddd raises")
                continue
            num_ = lambda t: T("int", (t, 10), "int")  # noqa: E731
            e = T("fadd", (T("tofloat", (num_(S.cat(ds[:w], False)),), "float"),
                           T("fdiv", (T("fadd", (T("tofloat", (num_(S.cat(ds[w:w + 2], False)),), "float"),
                                                 T("fdiv", (num_(S.cat(ds[w + 3:], False)), C(10 ** dp)), "float")), "float"),
                                      C(60)), "float")), "float")
            near(r, ob, st, v, e, where or "dmm2ddd", "dmm2ddd", 1e-10)
    for b in (EMPTY, C("."), C("123"), C("12.3"), C("123.4"), C("abcd.e")):
        agree(r, f"dmm2ddd({b!r})", None, call("dmm2ddd", b), lambda cx: EMPTY, "dmm2ddd")


def rule_coords(rep):
    rep.run([(case_ddd2dmm, (a, h)) for a in ("LA", "LN") for h in (False, True)] +
            [(case_dmm2ddd, (w, d)) for w in (2, 3) for d in (None, 0, 1, 2, 3, 4, 5, 6, 7, 8)])


# ---- C26 displayed coordinates ----------------------------------------------------


def case_shown(r, name, att):
    it = engine()
    refn = {"deg2dmm": "shown_minutes", "deg2dms": "shown_seconds"}[name]
    for what, x in (("any number", flt("x")), ("coordinate", coordatom(att)), ("integer", atom("n", "int", lo=-180, hi=180))):
        agree(r, f"{name} {att} {what}", None, call(name, x, C(att)), ref(refn, x, C(att)), name)
    for b in (NONE, EMPTY, C("x"), C("51.5")):
        agree(r, f"{name}({b!r})", None, call(name, b, C(att)), lambda cx: EMPTY, name)
    x = coordatom(att)
    tol = (0.5e-7 / 60 if name == "deg2dmm" else 0.5e-5 / 3600) + 0.5e-7

    def back(cx):
        return cx.call(fn("dms2deg"), [cx.force(cx.call(fn(name), [x, C(att)]))])
    # (the sign is decided on every path: by the hemisphere the text ends with)
    for lits, k, v, where in alts(back, it.newstate()):
        ob = f"{name} {att} round trip"
        for neg in (True, False):
            st = with_lits(it.newstate(), lits + [(num.ltc(x, C(0)), neg)])
            if st is None:
                continue
            if k != "ret":
                bad(r, ob, st, where, f"dms2deg({name}(x)) raises")
                continue
            near(r, ob, st, v, x, where or name, f"dms2deg({name}(x))", tol)


def case_latlon(r, name, one):
    lat, lon = coordatom("LA", "lat"), coordatom("LN", "lon")
    refn = {"deg2dmm": "shown_minutes", "deg2dms": "shown_seconds"}[one]
    agree(r, name, None, call(name, lat, lon),
          lambda cx: Tup((cx.force(cx.call(spec(refn), [lat, C("LA")])), cx.force(cx.call(spec(refn), [lon, C("LN")])))), name)


def case_dms2deg(r, delims, hemi, widths, decimals, rnd, gap=("", "", "")):
    """one, two or three digit groups, the last with decimals"""
    it = engine()
    ps, vals = [], []
    for i, w in enumerate(widths):
        ds = digits(w, f"G{i}")
        tens = 10 ** decimals if i == len(widths) - 1 else 1
        ps += ds
        if i == len(widths) - 1 and decimals:
            fs = digits(decimals, "F")
            ps += [C(".")] + fs
            ds = ds + fs
        n = T("int", (S.cat(ds, False), 10), "int")
        vals.append(T("fdiv", (n, C(tens)), "float") if tens > 1 else n)
        ps.append(C(gap[0] + delims[i] + gap[1]))
    text = S.cat([C(gap[2])] + ps + [C(hemi + gap[2])], False)
    vals += [C(0)] * (3 - len(vals))
    sign = C(-1 if hemi.strip() in ("S", "W") else 1)
    ob = f"dms2deg {delims} {hemi} {widths} {decimals} {gap if any(gap) else ''}"
    args = [C(rnd)] if rnd is not None else []
    agree(r, ob, None, call("dms2deg", text, *args), ref("sexagesimal", sign, *vals), "dms2deg",
          partial(near, tol=0.5 * 10.0 ** -(7 if rnd is None else rnd)))


BADDMS = ["", "abc", "51", "51.5", "N", "-51°20′45″N", "51°20′45″NN", "51°20′45″X", "51°20′45″12°", "N51°20′45.6″",
          "1°2′3″4″", "°20′45″N"]


def case_baddms(r):
    it = engine()
    for b in BADDMS + [S.cat([atom("h", "str", minlen=1, maxlen=1, incl=frozenset("abcXYZ-+")), C("51°20′N")], False)]:
        v = C(b) if isinstance(b, str) else b
        for o in it.run(fn("dms2deg"), [v]):
            ob = f"dms2deg({v!r})"
            if o.kind == "exc" and excname(it, o) == {"ValueError"}:
                r.ok(ob)
            else:
                bad(r, ob, o.st, o.where, f"a malformed text gives {o.val!r} instead of ValueError")


def rule_shown(rep):
    cases = [(case_shown, (n, a)) for n in ("deg2dmm", "deg2dms") for a in ("LA", "LN")]
    cases += [(case_latlon, ("latlon2dmm", "deg2dmm")), (case_latlon, ("latlon2dms", "deg2dms")), (case_baddms, ())]
    ws = [(2,), (1,), (3,), (2, 2), (1, 1), (3, 2), (2, 2, 2), (1, 1, 1), (3, 2, 1)]
    ds = ("°′″", ":::", "d'\"", "° ′ ″ ".replace(" ", "")) if rep.tier != "quick" else ("°′″", ":::", "d'\"")
    for d in ds:
        for h in ("N", "S", "E", "W", "", " W"):
            for w in ws:
                for dec in ((0, 1, 5) if rep.tier == "quick" else (0, 1, 2, 3, 5, 7)):
                    cases.append((case_dms2deg, (d, h, w, dec, None)))
    cases += [(case_dms2deg, ("°′″", "S", (2, 2, 2), 2, n)) for n in (0, 3, 5, 9)]
    cases += [(case_dms2deg, ("°′″", "S", (2, 2, 2), 2, None, g)) for g in ((" ", "", ""), ("", " ", ""), (" ", " ", " "), ("", "", "  "), ("  ", "  ", ""))]
    rep.run(cases)


# ---- C27, C43 geodesy ------------------------------------------------------------------

GEO = {"haversine": ("great_circle", 6378.137), "planar": ("flat_distance", 6378137.0), "bearing": ("initial_bearing", None),
       "area": ("quad_area", 6378.137)}


def points():
    return [coordatom("LA", "lat1"), coordatom("LN", "lon1"), coordatom("LA", "lat2"), coordatom("LN", "lon2")]


def within(r, ob, st, v, lo, hi, where, what, strict=False):
    """obligation: the inferred interval of a number lies in [lo, hi] (hi excluded when strict)"""
    l, h = num.interval(v, st)
    if l is not None and l >= lo and (hi is None or h is not None and (h < hi if strict else h <= hi)):
        r.ok(ob)
        return

    def want(val, memo):
        try:
            xs = witness.values(v, val, memo)
        except witness.Err:
            return False
        return bool(xs) and all(x < lo or hi is not None and (x >= hi if strict else x > hi) for x in xs)
    try:
        w = witness.solve(st.flog, 600, 1, (v,), want)
    except witness.Undef:
        w = None
    if w is not None:
        r.viol(ob, where, f"{what} can leave [{lo}, {hi}]: {v!r}"[:500] + f"{path(st)}, e.g. for {witness.show(w)}")
    else:
        r.und(ob, f"{what}: inferred interval [{l}, {h}] of {v!r}"[:500], where)


def case_geo(r, name):
    it = engine()
    R = GEO[name][1]
    lo, hi = {"haversine": (0, None), "planar": (0, None), "bearing": (0, 360), "area": (0, None)}[name]
    p = points()
    same_point = p[:2] + p[:2]
    inttypes = [atom(f"i{i}", "int", lo=-(90, 180)[i % 2], hi=(90, 180)[i % 2]) for i in range(4)]
    half = p[:3] + [p[1]]
    for what, args in (("any points", p), ("coincident points", same_point), ("whole degrees", inttypes), ("same meridian", half),
                       ("poles", [C(90.0), p[1], C(-90.0), p[3]]), ("antimeridian", [p[0], C(180.0), p[2], C(-180.0)]),
                       ("origin", [C(0.0), C(0.0), C(0.0), C(0.0)]), ("antipodes", [p[0], C(0.0), T("neg", (p[0],), "float"), C(180.0)])):
        ob = f"{name} {what}"
        for o in it.run(fn(name), args):
            if o.kind == "exc":
                bad(r, ob, o.st, o.where, f"{name} raises {sorted(excname(it, o))}")
                continue
            for lits, v in ([(sorted(g, key=lambda tp: tp[0].n), a) for g, a in o.val.alts] if isinstance(o.val, Phi) else [([], o.val)]):
                st = with_lits(o.st, lits)
                if st is None:
                    continue
                v = resolve(st, v)
                within(r, ob + " range", st, v, lo, hi, o.where or name, name, strict=True)
                if name == "haversine":
                    within(r, ob + " half circumference", st, v, 0, 3.1415926535898 * R, o.where or name, name)
                if what == "coincident points" and name != "bearing":
                    near(r, ob + " is zero", st, v, C(0.0), o.where or name, name, 1e-9)
    if name in ("haversine", "area"):
        agree(r, f"{name} is symmetric", None, call(name, *p), call(name, p[2], p[3], p[0], p[1]), name, near)


def formula(r, ob, act, exp, what, rel=near):
    """as agree, on the domain of the formula: a domain error of a square root or
    inverse function in the code must have a witness to count"""
    it = engine()
    a, e = alts(act, it.newstate()), alts(exp, it.newstate())
    e = [x for x in e if x[1] == "ret"]
    match(r, ob, it.newstate(), [x for x in a if x[1] == "ret"], e, what, what, rel)
    for lits, k, v, where in a:
        if k == "ret":
            continue
        st = with_lits(it.newstate(), lits)
        if st is None:
            continue
        try:
            w = witness.solve(st.flog, 300)
        except witness.Undef:
            w = None
        if w is not None:
            r.viol(ob, where, f"{what} raises {v!r}{path(st)}, e.g. for {witness.show(w)}")


def case_formula(r, name):
    p = points()
    refn, R = GEO[name]
    per = {"period": 360} if name == "bearing" else {"tol": 1e-4} if name == "haversine" else {}
    formula(r, f"{name} formula", call(name, *p), ref(refn, *p, *([C(R)] if R else [])), name, partial(near, **per))
    if R:
        rad = flt("radius", 1.0, 1e8)
        formula(r, f"{name} formula with radius", call(name, *p, rad), ref(refn, *p, rad), name)


def case_ecef(r, way, custom):
    A, F = (C(6378137.0), C(298.257223563)) if not custom else (C(6378136.0), C(298.257839303))
    extra = [A, F] if custom else []
    if way == "llh2ecef":
        args = [coordatom("LA", "lat"), coordatom("LN", "lon"), flt("height", -1e5, 1e8)]
        formula(r, "llh2ecef formula", call(way, *args, *extra), ref("to_ecef", *args, A, F), way, near)
    else:
        args = [flt("x", -1e8, 1e8), flt("y", -1e8, 1e8), flt("z", -1e8, 1e8)]
        formula(r, "ecef2llh formula", call(way, *args, *extra), ref("from_ecef", *args, A, F), way, near)


KNOTS = {"MS": 1852 / 3600, "FS": 1852 / 3600 / 0.3048, "MPH": 1852 / 1609.344, "KMPH": 1.852}


def case_knots(r):
    it = engine()
    for u, f in KNOTS.items():
        for spelled in (u, u.lower(), u.capitalize()):
            for what, k in (("float", flt("k", -1e6, 1e6)), ("int", atom("ki", "int", lo=-10 ** 6, hi=10 ** 6))):
                agree(r, f"knots2spd {spelled} {what}", None, call("knots2spd", k, C(spelled)), ref("speed", k, C(f)),
                      "knots2spd", roughly)
    agree(r, "knots2spd default", None, call("knots2spd", flt("k", -1e6, 1e6)), ref("speed", flt("k", -1e6, 1e6), C(KNOTS["MS"])),
          "knots2spd", roughly)
    for k, u, e in ((flt("k"), "XX", "KeyError"), (flt("k"), "", "KeyError"), (C("x"), "MS", "TypeError"), (NONE, "FS", "TypeError"),
                    (NONE, "MPH", "TypeError")):
        for o in it.run(fn("knots2spd"), [k, C(u)]):
            ob = f"knots2spd({k!r}, {u})"
            if o.kind == "exc" and excname(it, o) == {e}:
                r.ok(ob)
            else:
                bad(r, ob, o.st, o.where, f"gives {o.val!r}, not {e}")


def roughly(r, ob, st, act, exp, where, what):
    """linear in the speed, with a factor within one millionth of the exact one"""
    from absint import algebra
    try:
        p, q = algebra.norm(act), algebra.norm(exp)
    except algebra.NA:
        p = q = None
    if p and q and set(p) == set(q) and all(abs(p[m] - q[m]) <= abs(q[m]) / 500000 for m in p):
        r.ok(ob)
        return
    w = witness.separate(st.flog, act, exp, differ=lambda x, y: not isinstance(x, (int, float)) or abs(x - y) > 1e-5 * max(abs(y), 1e-300))
    if w is not None:
        r.viol(ob, where, f"{what}: expected about {exp!r}, the code computes {act!r}, e.g. for {witness.show(w)}")
    else:
        r.und(ob, f"{what}: {act!r} against {exp!r}", where)


def rule_geo(rep):
    rep.run([(case_geo, (n,)) for n in GEO])


def rule_formulas(rep):
    rep.run([(case_formula, (n,)) for n in GEO] + [(case_ecef, (w, c)) for w in ("llh2ecef", "ecef2llh") for c in (False, True)] +
            [(case_knots, ())], secs=300)


# ---- C30 get_parts --------------------------------------------------------------------


def sentence_text(hdr, fields, ck, end="\r\n", lead="$"):
    ps = [C(lead)] + hdr + [x for f in fields for x in (C(","), f)] + [C("*"), ck, C(end)]
    return S.cat(ps, False)


HEADERS = {
    "two-letter talker": (lambda: [atom("tk0", "str", minlen=1, maxlen=1, excl=DELIMS | {"P"}), atom("tk1", "str", minlen=1, maxlen=1, excl=DELIMS),
                                   atom("ident", "str", excl=DELIMS)], 2),
    "proprietary": (lambda: [C("P"), atom("ident", "str", excl=DELIMS)], 1),
    "one letter": (lambda: [atom("tk0", "str", minlen=1, maxlen=1, excl=DELIMS | {"P"})], 2),
    "empty": (lambda: [], 2),
}


def case_parts(r, hname, nf, byt, ckind, end):
    it = engine()
    hdr, s = HEADERS[hname][0](), HEADERS[hname][1]
    fields = [atom(f"f{i}", "str", excl=DELIMS) for i in range(nf)]
    ck = {"two": S.cat([atom("ck0", "str", minlen=1, maxlen=1, excl=DELIMS), atom("ck1", "str", minlen=1, maxlen=1, excl=DELIMS)], False),
          "any": atom("ck", "str", excl=frozenset("$\r\n")), "none": EMPTY}[ckind]
    text = sentence_text(hdr, fields, ck, end)
    head = S.cat(hdr, False)
    content = S.cat(hdr + [x for f in fields for x in (C(","), f)], False)
    ob = f"get_parts {hname} {nf} fields {'bytes' if byt else 'text'} {ckind} {end!r}"
    msg = S.encode(text) if byt else text
    talker, ident = S.cat(hdr[:1] if s == 1 else hdr[:2], False), S.cat(hdr[1:] if s == 1 else hdr[2:], False)
    for o in it.run(fn("get_parts"), [msg]):
        st = o.st
        if o.kind == "exc":
            if byt and is_lib(it, o, ("NMEAMessageError",)):
                # only undecodable bytes
                bad(r, ob, st, o.where, "a well-formed sentence is rejected")
            else:
                bad(r, ob, st, o.where, f"get_parts raises {sorted(excname(it, o))}")
            continue
        v = o.val
        if not isinstance(v, Tup) or len(v.items) != 5:
            bad(r, ob, st, o.where, f"get_parts gives {v!r}")
            continue
        for i, (what, e) in enumerate((("content", content), ("talker", talker), ("identity", ident), ("payload", None), ("checksum", ck))):
            if e is not None:
                for lits, a in lits_of(v.items[i]):
                    s2 = with_lits(st, lits)
                    if s2 is not None:
                        compare(r, f"{ob} {what}", s2, a, e, o.where or "get_parts", what)
        for o2 in it.do(lambda cx: Tup(_list(cx, v.items[3])), st.fork()):
            if o2.kind == "exc" or len(o2.val.items) != nf:
                bad(r, ob + " payload", o2.st, o.where, f"the payload is {o2.val!r}")
                continue
            compare(r, ob + " payload", o2.st, o2.val, Tup(fields), o.where or "get_parts", "payload")
            r.ok(ob + " payload length")


def _list(cx, v):
    from absint.builtins_ import iterate
    return iterate(cx, cx.force(v))


def case_badparts(r, what):
    it = engine()
    v = {"no star": lambda: atom("x", "str", excl=frozenset("*")), "undecodable": lambda: atom("x", "bytes"),
         "any text": lambda: atom("x", "str"), "None": lambda: NONE, "int": lambda: C(5), "empty": lambda: EMPTY,
         "empty bytes": lambda: C(b""), "float": lambda: C(1.5), "list": lambda: Tup((C("$GNGLL,*00"),)), "star": lambda: C("*"),
         "only end": lambda: C("$\r\n"), "bad bytes": lambda: C(b"$GN\xff\xfeLL,1*00\r\n")}[what]()
    for o in it.run(fn("get_parts"), [v]):
        ob = f"get_parts {what}"
        if o.kind == "ret":
            if what in ("no star", "None", "int", "empty", "empty bytes", "float", "list", "only end", "bad bytes"):
                bad(r, ob, o.st, o.where, f"a text that is no sentence gives {o.val!r}")
            else:
                r.ok(ob)
        elif is_lib(it, o, ("NMEAMessageError",)):
            r.ok(ob)
        else:
            bad(r, ob, o.st, o.where, f"raises {sorted(excname(it, o))}, not a message error")


BADPARTS = ("no star", "undecodable", "any text", "None", "int", "empty", "empty bytes", "float", "list", "star", "only end", "bad bytes")


def rule_parts(rep):
    cases = [(case_badparts, (w,)) for w in BADPARTS]
    for h in HEADERS:
        for nf in (0, 1, 2, 5) if rep.tier == "quick" else (0, 1, 2, 3, 5, 9, 20, 40):
            for b in (True, False):
                for ck in ("two", "any", "none"):
                    for end in ("\r\n", "", "\n"):
                        cases.append((case_parts, (h, nf, b, ck, end)))
    rep.run(cases)


# ---- C31 ISO 6709 ----------------------------------------------------------------------


def case_iso(r, kinds, crs):
    it = engine()
    mk = {"float": lambda n: flt(n), "int": lambda n: atom(n + "i", "int"), "zero": lambda n: C(0.0), "neg": lambda n: flt(n + "n", -1e6, -1e-9),
          "pos": lambda n: flt(n + "p", 0, 1e6), "round": lambda n: C(-123.0)}
    args = [mk[k](n) for k, n in zip(kinds, ("lat", "lon", "alt"))]
    c = {"default": C("WGS_84"), "text": atom("crs", "str"), "given": C("NAD83")}[crs]
    agree(r, f"llh2iso6709 {kinds} {crs}", None, call("llh2iso6709", *args, *([] if crs == "default" else [c])),
          ref("iso6709", *args, c), "llh2iso6709")


def rule_iso(rep):
    ks = ("float", "int", "zero", "neg", "pos", "round")
    rep.run([(case_iso, ((a, b, c), crs)) for a in ks for b in ks for c in ks for crs in ("default", "text", "given")])


# ---- C44 small helpers -------------------------------------------------------------------


def case_hex(r, pad):
    n = atom("n", "int", lo=0, hi=2 ** 32 - 1)
    if pad is None:
        agree(r, "hex2str unpadded", None, call("hex2str", n), ref("hexpad", n, C(0)), "hex2str")
    for v in (0, 1, 9, 10, 15, 16, 255, 4095, 65535, 2 ** 31):
        agree(r, f"hex2str({v}, {pad})", None, call("hex2str", C(v), *([] if pad is None else [C(pad)])),
              ref("hexpad", C(v), C(pad or 0)), "hex2str")


def case_desc(r, tab):
    names = table(tab)
    first = table("NMEA_MSGIDS")
    for k, v in names.items():
        if tab == "NMEA_MSGIDS_PROP" and k in first:
            v = first[k]
        agree(r, f"msgdesc({k})", None, call("msgdesc", C(k)), lambda cx, v=v: C(v), "msgdesc")


def case_desc_unknown(r):
    it = engine()
    known = list(table("NMEA_MSGIDS")) + list(table("NMEA_MSGIDS_PROP"))
    x = atom("msgid", "str")
    for o in it.run(fn("msgdesc"), [x]):
        if o.kind == "exc":
            bad(r, "msgdesc any text", o.st, o.where, "raises")
            continue
        for lits, v in lits_of(o.val):
            st = with_lits(o.st, lits)
            if st is None:
                continue
            if isinstance(v, C) or contains_term(v, ("dictget", "lookup")):
                r.ok("msgdesc known")
            elif S.isS(v):
                compare(r, "msgdesc unknown", st, v, S.cat([C("Unknown msgID "), x], False), o.where or "msgdesc", "msgdesc")
            else:
                r.ok("msgdesc known")


def case_checksum_new(r, nf):
    it = engine()
    talker, ident = atom("talker", "str", excl=DELIMS), atom("ident", "str", excl=DELIMS)
    chars = [S.cat([atom(f"c{i}_{j}", "str", minlen=1, maxlen=1, excl=DELIMS) for j in range(2)], False) for i in range(nf)]
    tk, idn = [S.cat([atom(f"{n}{j}", "str", minlen=1, maxlen=1, excl=DELIMS) for j in range(k)], False) for n, k in (("t", 2), ("m", 3))]
    content = S.cat([tk, idn] + [x for f in chars for x in (C(","), f)], False)
    (lst, st), = [lifted(engine().newstate(), list(chars))]
    for o in it.run(fn("generate_checksum"), [tk, idn, lst], {}, st=st):
        ob = f"generate_checksum {nf} fields"
        for l2, k2, e, _ in alts(lambda cx: cx.call(spec("checksum"), [content]), o.st):
            s = with_lits(o.st, l2)
            if s is None:
                continue
            if k2 != "ret":
                r.ok(ob + " unencodable")
            elif o.kind == "exc":
                bad(r, ob, s, o.where, f"raises {sorted(excname(it, o))}")
            else:
                for l3, v in lits_of(o.val):
                    s2 = with_lits(s, l3)
                    if s2 is not None:
                        compare(r, ob, s2, v, e, o.where or "generate_checksum", "generate_checksum")


GROUPS = [({}, 0), ({"a": 1}, 0), ({"svid_01": 1}, 1), ({"svid_01": 1, "svid_02": 2, "svid_03": 3}, 3), ({"svid_03": 1, "svid_01": 2}, 3),
          ({"a_b_02": 1, "a": 1}, 2), ({"sv_id_12": 1, "prn_07": 1}, 12), ({"x_y": 1}, 0), ({"x_": 1, "_": 2}, 0), ({"numsat": 5, "el_10": 0, "az_09": 0}, 10),
          ({"a_123": 1}, 123), ({"a1": 1, "b_1c": 1}, 0)]


def case_groupsize(r):
    it = engine()
    for kw, n in GROUPS:
        for o in it.run(fn("groupsize"), [], {k: atom("v_" + k, "any") if False else C(v) for k, v in kw.items()}):
            ob = f"groupsize({kw})"
            if o.kind == "exc":
                bad(r, ob, o.st, o.where, f"raises {sorted(excname(it, o))}")
            else:
                compare(r, ob, o.st, o.val, C(n), o.where or "groupsize", "groupsize")


def rule_small(rep):
    cases = [(case_hex, (p,)) for p in (None, 0, 1, 2, 3, 4, 8, 16)]
    cases += [(case_desc, ("NMEA_MSGIDS",)), (case_desc, ("NMEA_MSGIDS_PROP",)), (case_desc_unknown, ()), (case_groupsize, ())]
    cases += [(case_checksum_new, (n,)) for n in (0, 1, 2, 5, 12)]
    rep.run(cases)
