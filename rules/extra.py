"""Rules about settings, malformed input, creation with unsuitable values, payload lists, decode tables and concurrent use."""

from __future__ import annotations

from .common import *  # noqa: F401,F403
from .common import (C, T, Tup, Ref, Phi, Bi, NONE, TRUE, FALSE, S, AbsRaise, engine, entry, fld, sentence, compare, bad,
                     is_lib, excname, attrs_of, public, atom, DELIMS, classname)
from .msgs import (Scene, subjects, subj, parse, fieldcounts, match, fetch, with_lits, objects, tab, MODE, loc)
from .parsing import SHAPES, run, lifted, method, lits_of, value_check, _items, contained, unknown_id
from .reader import StreamModel, Handler, snapshot
from .objs import snap, USER
from .create import Made, creatable


def outcome(cx, fn, view):
    """('ok', view(value)) or ('exc', class name) of a client computation"""
    try:
        v = cx.force(fn())
        return Tup([C("ok"), view(v)])
    except AbsRaise as e:
        names = sorted({classname(cx.it.exc_class(cx.st, v)) for _, v in lits_of(e.exc)})
        return Tup([C("exc"), C("/".join(names))])


def equal_outcomes(r, ob, st, fn, where, what):
    """fn(cx) -> list of values that must all equal the first"""
    it = engine()
    for o in run(st, lambda cx: Tup(fn(cx))):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{what}: raises {sorted(excname(it, o))}")
            continue
        for lits, v in lits_of(o.val):
            s = with_lits(o.st, lits)
            if s is None:
                continue
            for i, x in enumerate(v.items[1:]):
                compare(r, f"{ob} {i}", s, x, v.items[0], where, what)


# ---- C41 malformed input ---------------------------------------------------------

MALFORMED = {
    "text without checksum separator": lambda: atom("mstr", "str", excl=frozenset("*")),
    "bytes without checksum separator": lambda: atom("mbytes", "bytes", excl=frozenset("*")),
    "empty bytes": lambda: C(b""),
    "empty text": lambda: C(""),
    "lone $": lambda: C(b"$\r\n"),
    "no terminator, no separator": lambda: C(b"$GNGLL,5327.04319,S"),
    "separator cut off": lambda: S.encode(S.cat([C("$GNGLL,"), fld(0), C(","), fld(1), C("\r\n")], False)),
    "undecodable field": lambda: C(b"$GNGLL,5327.\xff4319,S,00214.41396,E,223232.00,A,A*68\r\n"),
    "undecodable header": lambda: C(b"$GN\xffLL,1,2*68\r\n"),
    "undecodable unknown": lambda: C(b"$GNXYZ,\xb5\x62,2*68\r\n"),
    "undecodable checksum": lambda: C(b"$GNGLL,,,,,,V,N*\xc3\x28\r\n"),
    "cut multibyte character": lambda: S.cat([C(b"$GNTXT,01,01,02,"), S.encode(fld(3)), C(b"\xe2\x82*00\r\n")], True),
}


def case_malformed(r, name, validate, mode):
    it = engine()
    msg = MALFORMED[name]()
    ob = f"{name} v{validate} m{mode}"
    for o in it.run(entry("NMEAReader.parse"), [msg], {"validate": C(validate), "msgmode": C(mode)}):
        if o.kind == "exc":
            if validate & 2 and is_lib(it, o, ("NMEAParseError",)):
                r.ok(ob)
            else:
                bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}, expected "
                    + ("a parse error" if validate & 2 else "None"))
            continue
        for lits, v in lits_of(o.val):
            s = with_lits(o.st, lits)
            if s is None:
                continue
            if v is NONE and not validate & 2:
                r.ok(ob)
            else:
                bad(r, ob, s, "NMEAReader.parse", f"{ob}: gives {v!r}, expected " + ("a parse error" if validate & 2 else "None"))


BADLINES = {
    "no separator": b"$GNGLL,1,2\r\n",
    "header only": b"$GNGLL\r\n",
    "undecodable": b"$GNTXT,01,\xff*00\r\n",
}


def case_malformed_stream(r, name, validate, policy):
    """a malformed sentence between two good ones"""
    it = engine()
    good = [b"$GNGLL,,,,,,V,N*7A\r\n", b"$EIGNQ,RMC*24\r\n"]
    rawbad = BADLINES[name]
    st = it.newstate()
    stream = st.alloc("ext", None, [C(good[0] + rawbad + good[1])], StreamModel())
    ob = f"stream {name} v{validate} q{policy}"
    rejects = bool(validate & 2)
    # POLL sentence in GET mode is unknown when identifiers are validated: use the same good sentence twice
    stream = st.alloc("ext", None, [C(good[0] + rawbad + good[0])], StreamModel())

    def client(cx):
        rd = cx.call(entry("NMEAReader"), [stream], {"validate": C(validate), "quitonerror": C(policy)})
        out = []
        for _ in range(4):
            def item(v):
                raw, m = _items(cx, v)
                return Tup([raw, snapshot(cx, cx.force(m))])
            out.append(outcome(cx, lambda: method(cx, rd, "read"), item))
        P = entry("NMEAReader.parse")
        return Tup(out), snapshot(cx, cx.force(cx.call(P, [C(good[0])], {"validate": C(validate)})))

    def both(cx):
        out, ref = client(cx)
        g = Tup([C("ok"), Tup([C(good[0]), ref])])
        end = Tup([C("ok"), Tup([NONE, NONE])])
        if not rejects:
            mid = [Tup([C("ok"), Tup([C(rawbad), NONE])])]
        elif policy == 2:
            mid = [Tup([C("exc"), C("NMEAParseError")])]
        else:
            mid = []
        return Tup([out, Tup(([g] + mid + [g, end, end])[:4])])
    for o in run(st, both):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
        else:
            compare(r, ob, o.st, o.val.items[0], o.val.items[1], "NMEAReader.read", f"{ob}: the results of reading")


def rule_malformed(rep):
    cases = []
    for name in MALFORMED:
        for v in (0, 1, 2, 3):
            for m in (0, 1, 2):
                cases.append((case_malformed, (name, v, m)))
    for name in BADLINES:
        for v in (0, 1, 2, 3):
            for q in (0, 1, 2):
                cases.append((case_malformed_stream, (name, v, q)))
    rep.run(cases)


# ---- C45 defaults and constants --------------------------------------------------

SENT = {
    "poll": b"$PUBX,05*36\r\n", "query": b"$GPQ,GLL*2D\r\n", "qtm": b"$PQTMCFGUART,R*36\r\n", "gll": b"$GNGLL,,,,,,V,N*7A\r\n",
    "badck": b"$GNGLL,,,,,,V,N*00\r\n", "unknown": b"$GNXYZ,1,2*51\r\n", "malformed": b"$GNGLL,1,2\r\n",
    "set": b"$PQTMCFGUART,W,115200*18\r\n", "value": b"$GNGLL,x,,,,,V,N*02\r\n",
}

CONSTANTS = {
    "GET": 0, "SET": 1, "POLL": 2, "VALNONE": 0, "VALCKSUM": 1, "VALMSGID": 2, "ERR_IGNORE": 0, "ERR_LOG": 1, "ERR_RAISE": 2,
    "ENCODE_NONE": 0, "ENCODE_CHUNKED": 1, "ENCODE_GZIP": 2, "ENCODE_COMPRESS": 4, "ENCODE_DEFLATE": 8,
}

EXPORTS = ("NMEAReader", "NMEAMessage", "SocketWrapper", "NMEAMessageError", "NMEAParseError", "NMEAStreamError", "NMEATypeError",
           "NMEA_TALKERS", "NMEA_MSGIDS", "NMEA_MSGIDS_PROP", "NMEA_PAYLOADS_GET", "NMEA_PAYLOADS_GET_PROP", "NMEA_PAYLOADS_SET",
           "NMEA_PAYLOADS_SET_PROP", "NMEA_PAYLOADS_POLL", "NMEA_PAYLOADS_POLL_PROP",
           "latlon2dms", "latlon2dmm", "llh2iso6709", "ecef2llh", "llh2ecef", "haversine", "planar", "bearing", "area",
           "date2utc", "time2utc", "calc_checksum", "get_parts", "generate_checksum", "msgdesc", "hex2str")


def case_constant(r, name):
    v = entry(name)
    r.check(v == C(CONSTANTS[name]), f"constant {name}", name, f"{name} is {v!r}, documented as {CONSTANTS[name]}")


def case_export(r, name):
    from .common import Anchor
    try:
        entry(name)
        r.ok(f"export {name}")
    except Anchor:
        r.bad(f"export {name}", "pynmeagps", f"{name} is not importable from the package")


def case_parse_default(r, tk):
    st = engine().newstate()
    raw = C(SENT[tk])
    P = entry("NMEAReader.parse")

    def fn(cx):
        view = lambda v: snapshot(cx, v)
        forms = [([raw, C(0), C(1), NONE], {}), ([raw], {}), ([raw], {"msgmode": C(0)}), ([raw], {"validate": C(1)}),
                 ([raw], {"userdefined": NONE}), ([], {"message": raw}), ([raw, C(0)], {}), ([raw, C(0), C(1)], {})]
        return [outcome(cx, lambda a=a, k=k: cx.call(P, a, k), view) for a, k in forms]
    equal_outcomes(r, f"parse {tk}", st, fn, "NMEAReader.parse", f"parse({SENT[tk]!r}) with and without its default arguments")

    def fn2(cx):
        view = lambda v: snapshot(cx, v)
        ud = cx.lift(USER)
        return [outcome(cx, lambda a=a, k=k: cx.call(P, a, k), view) for a, k in (
            ([raw], {"userdefined": ud, "validate": C(3), "msgmode": C(1)}), ([raw, C(1), C(3), ud], {}), ([raw, C(1)], {"userdefined": ud, "validate": C(3)}))]
    equal_outcomes(r, f"parse {tk} positional", st, fn2, "NMEAReader.parse", f"parse({SENT[tk]!r}) with positional and keyword settings")


def reading(cx, mk, n=5):
    """results of reading, and the number of errors logged, of the reader mk() creates"""
    n0 = len(cx.st.trace)

    def item(v):
        raw, m = _items(cx, v)
        return Tup([raw, snapshot(cx, cx.force(m))])
    rd = cx.force(mk())
    out = [outcome(cx, lambda: method(cx, rd, "read"), item) for _ in range(n)]
    ev = [e for e in cx.st.trace[n0:] if e.kind in ("log", "handler")]
    return Tup([Tup(out), C(len(ev))])


def case_reader_default(r, tk):
    st = engine().newstate()
    noise = b"\xb5\x62$\xff$Zx,1*00\r\n" if tk != "plain" else b""
    content = C(noise + SENT.get(tk, b"") + SENT["gll"])
    full = {"msgmode": C(0), "validate": C(1), "nmeaonly": FALSE, "quitonerror": C(1), "bufsize": C(4096), "errorhandler": NONE,
            "userdefined": NONE, "encoding": C(0)}

    def fn(cx):
        out = []
        for kw in [full, {}] + [{k: v} for k, v in full.items()]:
            stream = cx.st.alloc("ext", None, [content], StreamModel())
            out.append(reading(cx, lambda: cx.call(entry("NMEAReader"), [stream], kw)))
        stream = cx.st.alloc("ext", None, [content], StreamModel())
        out.append(reading(cx, lambda: cx.call(entry("NMEAReader"), [], {"stream": stream})))
        return out
    equal_outcomes(r, f"reader {tk}", st, fn, "NMEAReader", f"reading {tk} with and without the reader's default settings")


def case_message_default(r, what):
    st = engine().newstate()
    M = entry("NMEAMessage")
    lat, lon = C(-43.123456789), C(2.987654321)
    ud0 = {"USR": {"num": "IN", "txt": "ST"}}
    base = {"hpnmeamode": FALSE, "validate": C(1), "userdefined": NONE}
    if what == "gll":
        a, kw = [C("GN"), C("GLL"), C(0)], {"lat": lat, "lon": lon, "time": C("120000.00"), "status": C("A"), "posMode": C("A")}
    elif what == "unknown":
        a, kw = [C("GN"), C("XYZ"), C(0)], {}
    elif what == "talker":
        a, kw = [C("ZZ"), C("GLQ"), C(2)], {"msgId": C("RMC")}
    elif what == "nomode":
        a, kw = [C("GN"), C("GLL"), C(1)], {"payload": None}
    else:
        a, kw = [C("GN"), C("USR"), C(0)], {"num": C(3)}

    def fn(cx):
        k0 = dict(kw)
        if "payload" in k0:
            k0["payload"] = cx.newlist([C("1"), C("x")])
        view = lambda v: snapshot(cx, v)
        out = []
        ud = cx.lift(ud0)
        forms = [(a, {**base, **k0}), (a, k0)] + [(a, {k: v, **k0}) for k, v in base.items()]
        forms += [(a + [FALSE, C(1), NONE], k0), (a + [FALSE], k0), ([], {"talker": a[0], "msgID": a[1], "msgmode": a[2], **k0})]
        for p, k in forms:
            out.append(outcome(cx, lambda: cx.call(M, p, k), view))
        return out

    def fn2(cx):
        k0 = dict(kw)
        if "payload" in k0:
            k0["payload"] = cx.newlist([C("1"), C("x")])
        view = lambda v: snapshot(cx, v)
        ud = cx.lift(ud0)
        return [outcome(cx, lambda p=p, k=k: cx.call(M, p, k), view) for p, k in (
            (a, {**k0, "hpnmeamode": TRUE, "validate": C(2), "userdefined": ud}), (a + [TRUE, C(2), ud], k0), (a + [TRUE], {**k0, "validate": C(2), "userdefined": ud}))]
    equal_outcomes(r, f"message {what}", st, fn, "NMEAMessage", f"creating {what} with and without default settings")
    equal_outcomes(r, f"message {what} positional", st, fn2, "NMEAMessage", f"creating {what} with positional and keyword settings")


def rule_defaults(rep):
    cases = [(case_constant, (k,)) for k in CONSTANTS]
    cases += [(case_export, (k,)) for k in EXPORTS]
    cases += [(case_parse_default, (k,)) for k in SENT]
    cases += [(case_reader_default, (k,)) for k in list(SENT) + ["plain"]]
    cases += [(case_message_default, (k,)) for k in ("gll", "unknown", "talker", "nomode", "user")]
    rep.run(cases)


# ---- C46 creation from unsuitable values ------------------------------------------

CREATE_ERRORS = ("NMEAMessageError", "NMEATypeError")

VALUES = {
    "int": lambda st, n: atom(n, "int"),
    "float": lambda st, n: atom(n, "float"),
    "nan": lambda st, n: C(float("nan")),
    "inf": lambda st, n: C(float("inf")),
    "text": lambda st, n: atom(n, "str"),
    "bytes": lambda st, n: atom(n, "bytes"),
    "None": lambda st, n: NONE,
    "bool": lambda st, n: TRUE,
    "list": lambda st, n: st.alloc("list", None, [C(1)]),
    "dict": lambda st, n: st.alloc("dict", None, {C("a"): C(1)}),
    "tuple": lambda st, n: Tup([C(1), C("x")]),
}


def case_value(r, mode, key, i, kind):
    """one attribute is given a value of some other kind"""
    sj = subj(mode, key)
    n, counts = fieldcounts(sj.defn, (1,))[0]
    mk = Made(sj, n, counts)
    name = mk.layout[i][0]
    if name not in mk.kw:
        r.ok(f"{mode} {key}.{name} {kind} (not given)")
        return
    st = mk.st.fork()
    mk.kw[name] = VALUES[kind](st, "odd")
    mk.st = st
    created(r, f"{mode} {key}.{name} {kind}", mk.create(st), f"{sj}: creating with {name} given as {kind}")


def created(r, ob, outs, what):
    it = engine()
    for o in outs:
        if o.kind != "exc":
            r.ok(ob)
        elif is_lib(it, o, CREATE_ERRORS):
            r.ok(ob + " error")
        else:
            bad(r, ob, o.st, o.where, f"{what}: {sorted(excname(it, o))} escapes")


def case_extra(r, mode, key):
    """keywords that are no attributes are ignored"""
    sj = subj(mode, key)
    n, counts = fieldcounts(sj.defn, (1,))[0]
    mk = Made(sj, n, counts)
    ob = f"{mode} {key} extra keyword"

    def fn(cx):
        view = lambda v: snapshot(cx, v)
        return [outcome(cx, lambda k=k: cx.call(entry("NMEAMessage"), mk.args, k), view) for k in
                (mk.kw, {**mk.kw, "nosuchattribute": atom("odd", "str")})]
    equal_outcomes(r, ob, mk.st, fn, "NMEAMessage", f"{sj}: creating with a keyword that is no attribute")


def case_reject(r, what, validate, mode):
    """identifiers and talkers the library does not know, and proprietary identifiers without their message type"""
    it = engine()
    st = it.newstate()
    kw = {"validate": C(validate)}
    must = bool(validate & 2)
    if what == "unknown identifier":
        ident = atom("id", "str", excl=DELIMS)
        st = unknown_id(st, ident)
        a = [C("GN"), ident]
    elif what == "unknown talker":
        t = atom("tk", "str")
        for k in sorted(tab("NMEA_TALKERS")):
            it.assume(st, T("eq", (t, C(k)), "bool"), False)
        ids = {0: "GLL", 1: None, 2: "GPQ"}
        ident = ids[mode]
        if ident is None:
            return
        a = [t, C(ident)]
        kw.update({"msgId": C("RMC")} if mode == 2 else {})
    elif what == "no definition in mode":
        a = [C("GN"), C("GLL" if mode else "GPQ")]
    else:
        a = [C("P"), C(what)]
        must = True
    ob = f"{what} v{validate} m{mode}"
    for o in it.run(entry("NMEAMessage"), a + [C(mode)], kw, st=st):
        if o.kind == "exc":
            if must and is_lib(it, o, ("NMEAMessageError",)):
                r.ok(ob)
            elif what == "unknown talker" and mode == 0 and not must:
                bad(r, ob, o.st, o.where, f"creating with an {what} raises {sorted(excname(it, o))} although identifiers are not validated")
            else:
                bad(r, ob, o.st, o.where, f"creating ({ob}): raises {sorted(excname(it, o))}")
        elif must:
            bad(r, ob, o.st, "NMEAMessage", f"creating ({ob}): accepted, expected NMEAMessageError")
        else:
            r.ok(ob)


MISFIT = {
    "count that is no attribute": {"n": "IN", "group": ("nope", {"b": "IN"})},
    "count after its group": {"group": ("n", {"b": "IN"}), "n": "IN"},
    "count that is a text": {"n": "CH", "group": ("n", {"b": "IN"})},
    "count that is a decimal": {"n": "DE", "group": ("n", {"b": "IN"})},
    "unknown type": {"n": "IN", "x": "ZZ"},
    "nested groups": {"n": "IN", "group": ("n", {"b": "IN", "inner": (2, {"c": "CH"})})},
    "empty": {},
}


def case_badud(r, what, validate):
    """a user definition that does not fit its keywords or fields: a message or a documented error, created or parsed"""
    it = engine()
    ob = f"user definition with {what} v{validate}"
    st = it.newstate()
    d, st = lifted(st, {"USR": MISFIT[what]})
    kw = {"userdefined": d, "validate": C(validate)}
    for k, more in (("", {"n": atom("n", "int", lo=0, hi=3), "b_01": atom("b", "int"), "x": fld(2)}), (" without values", {})):
        created(r, ob + k, it.run(entry("NMEAMessage"), [C("GN"), C("USR"), C(0)], {**kw, **more}, st=st.fork()), f"creating with a {ob}")
    for fields in ([], [C("2"), C("1"), C("2")], [fld(1)], [C("1"), fld(1)]):
        raw = S.cat([C("$GNUSR")] + [x for f in fields for x in (C(","), f)] + [C("*00\r\n")])
        for o in it.run(entry("NMEAReader.parse"), [raw], {**kw, "validate": C(validate & 2)}, st=st.fork()):
            if o.kind != "exc" or is_lib(it, o, CREATE_ERRORS + ("NMEAParseError",)):
                r.ok(f"{ob} parse {len(fields)}")
            else:
                bad(r, f"{ob} parse {len(fields)}", o.st, o.where, f"parsing with a {ob}: {sorted(excname(it, o))} escapes")


def rule_creation(rep):
    full = rep.tier != "quick"
    cases = [(case_badud, (w, v)) for w in MISFIT for v in (0, 1, 3)]
    seen = set()
    for sj in subjects():
        if not creatable(sj):
            continue
        n, counts = fieldcounts(sj.defn, (1,))[0]
        mk = Made(sj, n, counts)
        cases.append((case_extra, (sj.mode, sj.key)))
        for i, (name, t, _) in enumerate(mk.layout):
            sig = (t, "group" if name[-2:].isdigit() else "", name in [d[1] for d in [()] if d])
            if not full and (sj.prop, sig) in seen and name not in ("msgId", "msgtype", "lat", "lon", "status"):
                continue
            seen.add((sj.prop, sig))
            for kind in VALUES:
                cases.append((case_value, (sj.mode, sj.key, i, kind)))
    for v in (0, 1, 2, 3):
        for m in (0, 1, 2):
            for w in ("unknown identifier", "unknown talker", "no definition in mode"):
                cases.append((case_reject, (w, v, m)))
            for p in tab("NMEA_PREFIX_PROP"):
                cases.append((case_reject, (p, v, m)))
    rep.run(cases)


# ---- C47 payload lists ------------------------------------------------------------


def case_payload(r, mode, key, n, counts, form):
    """creating from a payload list gives the message that parsing the sentence gives"""
    sj = subj(mode, key)
    sc = Scene(sj, n, counts)
    s = 1 if sj.hdr[0] == "P" else 2
    ob = f"{mode} {key}/{n} {form}"
    P, M = entry("NMEAReader.parse"), entry("NMEAMessage")
    md = C(MODE[mode])

    def content(cx, v):
        d = public(attrs_of(cx.it, cx.st, v))
        return Tup([cx.it.getattr(cx, v, "identity"), cx.it.getattr(cx, v, "msgmode"), Tup(_items(cx, cx.it.getattr(cx, v, "payload"))),
                    Tup(Tup((C(k), cx.force(x))) for k, x in d.items())])

    def fn(cx):
        view = lambda v: content(cx, v)
        kw = {}
        pl = list(sc.fields)
        if form == "with other keywords":
            kw = {"nosuch": C(1)}
            for i, (a, t, _) in enumerate(sc.layout):
                kw[a] = C(1) if i % 2 else C("7")
        kw["payload"] = Tup(pl) if form == "tuple" else cx.newlist(pl)
        if form == "high precision":
            kw["hpnmeamode"] = TRUE
        return [outcome(cx, lambda: cx.call(P, [sc.message()], {"msgmode": md, "validate": C(0)}), view),
                outcome(cx, lambda: cx.call(M, [C(sj.hdr[:s]), C(sj.hdr[s:]), md], kw), view)]
    equal_outcomes(r, ob, sc.st, fn, "NMEAMessage", f"{sj}: creating from a payload list ({form}) and parsing the sentence")


def case_text(r, mode, key, n, counts):
    """a sentence means the same as bytes and as text"""
    sj = subj(mode, key)
    sc = Scene(sj, n, counts)
    P = entry("NMEAReader.parse")
    md = C(MODE[mode])

    def fn(cx):
        view = lambda v: snapshot(cx, v)
        return [outcome(cx, lambda m=m: cx.call(P, [m], {"msgmode": md, "validate": C(0)}), view) for m in
                (sc.message(), sentence(sj.hdr, sc.fields, byt=False))]
    equal_outcomes(r, f"{mode} {key}/{n} text", sc.st, fn, "NMEAReader.parse", f"{sj}: parsing the sentence as bytes and as text")


def rule_payload(rep):
    cases = []
    for sj in subjects():
        for n, counts in fieldcounts(sj.defn, (2,) if rep.tier == "quick" else (0, 1, 2, 3)):
            for f in ("list", "with other keywords", "tuple", "high precision"):
                if f == "list" or rep.tier != "quick" or f == "with other keywords":
                    cases.append((case_payload, (sj.mode, sj.key, n, counts, f)))
            cases.append((case_text, (sj.mode, sj.key, n, counts)))
        for f in ("list", "with other keywords"):
            cases.append((case_payload, (sj.mode, sj.key, 0, {}, f)))
        cases.append((case_text, (sj.mode, sj.key, 0, {})))
    rep.run(cases)


# ---- C09 several readers --------------------------------------------------------------


class Named(Handler):
    """an error handler that can be told from others"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return type(self) is type(o) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def call(self, cx, ref, name, args, kw):
        cx.st.event("handler", (C(self.name),), cx.it.where(cx))
        return NONE


PROFILES = {
    "default": {},
    "lenient": {"validate": 0},
    "strict": {"validate": 3, "quitonerror": 2},
    "set": {"msgmode": 1, "validate": 0},
    "poll": {"msgmode": 2, "validate": 2},
    "user": {"validate": 0, "userdefined": {"USR": {"a": "IN", "b": "ST"}}},
    "other user": {"validate": 0, "userdefined": {"USR": {"c": "ST"}}},
    "handled": {"errorhandler": "mine", "quitonerror": 1},
    "handled otherwise": {"errorhandler": "other", "quitonerror": 1, "validate": 3},
    "ignoring": {"quitonerror": 0},
    "NMEA only": {"nmeaonly": True, "quitonerror": 2},
}
MIXED = b"\xb5\x62$GNGLL,,,,,,V,N*00\r\n$GNUSR,1,2*5E\r\n$GPQ,GLL*2D\r\n$GNGLL,,,,,,V,N*7A\r\n"


def case_readers(r, a, b, when):
    """a reader gives the same whatever other readers exist or have read"""
    def make(cx, k):
        kw = {x: cx.st.alloc("ext", None, None, Named(y)) if x == "errorhandler" else cx.lift(y) if isinstance(y, dict) else C(y)
              for x, y in PROFILES[k].items()}
        stream = cx.st.alloc("ext", None, [C(MIXED)], StreamModel())
        return cx.force(cx.call(entry("NMEAReader"), [stream], kw))

    def read(cx, rd, n):
        n0 = len(cx.st.trace)
        out = [outcome(cx, lambda: method(cx, rd, "read"), lambda v: Tup([_items(cx, v)[0], snapshot(cx, cx.force(_items(cx, v)[1]))])) for _ in range(n)]
        return Tup([Tup(out), Tup([e.data[0] if e.kind == "handler" and len(e.data) == 1 else C(e.kind) for e in cx.st.trace[n0:]
                                   if e.kind in ("log", "handler")])])

    def fn(cx):
        ref = read(cx, make(cx, a), 4)
        for oid in [k for k in cx.st.heap if cx.st.isbase(k)]:
            del cx.st.heap[oid]  # as after the import
        if when == "before":
            read(cx, make(cx, b), 4)
            return [ref, read(cx, make(cx, a), 4)]
        first = make(cx, a)
        second = make(cx, b)
        if when == "made after":
            return [ref, read(cx, first, 4)]
        x = read(cx, first, 1)
        read(cx, second, 2)
        y = read(cx, first, 3)
        return [ref, Tup([Tup(x.items[0].items + y.items[0].items), Tup(x.items[1].items + y.items[1].items)])]
    equal_outcomes(r, f"reader {a}, {b} {when}", engine().newstate(), fn, "NMEAReader", f"a {a} reader with a {b} reader {when} it")


def case_elsewhere(r, mode, key, n, counts, other, validate):
    """a sentence read in a mode for which it is not meant is treated the same whatever was read before"""
    sj = subj(mode, key)
    sc = Scene(sj, n, counts)
    P = entry("NMEAReader.parse")

    def fn(cx):
        def parse_in(md, v):
            return outcome(cx, lambda: cx.call(P, [sc.message()], {"msgmode": C(md), "validate": C(v)}), lambda m: snap(cx, m))
        ref = parse_in(other, validate)
        for oid in [k for k in cx.st.heap if cx.st.isbase(k)]:
            del cx.st.heap[oid]  # as after the import
        for md in (0, 1, 2):
            for v in (0, 2):
                parse_in(md, v)
        return [ref, parse_in(other, validate)]
    equal_outcomes(r, f"{mode} {key}/{n} in mode {other} v{validate}", sc.st, fn, "NMEAReader.parse", f"{sj} in mode {other}, before and after parsing it in all modes")


def elsewhere(full):
    out = []
    for sj in subjects():
        for n, counts in fieldcounts(sj.defn, (1,)):
            out += [(case_elsewhere, (sj.mode, sj.key, n, counts, m, v)) for m in (0, 1, 2) for v in ((0, 2) if full else (2 if m == 2 else 0,)) if m != MODE[sj.mode]]
    return out


def readers():
    return [(case_readers, (a, b, w)) for a in PROFILES for b in PROFILES for w in ("before", "made after", "between")]


# ---- C48 concurrent use -------------------------------------------------------------


def _parse(msg, **kw):
    def f(cx, env):
        k = dict(kw)
        if k.get("userdefined"):
            k["userdefined"] = cx.lift(k["userdefined"])
        return outcome(cx, lambda: cx.call(entry("NMEAReader.parse"), [msg() if callable(msg) else C(msg)],
                                           {a: (b if not isinstance(b, (int, bool)) else C(b)) for a, b in k.items()}),
                       lambda v: snap(cx, v) if isinstance(v, Ref) else v)
    return f


def _read(content, **kw):
    def f(cx, env):
        def mk():
            k = {a: cx.st.alloc("ext", None, None, Named(b)) if a == "errorhandler" else cx.lift(b) if isinstance(b, dict) else C(b) for a, b in kw.items()}
            stream = cx.st.alloc("ext", None, [content() if callable(content) else C(content)], StreamModel())
            return cx.call(entry("NMEAReader"), [stream], k)
        return reading(cx, mk, 3).items[0]
    return f


def _create(talker, ident, mode, **kw):
    def f(cx, env):
        k = {a: (C(b) if not isinstance(b, (list, T)) else b) for a, b in kw.items()}
        if isinstance(k.get("payload"), list):
            k["payload"] = cx.newlist([C(x) if isinstance(x, str) else x for x in k["payload"]])
        return outcome(cx, lambda: cx.call(entry("NMEAMessage"), [C(talker), C(ident), C(mode)], k), lambda v: snap(cx, v))
    return f


def _use(cx, env):
    m = env["shared"]
    return Tup([snap(cx, m), cx.call(Bi("str"), [m]), cx.call(Bi("repr"), [m])])


def deep(cx, v):
    """a value with the lists in it replaced by what they hold"""
    v = cx.force(v)
    if isinstance(v, Ref):
        return Tup([deep(cx, x) for x in _items(cx, v)])
    return Tup([deep(cx, x) for x in v.items]) if isinstance(v, Tup) else v


def _helpers(*calls):
    def f(cx, env):
        return Tup([outcome(cx, lambda: cx.call(entry(n), [C(x) for x in a]), lambda v: deep(cx, v))
                    for n, a in calls])
    return f


def _gsv(a, b):
    return lambda: sentence("GNGSV", [C("1"), C("1"), C("02"), C("01"), C("10"), C(a), fld(21), C("02"), C("11"), C(b), fld(22), C("1")])


OPS = {
    "parse GLL": _parse(lambda: sentence("GNGLL", [C("5327.04319"), C("S"), C("00214.41396"), C("E"), C("223232.00"), fld(5), fld(6)]), validate=0),
    "parse GSV": _parse(_gsv("020", "021"), validate=0),
    "parse GSV set": _parse(_gsv("030", "031"), validate=0, msgmode=1),
    "parse unknown": _parse(lambda: sentence("GNXYZ", [fld(0), fld(1), fld(2)]), validate=0),
    "parse user": _parse(lambda: sentence("GNUSR", [C("7"), fld(1), C("1.5"), fld(3)]), validate=0, userdefined=USER),
    "parse user differently": _parse(lambda: sentence("GNUSR", [C("7"), fld(1), C("1.5"), fld(3)]), validate=0, userdefined={"USR": {"x": "ST"}}),
    "parse variant": _parse(b"$PQTMCFGUART,W,1,115200*00\r\n", validate=0, msgmode=1),
    "parse poll": _parse(b"$PUBX,05*36\r\n", msgmode=2),
    "parse bad checksum": _parse(b"$GNGLL,,,,,,V,N*00\r\n"),
    "parse malformed": _parse(b"$GNGSV,x,1,02*00\r\n", validate=0),
    "read": _read(b"\xb5\x62$GNGLL,,,,,,V,N*7A\r\n$GNXYZ,1,2*51\r\n"),
    "read strictly": _read(b"$GNGLL,,,,,,V,N*00\r\n$PUBX,05*36\r\n", validate=3, quitonerror=2, nmeaonly=True),
    "read user": _read(b"$GNUSR,1,2*5E\r\n$GNGLL,,,,,,V,N*00\r\n", userdefined=PROFILES["user"]["userdefined"], errorhandler="mine", validate=0),
    "read poll": _read(b"$PUBX,05*36\r\n$GPQ,GLL*2D\r\n", msgmode=2, validate=2, quitonerror=0),
    "create GLL": _create("GN", "GLL", 0, lat=-43.123456789, lon=2.987654321, time="120000.00", status="A", posMode="A"),
    "create precise": _create("GN", "GLL", 0, lat=43.123456789, lon=-2.987654321, time="120000.00", status="A", posMode="A", hpnmeamode=True),
    "create group": _create("GP", "GSV", 0, numMsg=1, msgNum=1, numSV=2, svid_01=1, elv_01=2.0, az_01=3, cno_01=4, svid_02=5, elv_02=6.0, az_02=7, cno_02=8),
    "create payload": _create("GN", "GNS", 0, payload=["120000.00", "4330.0", "N", "00245.0", "W", "AA"]),
    "use message": _use,
    "helpers": _helpers(("get_parts", ("$GNGLL,1,2*00\r\n",)), ("calc_checksum", ("GNGLL,1,2",)), ("ddd2dmm", (-43.5, "LA")), ("dmm2ddd", ("4330.5",)),
                        ("time2utc", ("120000.25",)), ("date2utc", ("010203",)), ("latlon2dms", (1.5, -2.5)), ("dms2deg", ("1°30′0″S",)),
                        ("msgdesc", ("GLL",)), ("llh2iso6709", (1.5, 2.5, 3.5)), ("ecef2llh", (3822566.0, -144427.0, 5086857.0))),
}


def case_threads(r, a, b):
    """a, with b carried out by another thread at any one moment in between"""
    it = engine()
    st0 = it.newstate()
    env = {}

    def setup(cx):
        env["shared"] = cx.force(cx.call(entry("NMEAReader.parse"), [C(SENT["gll"])], {"validate": C(0)}))
        return env["shared"]
    o = run(st0, setup)
    if o[0].kind == "exc":
        r.ok("setup")
        return
    st0 = o[0].st
    flag = st0.alloc("list", None, [C(0)])
    fa, fb = OPS[a], OPS[b]
    ob = f"{a} / {b}"
    pre = {k: st0.get(k) for k in list(st0.heap) + list(st0.base)}

    def written(st):
        return [k for k, x in pre.items() if k != flag.oid and st.get(k) is not x]
    seen = []

    def record(s, st, sc):
        k = (sc.modname, s.lineno, s.col_offset)
        if k not in seen:
            seen.append(k)
        return [st]
    it.preempt = record
    try:
        alone = [o for o in run(st0.fork(), lambda cx: fa(cx, env))]
    finally:
        it.preempt = None
    shared = set()
    for x in alone:
        shared.update(written(x.st))
    for x in run(st0.fork(), lambda cx: fb(cx, env)):
        shared.update(written(x.st))
    if not shared:
        r.ok(f"{ob}: no object shared between threads is written")
        return
    for at in seen:
        def pre_at(s, st, sc):
            if (sc.modname, s.lineno, s.col_offset) != at or st.get(flag.oid).data[0] != C(1):
                return [st]
            st = st.fork()
            st.write(flag.oid).data[0] = C(2)
            it.preempt = None
            try:
                return [o.st for o in run(st, lambda cx: fb(cx, env))]
            finally:
                it.preempt = pre_at

        def client(cx):
            ref = fa(cx, env)
            for oid in [k for k in cx.st.heap if k in pre and k != flag.oid]:
                cx.st.heap[oid] = pre[oid]
            cx.st.owned.clear()
            cx.st.write(flag.oid).data[0] = C(1)
            got = fa(cx, env)
            cx.st.write(flag.oid).data[0] = C(0)
            return Tup([ref, got])
        it.preempt = pre_at
        try:
            outs = run(st0.fork(), client)
        finally:
            it.preempt = None
        where = f"{at[0]}:{at[1]}"
        for o in outs:
            if o.kind == "exc":
                bad(r, ob, o.st, o.where, f"{a}, with {b} in another thread before {where}: raises {sorted(excname(it, o))}")
                return
            for lits, v in lits_of(o.val):
                s = with_lits(o.st, lits)
                if s is not None:
                    compare(r, ob, s, v.items[1], v.items[0], where, f"{a}, with {b} in another thread before {where}")


def rule_threads(rep):
    rep.run([(case_threads, (a, b)) for a in OPS for b in OPS])


# ---- C49 decode tables --------------------------------------------------------------

DECODES = [("FIXTYPE_GGA", "GNGGA", ("quality",)), ("QUALITY", "GNGGA", ("quality",)), ("POSMODE", "GNRMC", ("posMode",)), ("POSMODE", "GNGLL", ("posMode",)),
           ("SYSTEMID", "GNGSA", ("systemId",)), ("SYSTEMID", "GNGRS", ("systemId",)), ("SYSTEMID", "GNGBS", ("systemId",)),
           ("SIGNALID", "GNGRS", ("systemId", "signalId")), ("SIGNALID", "GNGBS", ("systemId", "signalId"))]


def case_decode(r, table, ident, names, i):
    """the value a message carries is a key of the table and gives the published name"""
    from absint import builtins_ as B
    it = engine()
    key, text = decodes()[table][i]
    parts = key if isinstance(key, tuple) else (key,)
    sj = subj("GET", ident[2:])
    n, counts = fieldcounts(sj.defn, (1,))[0]
    sc = Scene(sj, n, counts)
    layout = [a for a, _, _ in sc.layout]
    for a, x in zip(names, parts):
        sc.fields[layout.index(a)] = C(str(x))
    ob = f"{table}[{key!r}] of {ident}"

    def client(cx):
        m = cx.force(cx.call(entry("NMEAReader.parse"), [sc.message()], {"validate": C(0)}))
        vs = [cx.force(cx.it.getattr(cx, m, a)) for a in names]
        return B.getitem(cx, entry(table), vs[0] if len(vs) == 1 else Tup(vs))
    for o in run(sc.st, client):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{table} looked up with {'/'.join(names)} of a {ident} sentence carrying {key!r}: raises {sorted(excname(it, o))}")
        else:
            compare(r, ob, o.st, o.val, C(text), table, f"{table} looked up with {'/'.join(names)} of a {ident} sentence carrying {key!r}")


def decodes():
    from .msgs import frozen
    def fix(x):
        return tuple(x) if isinstance(x, list) else x
    return {k: [(fix(a), fix(b)) for a, b in v] for k, v in frozen()["decodes"].items()}


def case_decode_table(r, table):
    cur = common_table(table)
    for k, v in decodes()[table]:
        if k not in cur:
            r.bad(f"{table}[{k!r}]", table, f"{table} has no entry for {k!r} (published: {v!r})")
        else:
            r.check(cur[k] == v and type(cur[k]) is type(v), f"{table}[{k!r}]", table, f"{table}[{k!r}] is {cur[k]!r}, published as {v!r}")
    if table == "FMI_STATUS":
        for k in cur:
            r.check(isinstance(k, int) and k > 0 and k & (k - 1) == 0, f"{table} bit {k!r}", table, f"{table} key {k!r} is not a single bit")
            r.check(isinstance(cur[k], tuple) and len(cur[k]) == 2, f"{table} value {k!r}", table, f"{table}[{k!r}] is not a name and a description")


def common_table(name):
    from .common import table
    return table(name)


def rule_decodes(rep):
    cases = [(case_decode_table, (t,)) for t in decodes()]
    for t, ident, names in DECODES:
        for i in range(len(decodes()[t])):
            cases.append((case_decode, (t, ident, names, i)))
    rep.run(cases)
