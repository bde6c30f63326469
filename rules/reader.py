"""Stream rules: framing, noise, error policy, end of stream, settings (C04-C08).

A stream is a word of tokens; every token is abstract content (arbitrary noise
bytes, sentences with arbitrary fields, ...).  The reference says which results
reading the word gives, whatever the content of the tokens."""

from __future__ import annotations

import itertools

from absint.models import BytesIOModel, Model
from .common import *  # noqa: F401,F403
from .common import (C, T, Tup, Ref, Phi, NONE, TRUE, FALSE, EMPTY, S, AbsRaise, engine, entry, sentence, compare, bad,
                     is_lib, excname, witness, atom, DELIMS, fld, cksum_atoms, Unsupported, LIBERR, attrs_of, public, classname)
from .msgs import with_lits, tab
from .parsing import lits_of, lifted, run, method, _items


class StreamModel(BytesIOModel):
    """a stream with read and readline over the given content"""


class PausingModel(BytesIOModel):
    """a serial port with a timeout: data[0] are the segments between pauses; a read
    that meets a pause returns what there is"""

    def call(self, cx, ref, name, args, kw):
        segs = list(cx.force(cx.st.get(ref.oid).data[0]).items)
        if not segs:
            return C(b"")
        sub = cx.st.alloc("ext", None, [segs[0]], BytesIOModel())
        n = args[0].v if name == "read" and args and isinstance(args[0], C) else None
        if name == "read" and (n is None or n < 0) or name not in ("read", "readline") or name == "readline" and args:
            raise Unsupported(f"{name} on a serial port")
        got = cx.call(cx.it.getattr(cx, sub, name), list(args), dict(kw))
        rest = cx.st.get(sub.oid).data[0]
        if name == "read":
            paused = S.minlen(got) < n
        else:
            paused = not (S.minlen(got) and S.slice_(cx, got, C(-1), None) == C(b"\n"))
        segs = segs[1:] if paused else [rest] + segs[1:]
        w = cx.st.write(ref.oid)
        w.data[0] = Tup(segs)
        return got


class Handler(Model):
    """an error handler; a callable collector may well be false while it is empty"""

    def truth(self):
        return atom("handler_true", "bool")

    def call(self, cx, ref, name, args, kw):
        cx.st.event("handler", tuple(args), cx.it.where(cx))
        return NONE


class Objector(Model):
    """an error handler that raises an error of its own"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return type(self) is type(o) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def call(self, cx, ref, name, args, kw):
        cx.st.event("handler", tuple(args), cx.it.where(cx))
        if self.name.startswith("NMEA"):
            raise AbsRaise(cx.call(entry(self.name), [C("from the handler")]), cx.it.where(cx))
        cx.raise_(self.name, "from the handler")


def talker_initials():
    return {t[0] for t in tab("NMEA_TALKERS") if t}


def f(i, j):
    return atom(f"f{i}_{j}", "str", excl=DELIMS)


def ck(i):
    return [atom(f"ck{i}{j}", "str", minlen=1, maxlen=1, excl=DELIMS) for j in (0, 1)]


def byte(name, excl):
    return atom(name, "bytes", minlen=1, maxlen=1, excl=frozenset(excl))


# token -> (content, outcome); outcome: None (skipped), "msg" or names of errors

def tokens(i, tk, nmeaonly):
    if tk == "n":
        return byte(f"n{i}", "$"), None
    if tk == "m":
        return C(b"\xb5\x62\x0d\x0a*\x00"), None
    if tk == "x":
        return (S.cat([C(b"$"), byte(f"x{i}", "$" + "".join(talker_initials()))], True),
                ("NMEAParseError", "NMEAStreamError") if nmeaonly else None)
    if tk == "d":
        return C(b"$"), None
    if tk == "s":
        return sentence("GNXYZ", [f(i, 0), f(i, 1)], ck=ck(i)), "msg"
    if tk == "p":
        return sentence("PXYZ", [f(i, 0)], ck=ck(i)), "msg"
    if tk == "g":
        return sentence("GPGLL", [EMPTY] * 5 + [f(i, 0), f(i, 1)], ck=ck(i)), "msg"
    if tk == "l":
        return sentence("GNXYZ", [f(i, 0)], ck=ck(i), end="\n"), "msg"
    if tk == "t":
        return C(b"$GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A*68\r\n"), "msg"
    if tk == "z":  # a long sentence
        return C(b"$GNXYZ," + b"a,bc," + b"z" * 9000 + b"*00\r\n"), "msg"
    if tk == "e":  # malformed number
        return sentence("GNGSV", [C("x"), f(i, 1)], ck=ck(i)), ("NMEATypeError",)
    if tk == "E":  # malformed number, right checksum
        return C(b"$GNGSV,x,1*02\r\n"), ("NMEATypeError",)
    if tk == "b":  # wrong checksum (validated)
        return C(b"$GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A*69\r\n"), ("NMEAParseError",)
    if tk == "u":  # unknown identifier (validated)
        return sentence("GNXYZ", [f(i, 0)], ck=ck(i)), ("NMEAParseError",)
    if tk == "B":  # no checksum separator (message validated)
        return C(b"$GNGLL,5327.04319,S\r\n"), ("NMEAParseError",)
    if tk == "T1":
        return C(b"$"), "eof"
    if tk == "T2":
        return C(b"$G"), "eof"
    if tk == "T4":
        return C(b"$GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A*68\r"), ("NMEAStreamError",)
    if tk == "T5":
        return C(b"$GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A*68"), ("NMEAStreamError",)
    if tk == "T3":
        return S.encode(S.cat([C("$GNGLL,"), f(i, 0)], False)), ("NMEAStreamError",)
    raise KeyError(tk)


POLICY = {"ignore": 0, "log": 1, "raise": 2, "handler": 1, "ignore+handler": 0, "raise+handler": 2}


def snapshot(cx, msg):
    """observable content of a message"""
    it = cx.it
    if msg is NONE:
        return NONE
    d = public(attrs_of(it, cx.st, msg))
    return Tup([it.getattr(cx, msg, "identity"), it.getattr(cx, msg, "msgmode"), it.getattr(cx, msg, "checksum"),
                Tup(_items(cx, it.getattr(cx, msg, "payload"))), method(cx, msg, "serialize"),
                Tup(Tup((C(k), cx.force(v))) for k, v in d.items())])


def case_stream(r, word, policy, nmeaonly, validate, mode, how, userdefined=None):
    it = engine()
    content, expect = [], []
    for i, tk in enumerate(word):
        v, e = tokens(i, tk, nmeaonly)
        content.append(v)
        if e is not None and e != "eof":
            expect.append((e, v))
    st = it.newstate()
    stream = st.alloc("ext", None, [S.cat(content, True) if content else C(b"")], StreamModel())
    policy, _, objection = policy.partition(":")
    kw = {"validate": C(validate), "msgmode": C(mode), "nmeaonly": C(bool(nmeaonly)), "quitonerror": C(POLICY[policy])}
    if objection:
        kw["errorhandler"] = st.alloc("ext", None, None, Objector(objection))
    elif "handler" in policy:
        kw["errorhandler"] = st.alloc("ext", None, None, Handler())
    if userdefined is not None:
        kw["userdefined"], st = lifted(st, userdefined)
    # what the client sees
    raising = POLICY[policy] == 2 or objection
    visible = [(e if e == "msg" or not objection else (objection,), v) for e, v in expect if e == "msg" or raising]
    errs = [(e, v) for e, v in expect if e != "msg"]
    extra = 0 if "z" in word else 2
    ob = f"{'.'.join(word)} {policy}{' raising ' + objection if objection else ''} nmeaonly={nmeaonly} v{validate} m{mode} {how}"

    def client(cx):
        R = entry("NMEAReader")
        P = entry("NMEAReader.parse")
        rd = cx.call(R, [stream], kw)
        res = []
        if how == "iter":
            rd = cx.call(it.getattr(cx, rd, "__iter__"))
        for k in range(len(visible) + extra):
            n0 = len(cx.st.trace)
            try:
                v = cx.force(method(cx, rd, "read" if how == "read" else "__next__"))
            except AbsRaise as e:
                res.append(("exc", e.exc, None, e.where))
                continue
            pair = [cx.force(x) for x in B_items(cx, v)]
            if len(pair) != 2:
                res.append(("odd", v, None, None))
                continue
            raw, msg = pair
            if msg is not NONE and raw is not NONE:
                snap = snapshot(cx, msg)
                ref = snapshot(cx, cx.force(cx.call(P, [raw], {k: kw[k] for k in ("validate", "msgmode", "userdefined") if k in kw})))
                res.append(("msg", raw, (snap, ref), None))
            elif msg is NONE and raw is NONE:
                res.append(("end", None, None, None))
            else:
                res.append(("odd", v, None, None))
        cx.it._last = res
        return Tup([])

    for o in it_explore(it, client, st):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"reading {ob}: raises {sorted(excname(it, o))}")
            continue
        judge(r, ob, o, visible, errs, how, policy)


def B_items(cx, v):
    from absint import builtins_ as B
    return B.iterate(cx, v)


def it_explore(it, fn, st):
    """outcomes of a client computation, with the Python results kept"""
    keep = {}

    def wrapped(cx):
        fn(cx)
        k = len(keep)
        keep[k] = it._last
        return C(k)
    outs = it.do(wrapped, st.fork())
    for o in outs:
        if o.kind != "exc" and isinstance(o.val, C):
            o.val = keep[o.val.v]
    return outs


def judge(r, ob, o, visible, errs, how, policy):
    it = engine()
    res = o.val
    k = 0
    for e, v in visible:
        kind, x, snap, where = res[k]
        k += 1
        if e == "msg":
            if kind != "msg":
                bad(r, ob, o.st, where or "NMEAReader.read",
                    f"stream {ob}: result {k} is {describe(it, o, kind, x)}, expected the sentence {v!r}")
                return
            if compare(r, ob, o.st, x, v, "NMEAReader.read", f"raw bytes of result {k}") is not True:
                return
            compare(r, ob + " parsed", o.st, snap[0], snap[1], "NMEAReader.read", f"parsed result {k}")
        else:
            if kind != "exc" or classes(it, o.st, x) - set(e):
                bad(r, ob, o.st, where or "NMEAReader.read",
                    f"stream {ob}: result {k} is {describe(it, o, kind, x)}, expected one of {e}")
                return
            r.ok(ob)
    for kind, x, snap, where in res[k:]:
        if how == "read":
            good = kind == "end"
        else:
            good = kind == "exc" and classes(it, o.st, x) == {"StopIteration"}
        if not good:
            bad(r, ob, o.st, where or "NMEAReader.read",
                f"stream {ob}: result after the end of the stream is {describe(it, o, kind, x)}")
            return
        r.ok(ob + " end")
    # error policy
    calls = [ev for ev in o.st.trace if ev.kind == "handler"]
    logs = [ev for ev in o.st.trace if ev.kind == "log"]
    want_h = len(errs) if policy == "handler" else 0
    want_l = len(errs) if policy == "log" else 0
    if len(calls) != want_h or len(logs) != want_l:
        bad(r, ob + " policy", o.st, "NMEAReader.read",
            f"stream {ob}: {len(errs)} errors; handler called {len(calls)} times (expected {want_h}), "
            f"logged {len(logs)} times (expected {want_l})")
        return
    r.ok(ob + " policy")
    for ev, (e, v) in zip(calls, errs):
        a = ev.data[0] if ev.data else None
        if a is not None and all(isinstance(x, Ref) for _, x in lits_of(a)) and not (classes(it, o.st, a) - set(e)):
            r.ok(ob + " handler argument")
        else:
            bad(r, ob + " handler argument", o.st, ev.where, f"handler is called with {a!r}, expected one of {e}")


def classes(it, st, x):
    return {classname(it.exc_class(st, v)) for _, v in lits_of(x)}


def describe(it, o, kind, x):
    if kind == "exc":
        return "error " + "/".join(sorted(classes(it, o.st, x)))
    if kind == "end":
        return "the end of the stream"
    return f"{kind} {x!r}"


def words(al, n, last=("",), ok=lambda w: True):
    for k in range(n + 1):
        for w in itertools.product(al, repeat=k):
            for t in last:
                x = w + ((t,) if t else ())
                if ok(x):
                    yield x


def dok(w):
    """a stray $ must be followed by a sentence or another stray $"""
    for a, b in zip(w, w[1:] + ("",)):
        if a == "d" and b not in ("d", "s", "p", "g", "l", "x", "t", "e"):
            return False
    return True


def rule_framing(rep):
    """C04"""
    n = 3 if rep.tier == "quick" else 5
    cases = [(case_stream, (w, "raise", 0, 0, 0, "read")) for w in (("n", "t"), ("x", "t"), ("d", "t"), ("t", "n", "t"))]
    for w in words(("n", "x", "d", "t", "E"), n, ok=dok):
        cases.append((case_stream, (w, "ignore", 0, 0, 0, "read")))
    for w in words(("n", "x", "d", "s", "p", "e"), n, ok=dok):
        if any(t in "sp" for t in w):
            for pol in ("ignore", "raise") if rep.tier != "quick" or len(w) < 3 else ("raise",):
                cases.append((case_stream, (w, pol, 0, 0, 0, "read")))
    for w in (("z",), ("t", "z")):
        cases.append((case_stream, (w, "raise", 0, 0, 0, "read")))
    for w in words(("s", "g", "l", "p", "m"), 3 if rep.tier == "quick" else 4):
        cases.append((case_stream, (w, "log", 0, 0, 0, "iter")))
    rep.run(cases)


def rule_policy(rep):
    """C05"""
    n = 3
    cases = []
    for pol in POLICY:
        for w in words(("s", "e"), n + 1, ok=lambda w: "e" in w):
            cases.append((case_stream, (w, pol, 0, 0, 0, "read")))
        for w in words(("t", "b", "E"), n):
            cases.append((case_stream, (w, pol, 0, 1, 0, "iter")))
            cases.append((case_stream, (w, pol, 0, 1, 0, "read")))
        for w in words(("t", "b", "u", "B"), n if rep.tier != "quick" else 2):
            cases.append((case_stream, (w, pol, 0, 3, 0, "read")))
        for w in words(("s", "x"), n, ok=lambda w: "x" in w):
            cases.append((case_stream, (w, pol, 1, 0, 0, "read")))
    for exc in ("NMEAParseError", "NMEAMessageError", "NMEAStreamError", "NMEATypeError", "ValueError", "EOFError", "StopIteration"):
        for w in words(("s", "e"), 2 if rep.tier == "quick" else 3, ok=lambda w: "e" in w):
            cases.append((case_stream, (w, "handler:" + exc, 0, 0, 0, "read")))
        for w in words(("t", "b"), 2, ok=lambda w: "b" in w):
            cases.append((case_stream, (w, "handler:" + exc, 0, 1, 0, "read")))
    rep.run(cases)


def rule_noise(rep):
    """C06"""
    n = 4 if rep.tier == "quick" else 6
    cases = []
    for w in (("n", "t"), ("n", "n", "t"), ("n", "t", "n", "t")):
        cases.append((case_stream, (w, "raise", 0, 0, 0, "read")))
    for w in words(("n", "x", "d", "t"), n, ok=dok):
        for only in (0, 1) if "d" not in w else (0,):
            cases.append((case_stream, (w, "ignore", only, 0, 0, "read")))
    for w in words(("n", "x", "s"), n):
        for pol in ("ignore", "raise", "handler"):
            for only in (0, 1):
                if len(w) < n or pol == "raise":
                    cases.append((case_stream, (w, pol, only, 0, 0, "read")))
    for w in words(("m", "d", "s", "g", "x"), 3 if rep.tier == "quick" else 4, ok=dok):
        cases.append((case_stream, (w, "raise", 0, 0, 0, "iter")))
    rep.run(cases)


def rule_eof(rep):
    """C07"""
    n = 2 if rep.tier == "quick" else 4
    cases = []
    for w in words(("s", "n", "x", "e"), n, last=("", "T1", "T2", "T3") + (("T4", "T5") if n > 2 else ())):
        for pol in POLICY if len(w) < 3 else ("raise", "handler"):
            for how in ("read", "iter"):
                cases.append((case_stream, (w, pol, 0, 0, 0, how)))
    for w in (("T4",), ("T5",), ("s", "T4"), ("e", "T5")):
        for pol in ("ignore", "raise", "handler"):
            cases.append((case_stream, (w, pol, 0, 0, 0, "iter")))
    cases += [(case_pause, (k, p)) for k in range(13) for p in ("ignore", "raise", "handler")]
    rep.run(cases)


# ---- C53 position of the stream ----------------------------------------------------


def case_position(r, word, k, policy, validate, how, nmeaonly=0):
    """behind the k-th result the stream gives what follows in it"""
    it = engine()
    toks = [tokens(i, tk, nmeaonly) for i, tk in enumerate(word)]
    seen = [i for i, (_, e) in enumerate(toks) if e == "msg" or e is not None and POLICY[policy] == 2]
    at = seen[k - 1] + 1 if k else 0
    rest = S.cat([c for c, _ in toks[at:]], True) if toks[at:] else C(b"")
    st = it.newstate()
    stream = st.alloc("ext", None, [S.cat([c for c, _ in toks], True)], StreamModel())
    ob = f"{'.'.join(word)} {policy} v{validate} nmeaonly={nmeaonly} {how} behind result {k}"

    def client(cx):
        rd = cx.call(entry("NMEAReader"), [stream], {"validate": C(validate), "quitonerror": C(POLICY[policy]), "nmeaonly": C(bool(nmeaonly))})
        for _ in range(k):
            try:
                method(cx, rd, "read" if how == "read" else "__next__")
            except AbsRaise:
                pass
        src = cx.force(it.getattr(cx, rd, "datastream"))
        return Tup([C(src == stream), cx.force(method(cx, stream, "read"))])
    for o in run(st, client):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            continue
        compare(r, ob + " datastream", o.st, o.val.items[0], TRUE, "NMEAReader.datastream", f"{ob}: datastream is the stream given")
        compare(r, ob, o.st, o.val.items[1], rest, "NMEAReader.read", f"{ob}: the rest of the stream")


def rule_position(rep):
    """C53"""
    n = 3 if rep.tier == "quick" else 4
    cases = []
    for w in words(("s", "n", "e", "g", "d"), n):
        if ("d", "n") in zip(w, w[1:]):
            continue  # (the noise may complete a header)
        for pol in ("ignore", "raise"):
            toks = [tokens(i, tk, 0)[1] for i, tk in enumerate(w)]
            m = sum(1 for e in toks if e == "msg" or e is not None and pol == "raise")
            for how in ("read", "iter"):
                cases += [(case_position, (w, k, pol, 0, how)) for k in range(m + 1) if how == "read" or k == m]
    for w in (("t", "b", "t"), ("b", "t", "u", "t"), ("E", "t"), ("m", "t", "x", "l", "t"), ("B", "t", "t"), ("z", "z", "t"), ("p", "l", "s")):
        for pol in ("ignore", "raise", "handler"):
            for v in (0, 1, 3):
                if {"s", "p", "l", "z", "e", "g"} & set(w) and v or {"u", "b", "B"} & set(w) and v == 0:
                    continue
                if v == 1 and {"u", "B"} & set(w):
                    continue
                for no in (0, 1):
                    toks = [tokens(i, tk, no)[1] for i, tk in enumerate(w)]
                    m = sum(1 for e in toks if e == "msg" or e is not None and pol == "raise")
                    cases += [(case_position, (w, k, pol, v, "read", no)) for k in range(m + 1)]
    rep.run(cases)


def case_pause(r, cut, policy):
    """a serial port that pauses within a sentence"""
    it = engine()
    a, _ = tokens(0, "s", 0)
    c, _ = tokens(2, "g", 0)
    ps = [C(b"$"), C(b"G"), C(b"N"), C(b"XYZ,"), C(b"1.5"), C(b","), C(b"x"), C(b"*"), C(b"4"), C(b"2"), C(b"\r"), C(b"\n")]
    b = S.cat(ps, True)
    st = it.newstate()
    segs = tuple(S.cat(x, True) if x else C(b"") for x in ([a] + ps[:cut], ps[cut:] + [c]))
    port = st.alloc("ext", None, [Tup(segs)], PausingModel())
    ob = f"pause after part {cut} {policy}"
    kw = {"validate": C(0), "quitonerror": C(POLICY[policy])}
    if policy == "handler":
        kw["errorhandler"] = st.alloc("ext", None, None, Handler())

    def client(cx):
        rd = cx.call(entry("NMEAReader"), [port], kw)
        res = []
        for k in range(6):
            try:
                v = cx.force(method(cx, rd, "read"))
            except AbsRaise as e:
                res.append(("exc", e.exc, None, e.where))
                continue
            res.append(("ok", cx.force(B_items(cx, v)[0]), None, None))
        cx.it._last = res
        return Tup([])

    for o in it_explore(it, client, st):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            continue
        raws = [x[1] for x in o.val if x[0] == "ok" and x[1] is not NONE]
        excs = [x for x in o.val if x[0] == "exc"]
        wrong = [x for x in excs if not any(it.subclass(it.exc_class(o.st, x[1]), entry(n)) for n in LIBERR)]
        if wrong:
            bad(r, ob, o.st, wrong[0][3], f"{ob}: {classname(it.exc_class(o.st, wrong[0][1]))} escapes from read")
        elif excs and policy != "raise":
            bad(r, ob, o.st, excs[0][3], f"{ob}: an error is raised although errors are not to be raised")
        elif raws in ([a, c], [a, b, c]):
            r.ok(ob)
        else:
            bad(r, ob, o.st, "NMEAReader.read", f"{ob}: the sentences read are {raws}, expected {[a, c]}")


def case_settings(r, tk, validate, mode, user):
    """C08: the results are those of parse with the settings of the reader"""
    it = engine()
    msgs = {
        "poll": "$PUBX,05*36\r\n", "query": "$GPQ,GLL*2D\r\n", "qtm": "$PQTMCFGUART,R*36\r\n", "gll": "$GNGLL,,,,,,V,N*7A\r\n",
        "badck": "$GNGLL,,,,,,V,N*00\r\n", "unknown": "$GNXYZ,1,2*51\r\n", "user": "$GNUSR,3,x*16\r\n",
        "propuser": "$PQZZ,5*67\r\n", "propunknown": "$PZZQ,5*67\r\n", "malformed": "$GNGLL,1,2\r\n", "value": "$GNGLL,x,,,,,V,N*02\r\n",
        "undecodable": "$GNTXT,01,\u00ff*00\r\n",
    }
    st = it.newstate()
    raw = C(msgs[tk].encode("latin-1"))
    stream = st.alloc("ext", None, [raw], StreamModel())
    kw = {"validate": C(validate), "msgmode": C(mode)}
    if user is True:
        kw["userdefined"], st = lifted(st, {"USR": {"num": "IN", "txt": "ST"}, "QZZ": {"a": "IN"}})
    ob = f"{tk} v{validate} m{mode} {user}"

    def both(cx):
        out = []
        P = entry("NMEAReader.parse")
        try:
            out.append(("ok", snapshot(cx, cx.force(cx.call(P, [raw], kw)))))
        except AbsRaise as e:
            out.append(("exc", C(classname(cx.it.exc_class(cx.st, e.exc)))))
        rd = cx.call(entry("NMEAReader"), [stream], {**kw, "quitonerror": C(2)})
        if user == "another reader":
            more = cx.st.alloc("ext", None, [C(b"")], StreamModel())
            cx.call(entry("NMEAReader"), [more], {
                "validate": C(3 - validate), "msgmode": C((mode + 1) % 3), "quitonerror": C(0), "nmeaonly": TRUE,
                "userdefined": cx.lift({"GLL": {"other": "ST"}, "XYZ": {"other": "ST"}, "USR": {"other": "ST"}})})
        try:
            v = B_items(cx, cx.force(method(cx, rd, "read")))
            out.append(("ok", snapshot(cx, cx.force(v[1]))))
        except AbsRaise as e:
            out.append(("exc", C(classname(cx.it.exc_class(cx.st, e.exc)))))
        return Tup(Tup((C(k), v)) for k, v in out)
    for o in run(st, both):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
        else:
            compare(r, ob, o.st, o.val.items[1], o.val.items[0], "NMEAReader.read",
                    f"reading {msgs[tk]!r} with validate={validate}, msgmode={mode}, userdefined={user}")


def case_every(r, mode, key, validate, user):
    """C08 for a sentence of every definition"""
    from .msgs import subj, Scene, fieldcounts, MODE
    it = engine()
    sj = subj(mode, key)
    n, counts = fieldcounts(sj.defn, (1,))[0]
    sc = Scene(sj, n, counts)
    raw = sc.message()
    stream = sc.st.alloc("ext", None, [raw], StreamModel())
    ob = f"{mode} {key}/{n} v{validate} {user}"
    P = entry("NMEAReader.parse")

    def both(cx):
        kw = {"validate": C(validate), "msgmode": C(MODE[mode])}
        if user:
            kw["userdefined"] = cx.lift({"USR": {"num": "IN"}, sj.hdr[1:] if sj.hdr[0] == "P" else sj.hdr[2:]: {"own": "ST"}})
        out = []
        try:
            out.append(Tup([C("ok"), snapshot(cx, cx.force(cx.call(P, [raw], kw)))]))
        except AbsRaise as e:
            out.append(Tup([C("exc"), C(classname(cx.it.exc_class(cx.st, e.exc)))]))
        rd = cx.call(entry("NMEAReader"), [stream], {**kw, "quitonerror": C(2)})
        try:
            v = B_items(cx, cx.force(method(cx, rd, "read")))
            out.append(Tup([C("ok"), snapshot(cx, cx.force(v[1]))]))
        except AbsRaise as e:
            out.append(Tup([C("exc"), C(classname(cx.it.exc_class(cx.st, e.exc)))]))
        return Tup(out)
    for o in run(sc.st, both):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
        else:
            compare(r, ob, o.st, o.val.items[1], o.val.items[0], "NMEAReader.read", f"reading a sentence {sj} with validate={validate}, userdefined={user}")


def case_badmode(r):
    it = engine()
    m = atom("mode", "int")
    st = it.newstate()
    for k in (0, 1, 2):
        it.assume(st, T("eq", (m, C(k)), "bool"), False)
    stream = st.alloc("ext", None, [C(b"")], StreamModel())
    for o in it.run(entry("NMEAReader"), [stream], {"msgmode": m}, st=st):
        if o.kind == "exc" and is_lib(it, o, ("NMEAParseError",)):
            r.ok("invalid mode")
        else:
            bad(r, "invalid mode", o.st, o.where, f"a reader with a mode other than 0, 1, 2 gives {o.kind} {o.val!r}")


def rule_settings(rep):
    from .msgs import subjects
    cases = [(case_badmode, ())]
    for i, sj in enumerate(subjects()):
        for v in ((0, 2) if rep.tier == "quick" else (0, 1, 2, 3)):
            for u in ((bool(i % 2 == v // 2),) if rep.tier == "quick" else (False, True)):
                cases.append((case_every, (sj.mode, sj.key, v, u)))
    for tk in ("poll", "query", "qtm", "gll", "badck", "unknown", "user", "propuser", "propunknown", "malformed", "undecodable", "value"):
        for v in (0, 1, 2, 3):
            for m in (0, 1, 2):
                for u in (False, True, "another reader"):
                    cases.append((case_settings, (tk, v, m, u)))
    rep.run(cases)
