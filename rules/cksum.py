"""Checksum rules: C02 (the gate) and C03 (the function)."""

from __future__ import annotations

import itertools

from .common import *  # noqa: F401,F403
from .common import (C, T, Tup, Ref, Phi, NONE, TRUE, FALSE, EMPTY, S, engine, entry, sentence, compare, bad, is_lib,
                     excname, witness, atom, DELIMS, fld, cksum_atoms)
from .msgs import with_lits, alts, objects, spec
from .parsing import lits_of, unknown_id, run, lifted

CHARX = DELIMS


def chars(n, name="c", excl=CHARX):
    return [atom(f"{name}{i}", "str", minlen=1, maxlen=1, excl=excl) for i in range(n)]


CONTENTS = {
    # every character of the content is arbitrary, or a constant the definition accepts
    "known": lambda: ("GNGLL", [EMPTY, EMPTY, EMPTY, EMPTY, EMPTY, S.cat(chars(2), False), chars(1, "d")[0]]),
    "known short": lambda: ("GNGLL", []),
    "unknown": lambda: ("GNXYZ", [S.cat(chars(5), False)]),
    "unknown long": lambda: ("GNXYZ", [S.cat(chars(40), False), EMPTY, S.cat(chars(20, "e"), False)]),
    "proprietary": lambda: ("PTNL", [C("XYZ"), S.cat(chars(3), False)]),
    "user": lambda: ("GNUSR", [S.cat(chars(3), False)]),
    "header only": lambda: ("GNXYZ", []),
    "any fields": lambda: ("GNXYZ", [fld(0), fld(1)]),
    "fixed": lambda: ("GNGLL", [C(x) for x in "5327.04319,S,00214.41396,E,223232.00,A,A".split(",")]),
    "fixed zero": lambda: ("GNXYZ", [C("1")] + [C("B'")]),
}
NOSTRIP = frozenset("\r\n$")


def case_gate(r, name, validate, ckname, byt):
    it = engine()
    hdr, fields = CONTENTS[name]()
    ck = {"two": lambda: S.cat(cksum_atoms(), False),
          "any": lambda: atom("ck", "str", excl=NOSTRIP),
          "none": lambda: EMPTY}.get(ckname, lambda: C(ckname[1:]))()
    msg = sentence(hdr, fields, ck=ck, byt=byt)
    content = S.cat([C(hdr)] + [x for f in fields for x in (C(","), f)], False)
    kw = {"validate": C(validate)}
    st = it.newstate()
    if name == "user":
        kw["userdefined"], st = lifted(st, {"USR": {"abc": "CH"}})
    outs = it.run(entry("NMEAReader.parse"), [msg], kw, st=st)
    ob = f"{name} v{validate} {ckname} {'bytes' if byt else 'text'}"
    gate = validate & 1
    for o in outs:
        vs = [([], None)] if o.kind == "exc" else objects(o)
        for lits, v in vs:
            s = with_lits(o.st, lits)
            if s is None:
                continue
            if not gate:
                if o.kind == "exc":
                    bad(r, ob, s, o.where, f"checksum is not validated but parsing raises {sorted(excname(it, o))}")
                elif isinstance(v, Ref):
                    r.ok(ob)
                else:
                    bad(r, ob, s, o.where, f"parse returns {v!r}")
                continue
            if o.kind == "exc" and not is_lib(it, o, ("NMEAParseError",)):
                bad(r, ob, s, o.where, f"parsing raises {sorted(excname(it, o))}, not a parse error")
                continue
            if o.kind != "exc" and not isinstance(v, Ref):
                bad(r, ob, s, o.where, f"parse returns {v!r}")
                continue
            want = o.kind != "exc"
            for l2, k2, w, _ in alts(lambda cx: cx.it.truthv(cx, cx.call(spec("right"), [ck, content])), s):
                if k2 != "ret":
                    r.ok(ob + " unencodable")
                    continue
                s2 = with_lits(s, l2)
                if s2 is not None and not isinstance(w, C):
                    s3 = with_lits(s2, [(w, not want)])
                    if s3 is None:
                        r.ok(ob)
                        continue
                    s2, w = s3, C(not want)
                if s2 is None or w.v == want:
                    r.ok(ob)
                else:
                    bad(r, ob, s2, o.where, f"a sentence whose checksum is {'wrong' if want else 'right'} is "
                        f"{'accepted' if want else 'rejected'}")


def rule_gate(rep):
    cases = []
    for name in CONTENTS:
        for v in (0, 1, 2, 3):
            if v & 2 and name not in ("known", "known short", "user"):
                continue
            for ck in ("two", "any", "none"):
                for b in (True, False):
                    cases.append((case_gate, (name, v, ck, b)))
    # the right checksum written in some other way than with two hexadecimal digits
    for pre, post in itertools.product(("", " ", "0", "+", "0x", "_"), ("", " ", "0", ".0", "h", "\t", "\x00", ",", "*")):
        for b in (True, False):
            cases.append((case_gate, ("fixed", 1, "=" + pre + "68" + post, b)))
    for t in ("6_8", "6 8", "86", "104", "\uff16\uff18", "\u0666\u0668", "7B", "7b"):
        cases.append((case_gate, ("fixed", 1, "=" + t, True)))
    for t in ("0", "6", "06", "6 ", " 6", "6\t", "006", "+6", "60"):
        cases.append((case_gate, ("fixed zero", 1, "=" + t, True)))
    rep.run(cases)


def case_calc(r, kind, n):
    it = engine()
    if kind == "ascii":
        text = S.cat([atom(f"c{i}", "str", minlen=1, maxlen=1, excl=frozenset()) for i in range(n)] or [EMPTY], False)
    elif kind == "sentence":
        text = S.cat([C("GNGLL,")] + chars(n) + [C(",A,\u00e9")], False)
    elif kind == "mixed":
        text = S.cat([x for i in range(n) for x in (C("\u00fc,"), atom(f"c{i}", "str", minlen=1, maxlen=1))], False)
    else:
        text = kind if isinstance(kind, C) else C(kind)
    ob = f"checksum {kind} {n}"
    for o in it.run(entry("nmeahelpers.calc_checksum"), [text]):
        for l2, k2, e, _ in alts(lambda cx: cx.call(spec("checksum"), [text]), o.st):
            s = with_lits(o.st, l2)
            if s is None:
                continue
            if k2 != "ret":
                r.ok(ob + " unencodable")
            elif o.kind == "exc":
                bad(r, ob, s, o.where, f"calc_checksum raises {sorted(excname(it, o))}")
            else:
                for l3, v in lits_of(o.val):
                    s2 = with_lits(s, l3)
                    if s2 is not None:
                        compare(r, ob, s2, v, e, o.where or "calc_checksum", "calc_checksum")


def rule_calc(rep):
    cases = []
    top = 20 if rep.tier == "quick" else 120
    for k in ("ascii", "sentence", "mixed"):
        for n in list(range(0, top)):
            cases.append((case_calc, (k, n)))
    for i in range(256):
        cases.append((case_calc, (chr(i), 1)))
    rep.run(cases)
