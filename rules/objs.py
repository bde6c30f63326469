"""Rules about message objects: purity, variants, immutability, aliasing, repr, str, user definitions."""

from __future__ import annotations

import ast

from .common import *  # noqa: F401,F403
from .common import (C, T, Tup, Ref, Phi, Bi, NONE, TRUE, FALSE, EMPTY, UNBOUND, S, AbsRaise, Infeasible, Unsupported,
                     engine, entry, fld, sentence, compare, bad, is_lib, excname, attrs_of, public, expand,
                     witness, atom, DELIMS, contains_term, classname)
from .msgs import (Subj, Scene, subjects, subj, parse, fieldcounts, match, fetch, with_lits, alts, objects, spec, tab,
                   MODE, loc, flatcount, groupof, TABLES, cond_state, welltyped, valid_states)
from .parsing import run, lifted, method, lits_of, messages, value_check, _items, unknown_id, variants, Ad
from .reader import snapshot
from .create import Made, creatable, made


def snap(cx, m):
    return Tup([snapshot(cx, m), cx.it.getattr(cx, m, "talker"), cx.it.getattr(cx, m, "msgID")])


NAMES = {"USR": {"a__b": "ST", "x_": "CH", "Z9": "ST", "latitude": "ST", "é": "ST", "msgId": "ST"}}
USER = {"USR": {"num": "IN", "txt": "ST", "group": ("None", {"a": "DE", "b": "CH"})}}


def subject_msgs(r, ob, kind):
    """(state, message) for every way a message of this kind comes about; failures belong to other properties"""
    it = engine()
    what = kind[0]
    if what == "parsed":
        _, mode, key, n, counts = kind
        sc = Scene(subj(mode, key), n, counts)
        outs = parse(sc)
    elif what == "created":
        _, mode, key, n, counts = kind
        outs = Made(subj(mode, key), n, counts).create()
    elif what == "unknown":
        ident = atom("id", "str", excl=DELIMS)
        st = unknown_id(it.newstate(), ident)
        outs = it.run(entry("NMEAReader.parse"), [sentence(S.cat([talker_of(kind[1]), ident], False), [fld(i) for i in range(kind[2])])],
                      {"validate": C(0)}, st=st)
    elif what == "user":
        d, st = lifted(it.newstate(), USER)
        outs = it.run(entry("NMEAReader.parse"), [sentence("GNUSR", [C("7"), fld(1), C("1.5"), fld(3)])],
                      {"validate": C(0), "userdefined": d}, st=st)
    elif what == "names":
        d, st = lifted(it.newstate(), NAMES)
        outs = it.run(entry("NMEAReader.parse"), [sentence("GNUSR", [fld(i) for i in range(6)])], {"validate": C(0), "userdefined": d}, st=st)
    elif what == "payload":
        ident = atom("id", "str", excl=DELIMS)
        st = unknown_id(it.newstate(), ident)
        outs = it.do(lambda cx: cx.call(entry("NMEAMessage"), [talker_of(kind[1]), ident, C(0)],
                                        {"payload": cx.newlist([fld(i) for i in range(kind[2])])}), st)
    for o in outs:
        if o.kind == "exc":
            continue
        for lits, v in objects(o):
            st = with_lits(o.st, lits)
            if st is not None and isinstance(v, Ref):
                yield st, v


def talker_of(t):
    """a given talker, or (None) any two characters"""
    if t is not None:
        return C(t)
    return S.cat([atom("t0", "str", minlen=1, maxlen=1, excl=frozenset(",*$\r\nP")), atom("t1", "str", minlen=1, maxlen=1, excl=DELIMS)], False)


def kinds(full, sizes=(2,)):
    out = []
    for sj in subjects():
        for n, counts in fieldcounts(sj.defn, sizes):
            out.append(("parsed", sj.mode, sj.key, n, counts))
            if creatable(sj):
                out.append(("created", sj.mode, sj.key, n, counts))
    for t in ("GN", "P"):
        for n in (0, 1, 3):
            out += [("unknown", t, n), ("payload", t, n)]
    out += [("unknown", None, 2), ("payload", None, 2)]
    out += [("user",), ("names",)]
    return out


# ---- C21 immutability -----------------------------------------------------------------


def case_frozen(r, kind):
    it = engine()
    ob = " ".join(str(k) for k in kind[:4])
    for st, m in subject_msgs(r, ob, kind):
        names = [k for k, v in attrs_of(it, st, m).items() if isinstance(k, str) and v is not UNBOUND]
        names += ["identity", "payload", "talker", "msgID", "checksum", "msgmode", "lat", "lon", "new_attribute"]
        names = list(dict.fromkeys(names))
        if len(names) > 40:
            names = names[:20] + names[-20:]
        todo = [(C(n), op) for n in names for op in ("__setattr__", "__delattr__")]
        todo += [(atom("anyname", "str"), op) for op in ("__setattr__", "__delattr__")]

        def client(cx):
            before = snap(cx, m)
            res = []
            for name, op in todo:
                try:
                    if isinstance(name, C):
                        if op == "__setattr__":
                            it.setattr(cx, m, name.v, atom("newvalue", "any"))
                        else:
                            it.delattr(cx, m, name.v)
                    else:
                        method(cx, m, op, *([name] + ([atom("newvalue", "any")] if op == "__setattr__" else [])))
                    res.append(C("no error"))
                    return Tup([Tup(res), before, before])
                except AbsRaise as e:
                    res.append(C("/".join(sorted(classname(it.exc_class(cx.st, v)) for _, v in lits_of(e.exc)))))
            return Tup([Tup(res), before, snap(cx, m)])
        for o in run(st, client):
            if o.kind == "exc":
                bad(r, ob, o.st, o.where, f"{ob}: the message is unusable after attempts to change it: {sorted(excname(it, o))}")
                continue
            res, before, after = o.val.items
            for (name, op), x in zip(todo, res.items):
                if x.v != "NMEAMessageError":
                    bad(r, f"{ob} {op} {name!r}", o.st, "NMEAMessage." + op,
                        f"{ob}: {'setting' if op == '__setattr__' else 'deleting'} attribute {name!r} gives {x.v}, expected NMEAMessageError")
                else:
                    r.ok(f"{ob} {op}")
            compare(r, f"{ob} unchanged", o.st, after, before, "NMEAMessage.__setattr__", f"{ob}: message after attempts to change it")


def rule_frozen(rep):
    full = rep.tier != "quick"
    ks = kinds(full, (1, 3) if full else (1,))
    rep.run([(case_frozen, (k,)) for k in ks])


# ---- C22 aliasing -----------------------------------------------------------------------

MUT = {
    "append": lambda cx, l: method(cx, l, "append", C("changed")),
    "clear": lambda cx, l: method(cx, l, "clear"),
    "pop": lambda cx, l: method(cx, l, "pop"),
    "insert": lambda cx, l: method(cx, l, "insert", C(0), C("changed")),
    "item": lambda cx, l: method(cx, l, "__setitem__", C(0), C("changed")),
}


def mutate(cx, l, how):
    try:
        MUT[how](cx, l)
    except AbsRaise as e:
        names = {classname(cx.it.exc_class(cx.st, v)) for _, v in lits_of(e.exc)}
        if not names <= {"AttributeError", "TypeError", "IndexError", "NMEAMessageError"}:
            raise


def same_after(r, ob, st, fn, what):
    """fn(cx) -> (before, after) snapshots"""
    it = engine()
    for o in run(st, lambda cx: Tup(fn(cx))):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: {what} raises {sorted(excname(it, o))}")
            continue
        for lits, v in lits_of(o.val):
            s = with_lits(o.st, lits)
            if s is not None:
                compare(r, ob, s, v.items[1], v.items[0], "NMEAMessage", f"{ob}: {what}")


def case_alias(r, kind):
    it = engine()
    ob = " ".join(str(k) for k in kind[:4])
    for st, m in subject_msgs(r, ob, kind):
        def client(cx):
            a = snap(cx, m)
            for how in MUT:
                mutate(cx, cx.force(it.getattr(cx, m, "payload")), how)
            for w in ("serialize", "__str__", "__repr__"):
                method(cx, m, w)
            return a, snap(cx, m)
        same_after(r, ob, st, client, "message after changes to the list obtained from payload, and after serialize, str and repr")


def case_alias_args(r, what, how):
    """containers handed over when the message is made"""
    it = engine()
    st = it.newstate()
    ob = f"{what} {how}"

    def client(cx):
        if what == "payload":
            l = cx.newlist([fld(0), fld(1)])
            m = cx.force(cx.call(entry("NMEAMessage"), [C("GN"), C("XYZ"), C(0)], {"payload": l}))
            a = snap(cx, m)
            before = Tup(_items(cx, l))
            if tuple(before.items) != (fld(0), fld(1)):
                return a, NONE
            mutate(cx, l, how)
            return a, snap(cx, m)
        d = cx.lift(USER)
        inner = cx.force(cx.it.getitem(cx, d, C("USR"))) if hasattr(cx.it, "getitem") else None
        if what == "userdefined parse":
            m = cx.force(cx.call(entry("NMEAReader.parse"), [sentence("GNUSR", [C("7"), fld(1), C("1.5"), fld(3)])],
                                 {"validate": C(0), "userdefined": d}))
        else:
            m = cx.force(cx.call(entry("NMEAMessage"), [C("GN"), C("USR"), C(0)],
                                 {"userdefined": d, "num": C(3), "txt": fld(1), "a_01": C(1.5), "b_01": fld(3)}))
        a = snap(cx, m)
        if how == "untouched":
            return Tup([a, C(repr(USER))]), Tup([snap(cx, m), C(repr(unlift(it, d, cx.st)))])
        method(cx, d, {"clear": "clear", "pop": "popitem"}[how])
        return a, snap(cx, m)
    same_after(r, ob, st, client, {"untouched": "the user's definitions after use"}.get(how, f"message after {how} on the {what} argument"))


def case_user_untouched(r, what, arg):
    """the user's definitions are not altered by messages that are not theirs"""
    it = engine()
    st = it.newstate()
    if what == "unknown":
        ident = atom("id", "str", excl=DELIMS)
        st = with_lits(unknown_id(st, ident), [(T("eq", (ident, C("USR")), "bool"), False)])
        msg, mode = sentence(S.cat([C(arg), ident], False), [fld(0), fld(1)]), 0
    else:
        sc = Scene(subj(*arg[:2]), *arg[2:])
        msg, mode, st = sc.message(), MODE[arg[0]], sc.st
    ob = f"user definitions after {what} {arg[:2]}"

    def client(cx):
        d = cx.lift(USER)
        cx.call(entry("NMEAReader.parse"), [msg], {"validate": C(0), "msgmode": C(mode), "userdefined": d})
        if len(cx.st.get(d.oid).data) != len(USER):
            return C(list(USER).__repr__()), C(f"{len(cx.st.get(d.oid).data)} definitions")
        return C(repr(USER)), C(repr(unlift(cx.it, d, cx.st)))
    same_after(r, ob, st, client, "the user's definitions after use")


def rule_alias(rep):
    full = rep.tier != "quick"
    cases = [(case_alias, (k,)) for k in kinds(full, (1, 3) if full else (1,))]
    cases += [(case_alias_args, ("payload", h)) for h in MUT]
    for w in ("userdefined parse", "userdefined create"):
        for h in ("untouched", "clear", "pop"):
            cases.append((case_alias_args, (w, h)))
    cases += [(case_user_untouched, ("unknown", t)) for t in ("GN", "P", "XX")]
    for sj in subjects():
        n, counts = fieldcounts(sj.defn, (1,))[0]
        cases.append((case_user_untouched, ("known", (sj.mode, sj.key, n, counts))))
    rep.run(cases)


# ---- C23 eval(repr) -----------------------------------------------------------------------


class Src(Exception):
    pass


def pieces(v):
    return S.parts(v)


def reprsrc(v):
    """(source text, placeholder -> value) of a repr term: repr() of a value stands for the value"""
    src, ph = "", {}
    for p in pieces(v):
        if isinstance(p, C):
            src += p.v
        elif isinstance(p, T) and p.op == "repr":
            n = f"__p{len(ph)}__"
            ph[n] = p.args[0]
            src += n
        elif isinstance(p, T) and p.op in ("str",) and getattr(p.args[0], "ty", None) in ("int", "bool"):
            n = f"__p{len(ph)}__"
            ph[n] = p.args[0]
            src += n
        else:
            raise Src(repr(p))
    return src, ph


def evaluate(cx, node, ph):
    """value of an expression of a repr"""
    it = cx.it
    if isinstance(node, ast.Expression):
        return evaluate(cx, node.body, ph)
    if isinstance(node, ast.Constant):
        return C(node.value)
    if isinstance(node, ast.Name):
        if node.id in ph:
            return ph[node.id]
        return entry(node.id)
    if isinstance(node, ast.List):
        return cx.newlist([evaluate(cx, e, ph) for e in node.elts])
    if isinstance(node, ast.Tuple):
        return Tup(evaluate(cx, e, ph) for e in node.elts)
    if isinstance(node, ast.Dict):
        return cx.newdict({evaluate(cx, k, ph): evaluate(cx, v, ph) for k, v in zip(node.keys, node.values)})
    if isinstance(node, ast.Call):
        f = evaluate(cx, node.func, ph)
        return cx.call(f, [evaluate(cx, a, ph) for a in node.args], {k.arg: evaluate(cx, k.value, ph) for k in node.keywords})
    raise Unsupported(f"repr contains {type(node).__name__}")


def case_repr(r, kind):
    it = engine()
    ob = " ".join(str(k) for k in kind[:4])
    for st, m in subject_msgs(r, ob, kind):
        for o in run(st, lambda cx: cx.call(Bi("repr"), [m])):
            if o.kind == "exc":
                bad(r, ob, o.st, o.where, f"{ob}: repr raises {sorted(excname(it, o))}")
                continue
            for lits, v in lits_of(o.val):
                s = with_lits(o.st, lits)
                if s is None:
                    continue
                try:
                    src, ph = reprsrc(v)
                except Src as e:
                    unquoted(r, ob, s, v)
                    continue
                try:
                    tree = ast.parse(src, mode="eval")
                except SyntaxError as e:
                    bad(r, ob, s, "NMEAMessage.__repr__", f"{ob}: repr {v!r} is not an expression")
                    continue

                def client(cx):
                    m2 = cx.force(evaluate(cx, tree, ph))
                    return Tup((content(cx, m, kind[0] != "created"), content(cx, m2, kind[0] != "created")))
                try:
                    outs = run(s, client)
                except Anchor as e:
                    bad(r, ob, s, "NMEAMessage.__repr__", f"{ob}: repr names {e}, which the package does not export")
                    continue
                for o2 in outs:
                    if o2.kind == "exc":
                        bad(r, ob, o2.st, o2.where, f"{ob}: evaluating repr {v!r} raises {sorted(excname(it, o2))}")
                    else:
                        compare(r, ob, o2.st, o2.val.items[1], o2.val.items[0], "NMEAMessage.__repr__", f"{ob}: eval(repr(msg))")


def content(cx, m, values):
    """observable content; the values of a created message are stored with the resolution of their field"""
    it = cx.it
    d = public(attrs_of(it, cx.st, m))
    if not values:
        d = {k: NONE for k in d}
    return Tup([it.getattr(cx, m, "identity"), it.getattr(cx, m, "msgmode"), it.getattr(cx, m, "talker"),
                it.getattr(cx, m, "msgID"), Tup(_items(cx, it.getattr(cx, m, "payload"))),
                Tup(Tup((C(k), cx.force(v))) for k, v in d.items())])


def unquoted(r, ob, st, v):
    """a repr that contains text as it is: find texts for which it is no valid expression of the same value"""
    for seed in range(6):
        try:
            val = witness.solve(st.flog, 300, seed=seed + 1, extra=(v,))
        except witness.Undef:
            val = None
        if val is None:
            continue
        for name in list(val):
            if isinstance(val[name], str):
                val = dict(val)
                for probe in ("'", '"', "\\", "a'b\"c"):
                    v2 = dict(val)
                    v2[name] = probe
                    try:
                        if not witness.hold(st.flog, v2, {}):
                            continue
                        text = witness.ev(v, v2, {})
                    except (witness.Undef, witness.Err):
                        continue
                    try:
                        tree = ast.parse(text, mode="eval")
                        ok = any(isinstance(n, ast.Constant) and n.value == probe for n in ast.walk(tree))
                    except (SyntaxError, ValueError):
                        ok = False
                    if not ok:
                        r.viol(ob, "NMEAMessage.__repr__", f"{ob}: for field text {probe!r} repr is {text!r}, which is not an expression of the message")
                        return
    r.und(ob, f"repr {v!r} inserts text as it is")


def rule_repr(rep):
    full = rep.tier != "quick"
    rep.run([(case_repr, (k,)) for k in kinds(full, (0, 2, 5) if full else (2,)) if k[0] not in ("user", "names")])


# ---- C40 str --------------------------------------------------------------------------------


def case_str(r, kind):
    it = engine()
    ob = " ".join(str(k) for k in kind[:4])
    unknown = kind[0] in ("unknown", "payload")
    for st, m in subject_msgs(r, ob, kind):
        def client(cx):
            ps = [C("<NMEA("), cx.force(it.getattr(cx, m, "identity"))]
            if unknown:
                ps.append(C(", NOMINAL"))
            for k, v in public(attrs_of(it, cx.st, m)).items():
                ps += [C(f", {k}="), cx.force(cx.call(Bi("str"), [cx.force(v)]))]
            ps.append(C(")>"))
            return Tup((cx.force(cx.call(Bi("str"), [m])), S.cat(ps, False)))
        for o in run(st, client):
            if o.kind == "exc":
                bad(r, ob, o.st, o.where, f"{ob}: str raises {sorted(excname(it, o))}")
                continue
            for lits, v in lits_of(o.val):
                s = with_lits(o.st, lits)
                if s is not None:
                    compare(r, ob, s, v.items[0], v.items[1], "NMEAMessage.__str__", f"{ob}: str(msg)")


def rule_str(rep):
    full = rep.tier != "quick"
    rep.run([(case_str, (k,)) for k in kinds(full, (0, 2, 5) if full else (2,))])


# ---- C09 purity -----------------------------------------------------------------------------

OTHERS = {
    "variant": (b"$PQTMCFGUART,W,1,115200*00\r\n", 1),
    "nak": (b"$PQTMCFGUART,ERROR,1*00\r\n", 0),
    "group": (b"$GNGSV,1,1,02,01,10,020,30,02,11,021,31,1*00\r\n", 0),
    "unknown": (b"$GNXYZ,1,2,3*00\r\n", 0),
    "malformed": (b"$GNGSV,x,1,02*00\r\n", 0),
    "prefix": (b"$PUBX,00,081350.00,4717.113210,N,00833.915187,E,546.589,G3,2.1,2.0,0.007,77.52,0.007,,0.92,1.19,0.77,9,0,0*00\r\n", 0),
    "bracket": (b"$PSSNSNC,1,2,1*00\r\n", 0),
    "stmd": (b"$PSTMDRSENMSG,30,1,2,3,4*00\r\n", 0),
    "poll": (b"$PUBX,00*00\r\n", 2),
}


def case_pure(r, mode, key, n, counts, other):
    it = engine()
    sj = subj(mode, key)
    sc = Scene(sj, n, counts)
    msg = sc.message()
    ob = f"{mode} {key}/{n} after {other}"
    P = entry("NMEAReader.parse")

    def client(cx):
        kw = {"msgmode": C(MODE[mode]), "validate": C(0)}
        m1 = cx.force(cx.call(P, [msg], kw))
        s1 = snap(cx, m1)
        interpose(cx)
        m2 = cx.force(cx.call(P, [msg], kw))
        s2 = Tup([s1, snap(cx, m1), snap(cx, m2)])
        for oid in [k for k in cx.st.heap if cx.st.isbase(k)]:
            del cx.st.heap[oid]  # as after the import
        interpose(cx)
        return Tup(s2.items + (snap(cx, cx.force(cx.call(P, [msg], kw))),))

    def interpose(cx):
        if other == "twins":  # sentences of the same identifier, in all modes
            hdr = sj.hdr
            more = [((f"${hdr}," + ",".join([str(sj.fixed.get(i, 1)) for i in range(k)]) + "*00\r\n").encode(), md) for md in (0, 1, 2) for k in (n, max(1, n - 1))]
        elif other == "user":
            more = [(b"$GNUSR,1,2,3,4*00\r\n", 0)]
        else:
            more = [OTHERS[other]]
        for raw, md in more:
            kw2 = {"msgmode": C(md), "validate": C(0)}
            if other == "user":
                kw2["userdefined"] = cx.lift({"USR": {"n": "IN"}, key: {"zzz": "ST"}})
            try:
                cx.call(P, [C(raw)], kw2)
            except AbsRaise:
                pass

    for o in run(sc.st, client):
        if o.kind == "exc":
            if is_lib(it, o, ("NMEATypeError",)):
                r.ok(ob + " malformed")
            else:
                bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            continue
        for lits, v in lits_of(o.val):
            s = with_lits(o.st, lits)
            if s is None:
                continue
            a, b, c, d = v.items
            compare(r, ob + " third", s, d, a, "NMEAReader.parse", f"{ob}: parsing the bytes only after the others")
            compare(r, ob + " first", s, b, a, "NMEAReader.parse", f"{ob}: the first message after the second parse")
            compare(r, ob + " second", s, c, a, "NMEAReader.parse", f"{ob}: parsing the same bytes again")
            t = contains_term(a, ("now", "clockus"))
            r.check(t is None, ob + " clock", "NMEAReader.parse", f"{ob}: the parsed message depends on the time of day ({t!r})")
            t = contains_term(a, ("havoc", "random"))
            r.check(t is None, ob + " random", "NMEAReader.parse", f"{ob}: the parsed message depends on {t!r}")


def case_user_leak(r, kind):
    """definitions given for one sentence or reader do not affect another"""
    it = engine()
    P = entry("NMEAReader.parse")
    f0, f1 = fld(0), fld(1)
    ob = f"user definitions {kind}"

    def client(cx):
        raw = sentence("GNUSR", [f0, f1])
        d = cx.lift({"USR": {"first": "ST", "second": "ST"}})
        d2 = cx.lift({"USR": {"other": "ST", "names": "ST"}})
        kw = {"validate": C(0)}
        if kind == "then none":
            cx.call(P, [raw], {**kw, "userdefined": d})
            return Tup([names(cx, cx.call(P, [raw], kw)), C(("field_01", "field_02"))])
        if kind == "none then":
            cx.call(P, [raw], kw)
            return Tup([names(cx, cx.call(P, [raw], {**kw, "userdefined": d})), C(("first", "second"))])
        if kind == "then other":
            cx.call(P, [raw], {**kw, "userdefined": d})
            return Tup([names(cx, cx.call(P, [raw], {**kw, "userdefined": d2})), C(("other", "names"))])
        cx.call(entry("NMEAMessage"), [C("GN"), C("USR"), C(0)], {"userdefined": d})
        return Tup([names(cx, cx.call(P, [raw], kw)), C(("field_01", "field_02"))])

    def names(cx, m):
        return C(tuple(public(attrs_of(it, cx.st, cx.force(m)))))
    for o in run(it.newstate(), client):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
        else:
            compare(r, ob, o.st, o.val.items[0], o.val.items[1], "NMEAReader.parse", f"{ob}: attributes")


def rule_pure(rep):
    full = rep.tier != "quick"
    cases = []
    names = list(OTHERS) + ["user"]
    twins = {}
    for sj in subjects():
        twins.setdefault(sj.hdr, set()).add((sj.mode, sj.key))
    k = 0
    for sj in subjects():
        for n, counts in fieldcounts(sj.defn, (1, 2) if full else (2,)):
            os_ = names if full else [names[k % len(names)], names[(k + 4) % len(names)]]
            k += 1
            if full or len(twins[sj.hdr]) > 1:
                os_ = os_ + ["twins"]
            for o in os_:
                cases.append((case_pure, (sj.mode, sj.key, n, counts, o)))
    cases += [(case_user_leak, (k,)) for k in ("then none", "none then", "then other", "create then none")]
    from .extra import elsewhere, readers
    cases += readers() + elsewhere(full)
    rep.run(cases)


# ---- C15 variants ---------------------------------------------------------------------------


def case_variant(r, mode, key, n, counts):
    """a sentence with the fields of a variant has the attributes of that variant"""
    it = engine()
    sj = subj(mode, key)
    sc = Scene(sj, n, counts)
    names = [a for a, _, _ in sc.layout]
    ob = f"{mode} {key}/{n}"
    for st, m in messages(r, ob, sc, parse(sc)):
        got = list(public(attrs_of(it, st, m)))
        if got == names:
            r.ok(ob)
        else:
            bad(r, ob, st, loc(), f"{sj}: a sentence of {n} fields gives {got}, expected {names}")
        value_check(r, ob + " identity", st, lambda cx: cx.it.getattr(cx, m, "identity"), C(sj.ident), f"{sj}: identity")


FIRST = {  # texts of a first field that do not select another variant
    "QTMSN": ("1A2B", "A1", "", "-1", "1.5", "ERROR", "OK", "W"),
    "QTMSN_ALT": ("0", "1", "12", "007"),
}


def case_first(r, mode, key, n, counts, text):
    """the variant does not depend on more of the first field than documented"""
    sj = subj(mode, key)
    typ = Scene(sj, n, counts).layout[0][1]
    strict = typ in ("ST", "CH", "QS", "HX") or (typ == "IN" and text.isdigit())
    sc = Scene(sj, n, counts, valid=strict)
    sc.fields[0] = C(text)
    names = [a for a, _, _ in sc.layout]
    ob = f"{mode} {key}/{n} first {text!r}"
    for o in parse(sc):
        if o.kind == "exc":
            if not strict and is_lib(engine(), o, ("NMEATypeError",)):
                r.ok(ob + " malformed")
            else:
                bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(engine(), o))}")
            continue
        for lits, v in objects(o):
            st = with_lits(o.st, lits)
            if st is None:
                continue
            got = list(public(attrs_of(engine(), st, v))) if isinstance(v, Ref) else v
            if got == names:
                r.ok(ob)
            else:
                bad(r, ob, st, loc(), f"{sj}: a sentence of {n} fields beginning with {text!r} gives {got}, expected {names}")


def case_keywords(r, mode, key, n, counts):
    it = engine()
    sj = subj(mode, key)
    mk = Made(sj, n, counts)
    names = [a for a, _, _ in mk.layout]
    ob = f"{mode} {key}/{n} keywords"
    for st, m in made(r, ob, mk, mk.create()):
        got = list(public(attrs_of(it, st, m)))
        if got == names:
            r.ok(ob)
        else:
            bad(r, ob, st, "NMEAMessage (created)", f"{sj}: keywords {names} give {got}")


def case_response(r, base, kind):
    """OK and ERROR responses of commands"""
    it = engine()
    code = atom("code", "int", lo=0, hi=99)
    if kind == "OK":
        fields, exp = [C("OK")], [("status", C("OK"))]
    else:
        fields, exp = [C("ERROR"), T("str", (code,), "str")], [("status", C("ERROR")), ("errcode", code)]
    ob = f"{base} {kind}"
    for o in it.run(entry("NMEAReader.parse"), [sentence("P" + base, fields)], {"validate": C(0)}):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            continue
        for lits, m in objects(o):
            st = with_lits(o.st, lits)
            if st is None:
                continue
            d = public(attrs_of(it, st, m))
            if list(d) != [k for k, _ in exp]:
                bad(r, ob, st, loc(), f"response P{base},{kind}: attributes {list(d)}, expected {[k for k, _ in exp]}")
                continue
            for k, v in exp:
                compare(r, f"{ob} {k}", st, d[k], v, loc(), f"response P{base},{kind}: {k}")


def case_prefix_unknown(r, prefix, nf, mode, validate):
    """a sub-identifier without a definition"""
    it = engine()
    f0 = atom("sub", "str", minlen=3, excl=DELIMS)
    st = unknown_id(it.newstate(), S.cat([C(prefix), f0], False))
    up = it.do(lambda cx: cx.call(spec("upper"), [f0]), st.fork())[0].val
    for k in {k for t in TABLES.values() for k in tab(t)} | set(tab("NMEA_MSGIDS_PROP")):
        if k.startswith(prefix) and len(k) > len(prefix):
            for x in (f0, up):
                it.assume(st, T("eq", (x, C(k[len(prefix):])), "bool"), False)
    fields = [f0] + [fld(i) for i in range(1, nf)]
    if prefix == "ASHR":
        st = cond_state(st, "notdigit", [f0])
    ob = f"P{prefix} unknown {nf} m{mode} v{validate}"
    for o in it.run(entry("NMEAReader.parse"), [sentence("P" + prefix, fields)], {"validate": C(validate), "msgmode": C(mode)}, st=st):
        if o.kind == "exc":
            if validate & 2 and is_lib(it, o, ("NMEAParseError",)):
                r.ok(ob)
            else:
                bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            continue
        if validate & 2:
            bad(r, ob, o.st, "NMEAReader.parse", f"{ob}: accepted although identifiers are validated")
            continue
        for lits, m in objects(o):
            s = with_lits(o.st, lits)
            if s is None:
                continue
            got = list(public(attrs_of(it, s, m)))
            exp = [f"field_{i + 1:02d}" for i in range(nf)]
            if got != exp:
                bad(r, ob, s, loc(), f"{ob}: attributes {got}, expected {exp}")
                continue
            for f, k in zip(fields, exp):
                match(r, f"{ob} {k}", s, fetch(s, m, k), [([], "ret", f, None)], loc(), k)


def near_prefixes():
    """(prefix, text) close to the sub-identifiers of the tables without being one"""
    out = set()
    for p in tab("NMEA_PREFIX_PROP"):
        known = {k[len(p):] for t in TABLES.values() for k in tab(t) if k.startswith(p)} | {k[len(p):] for k in tab("NMEA_MSGIDS_PROP") if k.startswith(p)}
        for k in known - {""}:
            for x in ("0" + k, k + "0", k[:-1], k[1:], k + " ", " " + k, k + "_", k[:-1] + "?", k * 2):
                # (the library compares sub-identifiers in capitals)
                if x and not any(y.startswith(x.upper()) for y in known) and x.upper() not in known and x.upper() not in ("0", "1"):
                    if not (p == "ASHR" and len(x) > 1 and x[1].isdigit()) and len(x) > 1:
                        out.add((p, x))
    return sorted(out)


def case_prefix_near(r, prefix, text, mode, nf):
    """only the sub-identifiers that are defined select a definition"""
    it = engine()
    fields = [C(text)] + [fld(i) for i in range(1, nf)]
    ob = f"P{prefix},{text!r} m{mode}/{nf}"
    for o in it.run(entry("NMEAReader.parse"), [sentence("P" + prefix, fields)], {"validate": C(0), "msgmode": C(mode)}):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            continue
        for lits, m in objects(o):
            s = with_lits(o.st, lits)
            if s is None:
                continue
            got = list(public(attrs_of(it, s, m)))
            exp = [f"field_{i + 1:02d}" for i in range(nf)]
            if got != exp:
                bad(r, ob, s, loc(), f"{ob}: attributes {got}, expected {exp}")
                continue
            for f, k in zip(fields, exp):
                match(r, f"{ob} {k}", s, fetch(s, m, k), [([], "ret", f, None)], loc(), k)


def rule_variant(rep):
    full = rep.tier != "quick"
    cases = []
    for sj in subjects(prop=(1,)):
        for n, counts in fieldcounts(sj.defn, (0, 1, 2, 4) if full else (1,)):
            cases.append((case_variant, (sj.mode, sj.key, n, counts)))
            if creatable(sj):
                cases.append((case_keywords, (sj.mode, sj.key, n, counts)))
    for sj in subjects(("GET",), (1,)):
        if not sj.base.startswith("QTM") or sj.fixed.get(0) not in (None, "OK", "7") or sj.key in ("QTMACK", "QTMNAK"):
            continue
        n, counts = fieldcounts(sj.defn, (1,))[0]
        if n > 2:
            for t in FIRST.get(sj.key, ("OK", "ERROR", "", "ok")):
                cases.append((case_first, (sj.mode, sj.key, n, counts, t)))
    for k in tab("NMEA_MSGIDS_PROP"):
        if k.startswith("QTM"):
            for w in ("OK", "ERROR"):
                cases.append((case_response, (k, w)))
    for p, x in near_prefixes():
        for md in (0, 1, 2):
            for nf in (1, 3, 20) if full else (3, 20):
                cases.append((case_prefix_near, (p, x, md, nf)))
    for p in tab("NMEA_PREFIX_PROP"):
        for nf in (1, 2, 5):
            for md in (0, 1, 2):
                for v in (0, 2):
                    cases.append((case_prefix_unknown, (p, nf, md, v)))
    rep.run(cases)


# ---- C42 user-defined definitions --------------------------------------------------------------

UDEF = {
    "plain": ("USR", {"a": "IN", "b": "DE", "c": "ST", "d": "CH", "e": "HX", "f": "TM", "g": "DT", "h": "DTL", "i": "DM"}),
    "position": ("POSN", {"lat": "LA", "NS": "LAD", "lon": "LN", "EW": "LND", "alt": "DE"}),
    "fixed group": ("FGRP", {"n": "IN", "grp": (3, {"x": "IN", "y": "ST"}), "z": "CH"}),
    "counted group": ("CGRP", {"num": "IN", "grp": ("num", {"x": "IN", "y": "ST"}), "z": "CH"}),
    "open group": ("OGRP", {"n": "IN", "grp": ("None", {"x": "IN", "y": "ST"})}),
    "lower case": ("MyMsg", {"a": "IN", "b": "ST"}),
    "short": ("A", {"a": "ST"}),
    "long": ("LONGIDENTIFIER1", {"a": "ST", "b": "IN"}),
    "under_score": ("USX", {"sat_id": "IN", "grp": ("None", {"sig_id": "IN", "val_x_y": "ST"})}),
    "empty": ("NIL", {}),
    "prop": ("QZZ", {"a": "ST", "b": "IN"}),
}


class USubj(Subj):
    def __init__(self, name, talker="GN", mode="GET"):
        self.key, self.defn = UDEF[name]
        self.mode, self.prop, self.base = mode, 0, self.key
        self.fixed, self.conds = {}, []
        self.hdr = self.ident = talker + self.key


def case_user_parse(r, name, talker, mode, k, validate, stream):
    it = engine()
    sj = USubj(name, talker, mode)
    n, counts = fieldcounts(sj.defn, (k,))[0]
    sc = Scene(sj, n, counts)
    d, st = lifted(sc.st, {sj.key: sj.defn, "OTHER": {"q": "IN"}})
    ob = f"user {name} {talker} {mode}/{n} v{validate}"
    names = [a for a, _, _ in sc.layout]
    outs = it.run(entry("NMEAReader.parse"), [sc.message()], {"validate": C(validate), "msgmode": C(MODE[mode]), "userdefined": d}, st=st)
    for st, m in messages(r, ob, sc, outs):
        got = list(public(attrs_of(it, st, m)))
        if got != names:
            bad(r, ob, st, loc(), f"user-defined {sj.hdr}: attributes {got}, expected {names}")
            continue
        r.ok(ob)
        for i, a in enumerate(names):
            match(r, f"{ob} {a}", st, fetch(st, m, a), sc.expected(st, i), loc(), f"user-defined {sj.key}.{a}")
        value_check(r, ob + " id", st, lambda cx: cx.it.getattr(cx, m, "identity"), C(sj.ident), "identity")
        value_check(r, ob + " bytes", st, lambda cx: method(cx, m, "serialize"), sc.message(), "serialize()")


class UMade(Made):
    def create(self, st=None):
        d, st = lifted(self.st, {self.sj.key: self.sj.defn})
        return engine().run(entry("NMEAMessage"), self.args, dict(self.kw, userdefined=d), st=st)


class GSubj(USubj):
    """a user definition of some plain fields and one open-ended group of a given size"""

    def __init__(self, pre, size):
        self.key = "GRPX"
        self.defn = {**{f"a{i}": ("IN", "ST", "DE")[i % 3] for i in range(pre)}, "grp": ("None", {f"b{i}": ("CH", "IN", "HX")[i % 3] for i in range(size)})}
        self.mode, self.prop, self.base = "GET", 0, self.key
        self.fixed, self.conds = {}, []
        self.hdr = self.ident = "GN" + self.key


def case_user_group(r, pre, size, k, rest):
    """whole repeats only, whatever the size of the group"""
    it = engine()
    sj = GSubj(pre, size)
    sc = Scene(sj, pre + k * size, {}, extra=rest)
    d, st = lifted(sc.st, {sj.key: sj.defn})
    ob = f"user group of {size} after {pre}, {k} repeats and {rest} more"
    want = [a for a, _, _ in expand(sj.defn, pre + k * size, {})]
    for st, m in messages(r, ob, sc, it.run(entry("NMEAReader.parse"), [sc.message()], {"validate": C(0), "userdefined": d}, st=st)):
        got = list(public(attrs_of(it, st, m)))
        if got != want:
            bad(r, ob, st, loc(), f"user-defined group of {size} fields: attributes {got[-6:]} ({len(got)}), expected {want[-6:]} ({len(want)})")
            continue
        r.ok(ob)
        for i in range(max(0, len(want) - 4), len(want)):
            match(r, f"{ob} {want[i]}", st, fetch(st, m, want[i]), sc.expected(st, i), loc(), want[i])


def case_user_create(r, name, talker, mode, k):
    it = engine()
    sj = USubj(name, talker, mode)
    n, counts = fieldcounts(sj.defn, (k,))[0]
    mk = UMade(sj, n, counts)
    ob = f"user {name} {talker} {mode}/{n} create"
    names = [a for a, _, _ in mk.layout]
    for st, m in made(r, ob, mk, mk.create()):
        got = list(public(attrs_of(it, st, m)))
        if got != names:
            bad(r, ob, st, "NMEAMessage (created)", f"user-defined {sj.hdr}: created attributes {got}, expected {names}")
            continue
        r.ok(ob)
        for i, a in enumerate(names):
            e = mk.expected(st, i)
            match(r, f"{ob} {a}", st, fetch(st, m, a), e, "NMEAMessage (created)", f"user-defined {sj.key}.{a}")


def case_user_validate(r, talker, validate):
    """a user-defined identifier counts as known"""
    it = engine()
    d, st = lifted(it.newstate(), {"USR": {"a": "ST"}})
    msg = sentence(talker + "USR", [fld(0)])
    ob = f"user validate {talker} {validate}"
    for o in it.run(entry("NMEAReader.parse"), [msg], {"validate": C(validate), "userdefined": d}, st=st):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"user-defined identifier rejected with validate={validate}: {sorted(excname(it, o))}")
            continue
        for lits, m in objects(o):
            s = with_lits(o.st, lits)
            if s is not None:
                r.check(list(public(attrs_of(it, s, m))) == ["a"], ob, loc(), "user-defined definition not applied")


def case_user_shadow(r, mode, key, n, counts, create):
    """user-defined definitions supplement the built-in ones: they do not change what the library defines"""
    it = engine()
    sj = subj(mode, key)
    user = {sj.base: {"zz": "ST"}, sj.key: {"zz": "ST"}, "USR": {"a": "IN"}}
    ob = f"user shadow {mode} {key}/{n}{' create' if create else ''}"
    if create:
        mk = Made(sj, n, counts)
        d, st = lifted(mk.st, user)
        names, what = [a for a, _, _ in mk.layout], "NMEAMessage (created)"
        outs = it.run(entry("NMEAMessage"), mk.args, dict(mk.kw, userdefined=d), st=st)
        src = made(r, ob, mk, outs)
    else:
        sc = Scene(sj, n, counts)
        d, st = lifted(sc.st, user)
        names, what = [a for a, _, _ in sc.layout], loc()
        outs = it.run(entry("NMEAReader.parse"), [sc.message()], {"validate": C(0), "msgmode": C(MODE[mode]), "userdefined": d}, st=st)
        src = messages(r, ob, sc, outs)
    for st, m in src:
        got = list(public(attrs_of(it, st, m)))
        if got != names:
            bad(r, ob, st, what, f"{sj} with user-defined definitions of {sorted(user)}: attributes {got}, expected {names}")
        else:
            r.ok(ob)


def case_user_elsewhere(r, mode, key, n, counts, other):
    """user-defined definitions of the library's identifiers are not used in the modes for which it has none either"""
    from .extra import outcome, equal_outcomes
    sj = subj(mode, key)
    sc = Scene(sj, n, counts)
    user = {sj.base: {"zz": "ST"}, sj.key: {"zz": "ST"}, "USR": {"a": "IN"}}
    P = entry("NMEAReader.parse")

    def fn(cx):
        kw = {"validate": C(0), "msgmode": C(other)}
        return [outcome(cx, lambda: cx.call(P, [sc.message()], kw), lambda m: snap(cx, m)),
                outcome(cx, lambda: cx.call(P, [sc.message()], {**kw, "userdefined": cx.lift(user)}), lambda m: snap(cx, m))]
    equal_outcomes(r, f"user {mode} {key}/{n} in mode {other}", sc.st, fn, "NMEAReader.parse", f"{sj} in mode {other}, without and with user definitions of {sorted(user)}")


def case_user_near(r, talker, ident, mode, validate):
    """an identifier that merely resembles a user-defined one stays unknown"""
    it = engine()
    d, st = lifted(it.newstate(), {"USR": {"a": "ST"}})
    msg = sentence(talker + ident, [fld(0), fld(1)])
    ob = f"user near {talker}{ident} {mode} v{validate}"
    kw = {"validate": C(validate), "msgmode": C(MODE[mode]), "userdefined": d}
    for o in it.run(entry("NMEAReader.parse"), [msg], kw, st=st):
        if o.kind == "exc":
            r.check(validate & 2 and is_lib(it, o, ("NMEAParseError",)), ob, o.where,
                    f"{talker}{ident} with a user-defined USR, validate={validate}: raises {sorted(excname(it, o))}")
            continue
        if validate & 2:
            bad(r, ob, o.st, loc(), f"{talker}{ident} accepted as known because USR is defined by the user")
            continue
        for lits, m in objects(o):
            s = with_lits(o.st, lits)
            if s is not None:
                got = list(public(attrs_of(it, s, m)))
                r.check(got == ["field_01", "field_02"], ob, loc(), f"{talker}{ident} with a user-defined USR: attributes {got}")


def rule_user(rep):
    full = rep.tier != "quick"
    cases = []
    for name in UDEF:
        for talker in ("GN", "P"):
            for mode in ("GET", "SET", "POLL"):
                for k in ((0, 1, 2, 3, 10, 11) if full else (0, 2, 11)):
                    if groupof(UDEF[name][1]) is None and k != 2:
                        continue
                    for v in (0, 2):
                        cases.append((case_user_parse, (name, talker, mode, k, v, False)))
                    cases.append((case_user_create, (name, talker, mode, k)))
    cases += [(case_user_validate, (t, v)) for t in ("GN", "P") for v in (0, 2)]
    for t in ("GN", "P"):
        for i in ("AUSR", "USRA", "US", "usr", "SR", "RSU", "USRUSR"):
            cases += [(case_user_near, (t, i, m, v)) for m in MODE for v in (0, 2)]
    for sj in subjects():
        for n, counts in fieldcounts(sj.defn, (1,))[:1]:
            cases.append((case_user_shadow, (sj.mode, sj.key, n, counts, False)))
            cases += [(case_user_elsewhere, (sj.mode, sj.key, n, counts, md)) for md in (0, 1, 2) if md != MODE[sj.mode]]
            if creatable(sj):
                cases.append((case_user_shadow, (sj.mode, sj.key, n, counts, True)))
    rep.run(cases)
