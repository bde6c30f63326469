"""Abstract state: heap, facts, call frames and the trace of external effects."""

from __future__ import annotations

import itertools

from .values import V, C, T, Tup, Ref, Phi, UNBOUND, Fn, Bound, Wrap, Cls, Mod

_uniq = itertools.count(1)


class Obj:
    """Abstract heap object.

    kind: inst list dict set env bytearray ulist ext class module
    data: list of values, or dict of values (copied on write)
    """

    __slots__ = ("kind", "cls", "data", "extra")

    def __init__(self, kind, cls=None, data=None, extra=None):
        self.kind, self.cls, self.data, self.extra = kind, cls, data, extra

    def copy(self):
        d = self.data
        if isinstance(d, (list, dict, set)):
            d = d.copy()
        return Obj(self.kind, self.cls, d, self.extra)

    def cells(self):
        d = self.data
        if isinstance(d, list):
            return list(enumerate(d))
        if isinstance(d, dict):
            return list(d.items())
        return []

    def shape(self):
        d = self.data
        if isinstance(d, list):
            s = len(d)
        elif isinstance(d, dict):
            s = tuple(d) if self.kind not in ("env",) else "env"
        else:
            s = d
        return (self.kind, self.cls, s, self.extra)


class Event:
    __slots__ = ("kind", "data", "where")

    def __init__(self, kind, data, where=None):
        self.kind, self.data, self.where = kind, data, where

    def __eq__(self, o):
        return isinstance(o, Event) and self.kind == o.kind and self.data == o.data

    def __hash__(self):
        return hash((self.kind, self.data))

    def __repr__(self):
        return f"{self.kind}{self.data!r}"


class State:
    __slots__ = ("heap", "owned", "facts", "flog", "eqc", "rng", "trace", "frames", "nid",
                 "fhash", "roots", "excs", "base", "ors")

    def __init__(self, base):
        self.base = base  # dict oid -> Obj (module-level objects; never written)
        self.heap = {}
        self.owned = set()
        self.facts = {}
        self.flog = ()
        self.eqc = {}
        self.rng = {}
        self.trace = ()
        self.frames = ()
        self.nid = 1
        self.fhash = 0
        self.roots = ()
        self.excs = ()
        self.ors = ()

    def fork(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = self.heap.copy()
        self.owned = set()  # both sides must now copy on write
        s.owned = set()
        s.facts = self.facts.copy()
        s.flog = self.flog
        s.eqc = self.eqc.copy()
        s.rng = self.rng.copy()
        s.trace, s.frames, s.nid = self.trace, self.frames, self.nid
        s.fhash, s.roots, s.excs = self.fhash, self.roots, self.excs
        s.ors = self.ors
        return s

    # heap ---------------------------------------------------------------
    def alloc(self, kind, cls=None, data=None, extra=None):
        oid = self.nid
        self.nid += 1
        self.heap[oid] = Obj(kind, cls, data, extra)
        self.owned.add(oid)
        return Ref(oid)

    def get(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = self.base[oid]
        return o

    def isbase(self, oid):
        return oid in self.base

    def write(self, oid):
        if oid in self.owned:
            return self.heap[oid]
        o = self.get(oid).copy()
        self.heap[oid] = o
        self.owned.add(oid)
        return o

    def event(self, kind, data, where=None):
        self.trace = self.trace + (Event(kind, data, where),)

    def fresh(self):
        """A key unique to this point of this abstract path."""
        self.nid += 1
        return (self.nid, self.fhash)

    # facts --------------------------------------------------------------
    def add_fact(self, t, pol):
        if t in self.facts:
            return
        self.facts[t] = pol
        if t.op == "or" and pol:
            self.ors = self.ors + (t,)
        self.flog = self.flog + ((t, pol),)
        self.fhash = hash((self.fhash, t.n, pol))
        if t.op == "eq" and pol:
            a, b = t.args
            if isinstance(b, C) and isinstance(a, T):
                self.eqc[a] = b
            elif isinstance(a, C) and isinstance(b, T):
                self.eqc[b] = a

    def reachable(self, extra=()):
        seen, vals = set(), set()
        order = []
        stack = []

        def push(v):
            stack.append(v)

        for f in self.frames:
            push(Ref(f))
        for r in self.roots:
            push(r)
        for e in self.excs:
            push(e)
        for v in extra:
            push(v)
        for oid in self.heap:
            if oid in self.base:
                push(Ref(oid))
        while stack:
            v = stack.pop()
            if isinstance(v, Ref):
                oid = v.oid
                if oid in seen or oid not in self.heap:
                    continue
                seen.add(oid)
                order.append(oid)
                o = self.heap[oid]
                if o.kind == "env" and o.extra is not None and o.extra[0] is not None:
                    push(Ref(o.extra[0]))
                d = o.data
                if isinstance(d, dict):
                    for k, x in d.items():
                        if isinstance(k, V):
                            push(k)
                        push(x)
                elif isinstance(d, list):
                    for x in d:
                        push(x)
                if o.kind == "ext" and hasattr(o.extra, "refs"):
                    for x in o.extra.refs():
                        push(x)
            elif isinstance(v, (Tup, Phi)):
                if id(v) in vals:
                    continue
                vals.add(id(v))
                if isinstance(v, Tup):
                    stack.extend(v.items)
                else:
                    stack.extend(a for _, a in v.alts)
            elif isinstance(v, Fn):
                if v.env is not None:
                    push(Ref(v.env))
                stack.extend(v.defaults)
                stack.extend(x for _, x in v.kwdefaults)
            elif isinstance(v, Bound):
                push(v.self)
                push(v.fn)
            elif isinstance(v, Wrap):
                stack.extend(x for x in v.args if isinstance(x, V))
            elif isinstance(v, Cls):
                push(Ref(v.oid))
            elif isinstance(v, T):
                if v not in vals:
                    vals.add(v)
                    stack.extend(x for x in v.args if isinstance(x, (T, Ref, Tup, Phi)))
        return seen


def simplify_guards(alts):
    """[(frozenset, V)] -> merged list; alternatives of equal value whose guards
    differ in the polarity of one literal are merged."""
    alts = list(dict.fromkeys(alts))
    changed = True
    while changed:
        changed = False
        for i in range(len(alts)):
            gi, vi = alts[i]
            for j in range(i + 1, len(alts)):
                gj, vj = alts[j]
                if vi is not vj:
                    continue
                if gi <= gj:
                    del alts[j]
                    changed = True
                    break
                if gj <= gi:
                    del alts[i]
                    changed = True
                    break
                d = gi ^ gj
                if len(d) == 2:
                    (t1, p1), (t2, p2) = tuple(d)
                    if t1 is t2 and p1 != p2:
                        alts[i] = (gi & gj, vi)
                        del alts[j]
                        changed = True
                        break
            if changed:
                break
    return alts


MAXALTS = 48


def mkphi(alts):
    """alts: list of (guard frozenset, V) -> V"""
    v0 = alts[0][1]
    if all(v is v0 for _, v in alts):
        return v0
    flat = []
    for g, v in alts:
        if isinstance(v, Phi):
            for g2, v2 in v.alts:
                u = g | g2
                if not contradictory(u):
                    flat.append((u, v2))
        else:
            flat.append((g, v))
    if not flat:
        return v0
    flat = simplify_guards(flat)
    if len(flat) == 1:
        return flat[0][1]
    return Phi(flat)


def contradictory(lits):
    seen = {}
    nds = {}
    for t, p in lits:
        q = seen.get(t)
        if q is not None and q != p:
            return True
        seen[t] = p
        if p and t.op == "nd":
            k = t.args[0]
            if nds.setdefault(k, t.args[1]) != t.args[1]:
                return True
        if p and t.op == "eq" and isinstance(t.args[1], C):
            k = ("eq", t.args[0])
            if nds.setdefault(k, t.args[1]) is not t.args[1]:
                return True
    return False


def join_states(s0, items):
    """items: list of (state, value) forked from s0 and having the same completion.
    Returns a list of (state, value), joined where heaps have the same shape."""
    if len(items) <= 1:
        return items
    groups = []
    for st, v in items:
        reach = st.reachable((v,) if v is not None else ())
        head = (st.trace, st.frames, st.roots, st.excs)
        for h, shapes, members in groups:
            if h != head:
                continue
            ok = True
            for oid in reach:
                o = st.heap[oid]
                p = shapes.get(oid)
                if p is not None and p is not o and p.shape() != o.shape():
                    ok = False
                    break
            if ok:
                for oid in reach:
                    shapes.setdefault(oid, st.heap[oid])
                members.append((st, v, reach))
                break
        else:
            groups.append((head, {oid: st.heap[oid] for oid in reach}, [(st, v, reach)]))
    out = []
    for _, _, g in groups:
        out.extend(_join_group(s0, g))
    return out


def disjunction(ds):
    """term stating that one of the literal sets holds, None when that says nothing"""
    flat = []
    for d in dict.fromkeys(ds):
        parts = [d]
        while True:
            k = next(((i, t) for i, x in enumerate(parts) for t, p in x if p and t.op == "or"), None)
            if k is None or len(parts) > 24:
                break
            i, t = k
            x = parts.pop(i) - {(t, True)}
            for alt in t.args:
                y = x | frozenset(alt)
                if not contradictory(y):
                    parts.append(y)
        flat.extend(parts)
    ds = list(dict.fromkeys(flat))
    if len(ds) > 40:
        return None
    changed = True
    while changed:
        changed = False
        ds = [d for d in ds if not any(e < d for e in ds)]
        ds = list(dict.fromkeys(ds))
        for d in ds:
            if not d:
                return None
            for e in ds:
                if d is e:
                    continue
                # d = X + {t}, e contains X + {not t}: t can be dropped from e
                for t, p in d:
                    if (t, not p) in e and d - {(t, p)} <= e:
                        ds[ds.index(e)] = e - {(t, not p)}
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
    if len(ds) < 2 or len(ds) > 12 or any(len(d) > 14 for d in ds):
        return None
    if any(all(t.op == "nd" for t, _ in d) for d in ds):
        return None
    return T("or", tuple(sorted((tuple(sorted(d, key=lambda tp: (tp[0].n, tp[1]))) for d in ds),
                                key=lambda x: [(t.n, p) for t, p in x])), "bool")


def _join_group(s0, g):
    if len(g) == 1:
        return [(g[0][0], g[0][1])]
    n0 = len(s0.flog)
    deltas = []
    for st, _, _ in g:
        deltas.append(frozenset(st.flog[n0:]))
    # drop states identical apart from facts (the common case)
    res = g[0][0].fork()
    allr = set()
    for _, _, r in g:
        allr |= r
    size_bad = False
    for oid in allr:
        objs = [(d, st.heap[oid]) for d, (st, _, r) in zip(deltas, g) if oid in r]
        o0 = objs[0][1]
        if all(o is o0 for _, o in objs):
            res.heap[oid] = o0
            continue
        new = o0.copy()
        if isinstance(new.data, list):
            for i in range(len(new.data)):
                new.data[i] = mkphi([(d, o.data[i]) for d, o in objs])
                size_bad |= isinstance(new.data[i], Phi) and len(new.data[i].alts) > MAXALTS
        elif isinstance(new.data, dict):
            keys = list(dict.fromkeys(k for _, o in objs for k in o.data))
            for k in keys:
                new.data[k] = mkphi([(d, o.data.get(k, UNBOUND)) for d, o in objs])
                size_bad |= isinstance(new.data[k], Phi) and len(new.data[k].alts) > MAXALTS
        res.heap[oid] = new
    val = g[0][1]
    if val is not None:
        val = mkphi([(d, v) for d, (_, v, _) in zip(deltas, g)])
        size_bad |= isinstance(val, Phi) and len(val.alts) > MAXALTS
    if size_bad:
        return [(st, v) for st, v, _ in g]
    common = deltas[0]
    for d in deltas[1:]:
        common = common & d
    res.facts = s0.facts.copy()
    res.flog = s0.flog
    res.eqc = s0.eqc.copy()
    res.ors = s0.ors
    res.fhash = hash((s0.fhash, "join", tuple(sorted(hash(d) for d in deltas))))
    for t, p in [x for x in g[0][0].flog[n0:] if x in common]:
        res.add_fact(t, p)
    o = disjunction([d - common for d in deltas])
    if o is not None:
        res.add_fact(o, True)
    # range refinements that hold in every branch
    res.rng = {}
    for k, iv in g[0][0].rng.items():
        lo, hi = iv
        ok = True
        for st, _, _ in g[1:]:
            o = st.rng.get(k)
            if o is None:
                ok = False
                break
            lo = None if lo is None or o[0] is None else min(lo, o[0])
            hi = None if hi is None or o[1] is None else max(hi, o[1])
        if ok:
            res.rng[k] = (lo, hi)
    res.nid = max(st.nid for st, _, _ in g)
    return [(res, val)]
