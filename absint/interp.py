"""Abstract interpreter for the Python subset the repository is written in.

It never runs repository code: it walks the syntax trees of the sources under
analysis, transforming abstract states.  Branches whose condition is not decided
by the abstract state are both taken; states are joined again after every
statement, loop iteration and call whenever their heaps have the same shape
(values that differ become guarded unions).
"""

from __future__ import annotations

import ast
import builtins as _pyb
import importlib
import os

from . import loops, num, strings as S, synth
from .state import State, Obj, join_states, contradictory, mkphi
from .values import (V, C, T, Tup, Ref, Phi, Fn, Bound, Wrap, Cls, Bi, Mod, NONE, TRUE,
                     FALSE, EMPTY, UNBOUND, mkbool, atom, Props, atoms_of)


class Unsupported(Exception):
    """the analysis cannot follow this construct"""


class Infeasible(Exception):
    pass


class AbsRaise(Exception):
    def __init__(self, exc, where=None):
        self.exc, self.where = exc, where


class Out:
    __slots__ = ("kind", "st", "val", "where")

    def __init__(self, kind, st, val=None, where=None):
        self.kind, self.st, self.val, self.where = kind, st, val, where

    def __repr__(self):
        return f"Out({self.kind}, {self.val!r})"


EXC_NAMES = {n: o for n, o in vars(_pyb).items()
             if isinstance(o, type) and issubclass(o, BaseException)}
import struct as _struct, zlib as _zlib, binascii as _binascii, socket as _socket, re as _re  # noqa: E401,E402

EXC_NAMES.update({"struct.error": _struct.error, "zlib.error": _zlib.error,
                  "binascii.Error": _binascii.Error, "socket.timeout": TimeoutError,
                  "socket.gaierror": _socket.gaierror, "re.error": _re.error})
EXC_BY_OBJ = {o: n for n, o in EXC_NAMES.items() if not n.startswith("socket.t") and n not in ("IOError", "EnvironmentError")}


class Cx:
    """Evaluation context of one statement: a state, and the choices made so far."""

    __slots__ = ("it", "st", "prefix", "taken", "pend", "memo", "ncall", "node", "mod", "env", "fn")

    def __init__(self, it, st, prefix=(), pend=None, memo=None):
        self.it, self.st = it, st
        self.prefix, self.taken = prefix, []
        self.pend = [] if pend is None else pend
        self.memo = {} if memo is None else memo
        self.ncall = 0
        self.node = None

    # ---- choices ---------------------------------------------------------
    def choose(self, n):
        if n == 1:
            return 0
        k = len(self.taken)
        if k < len(self.prefix):
            i = self.prefix[k]
        else:
            i = 0
            for j in range(n - 1, 0, -1):
                self.pend.append(tuple(self.taken) + (j,))
        self.taken.append(i)
        self.it.nforks += 1
        if len(self.taken) > 1000:
            raise Unsupported("too many choices in one statement")
        return i

    def cond(self, t):
        """truth of a boolean value; forks when undecided"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if isinstance(t, C):
            return bool(t.v)
        if isinstance(t, Phi):
            return self.cond(self.force(t))
        if t.op == "not":
            return not self.cond(t.args[0])
        d = self.it.decide(self.st, t)
        if d is not None:
            return d
        pol = self.choose(2) == 0
        self.it.assume(self.st, t, pol)
        return pol

    def nd(self, n, what="nd"):
        """a nondeterministic choice among n alternatives (recorded as a literal)"""
        if n == 1:
            return 0
        key = (what,) + self.st.fresh()
        i = self.choose(n)
        self.st.add_fact(T("nd", (key, i), "bool"), True)
        return i

    def force(self, v):
        """resolve guarded unions and known constants"""
        while isinstance(v, Phi):
            ok = []
            for g, a in v.alts:
                bad = False
                for t, p in g:
                    d = self.it.decide(self.st, t)
                    if d is not None and d != p:
                        bad = True
                        break
                if not bad:
                    ok.append((g, a))
            if not ok:
                raise Infeasible()
            vals = list(dict.fromkeys(a for _, a in ok))
            if len(vals) == 1:
                v = vals[0]
                continue
            g, a = ok[self.choose(len(ok))]
            for t, p in sorted(g, key=lambda tp: tp[0].n):
                self.it.assume(self.st, t, p)
            v = a
        if isinstance(v, T) and self.st.eqc:
            k = self.st.eqc.get(v)
            if k is not None:
                return k
        if v is UNBOUND:
            self.raise_("UnboundLocalError", "unbound")
        return v

    def forces(self, vs):
        return [self.force(v) for v in vs]

    # ---- exceptions ------------------------------------------------------
    def raise_(self, name, msg=""):
        exc = self.st.alloc("inst", Bi(name), {"args": Tup((C(msg),))})
        raise AbsRaise(exc, self.it.where(self))

    # ---- allocation ------------------------------------------------------
    def newlist(self, items):
        return self.st.alloc("list", None, list(items))

    def newdict(self, d):
        return self.st.alloc("dict", None, dict(d))

    def newset(self, items):
        return self.st.alloc("set", None, {k: NONE for k in items})

    def truth(self, v):
        return self.it.truth(self, v)

    def call(self, f, args=(), kw=None):
        return self.it.call(self, f, list(args), dict(kw or {}))

    def lift(self, x):
        if isinstance(x, V):
            return x
        if isinstance(x, tuple):
            return Tup(self.lift(i) for i in x)
        if isinstance(x, list):
            return self.newlist([self.lift(i) for i in x])
        if isinstance(x, dict):
            return self.newdict({self.lift(k): self.lift(v) for k, v in x.items()})
        if isinstance(x, bytearray):
            return self.st.alloc("bytearray", None, [C(bytes(x))])
        if isinstance(x, set):
            return self.newset([self.lift(i) for i in x])
        return C(x)


_ATOMS = {}


def atomset(t):
    r = _ATOMS.get(t)
    if r is None:
        r = _ATOMS[t] = frozenset(atoms_of(t))
    return r


class Frame:
    __slots__ = ("mod", "fname", "node")


BUILTIN_MODULES = {
    "math", "re", "zlib", "datetime", "struct", "io", "socket", "logging", "types", "typing",
    "functools", "itertools", "operator", "collections", "time", "threading", "contextlib",
    "string", "binascii", "warnings", "copy", "enum", "sys", "os", "__future__", "decimal",
    "collections.abc", "abc", "dataclasses", "calendar", "numbers", "bisect", "random", "queue",
}


class Interp:
    def __init__(self, srcdir, pkg="pynmeagps", extra=None):
        self.lone = False
        self.srcdir, self.pkg = srcdir, pkg
        self.extra = extra or {}
        self.base = {}
        self.modules = {}  # dotted name -> Mod
        self.trees = {}
        self.files = {}
        self.nforks = 0
        self.nstmts = 0
        self.preempt = None
        self.ncalls = 0
        self.covered = set()
        self.funcs = set()
        self.callsites = set()
        self.depth = 0
        self.maxdepth = 70
        self.maxloop = 600
        self.clock = None  # microseconds since year 1 of the wall clock, when a rule fixes it
        self.maxstates = 3000
        self.loop_hook = None
        self.yieldh = {}  # environment of a running generator -> what takes its values
        self.stepped = {}
        self.symdict_false = True  # symbolic keys are not in module-level tables
        self.undecided = []
        self.gwrites = True
        self.initialising = True
        self._locals = {}
        self.budget = None
        from . import builtins_ as B
        self.B = B
        self.bi_over = {}
        self.fn_over = {}
        self.dcfields = {}
        self.notfollowed = []
        self._load_all()

    # ---- loading ---------------------------------------------------------
    def _load_all(self):
        d = os.path.join(self.srcdir, self.pkg)
        for root, _, files in os.walk(d):
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, self.srcdir)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                self.trees[rel] = None
                self.files[rel] = p
        for rel, p in self.extra.items():
            self.trees[rel] = None
            self.files[rel] = p
        self._st = State(self.base)
        for name in list(self.trees):
            self.load(name)
        # freeze: everything allocated so far becomes the base heap
        self.base.update(self._st.heap)
        self.base_nid = self._st.nid
        self.base_facts = (self._st.facts, self._st.flog, self._st.eqc)
        self.init_trace = self._st.trace
        self.initialising = False

    def newstate(self):
        st = State(self.base)
        st.nid = self.base_nid + 1
        return st

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        st = self._st
        with open(self.files[name], encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, self.files[name])
        mark_consumed(tree)
        self.trees[name] = tree
        ref = st.alloc("module", name, {"__name__": C(name)})
        mod = Mod(name, ref.oid)
        self.modules[name] = mod
        env = st.alloc("env", None, {}, (None, name, "module"))
        st.frames = st.frames + (env.oid,)
        sc = Scope(self, name, env.oid, None, None)
        for s in tree.body:
            st1 = st.fork()
            self._st = st1
            have = set(self.modules)
            try:
                outs = self.exec_block([s], [st1], sc)
                outs = [o for o in outs if o.kind == "next"]
                if len(outs) != 1:
                    raise Unsupported(f"module {name}: {len(outs)} outcomes at import")
                st = outs[0].st
            except Unsupported as e:  # what the statement binds is unknown: using it is not followed
                self._st = st
                for k in set(self.modules) - have:
                    del self.modules[k]
                self.notfollowed.append((name, s.lineno, str(e)))
                for k in bound_names(s):
                    st.write(ref.oid).data[k] = T("poison", (C(f"{name}.{k}: {e}"[:200]),), "any")
        st.frames = st.frames[:-1]
        self._st = st
        return mod

    def module(self, short):
        return self.modules[f"{self.pkg}.{short}" if short else self.pkg]

    def lookup(self, dotted):
        """value of a public name, e.g. 'NMEAReader' or 'nmeahelpers.get_parts'"""
        parts = dotted.split(".")
        v = None
        if parts[0] in self.extra:
            return self.base[self.modules[parts[0]].oid].data[parts[1]]
        if len(parts) > 1 and f"{self.pkg}.{parts[0]}" in self.modules:
            data = self.base[self.module(parts[0]).oid].data
            if parts[1] in data:
                v = data[parts[1]]
                rest = parts[2:]
        if v is None:
            data = self.base[self.module("").oid].data
            name = parts[0] if parts[0] in data else parts[-1]
            if name not in data:
                raise KeyError(dotted)
            v = data[name]
            rest = parts[1:] if name == parts[0] else []
        for p in rest:
            v = self.class_attr(self._st_for_lookup(), v, p)
            if isinstance(v, Wrap) and v.kind in ("staticmethod", "classmethod"):
                v = v.args[0]
        return v

    def _st_for_lookup(self):
        return self.newstate()

    def where(self, cx):
        n = cx.node
        mod = getattr(cx, "mod", None)
        fn = getattr(cx, "fn", None)
        f = self.files.get(mod, mod or "?")
        return (os.path.basename(str(f)), getattr(n, "lineno", 0), fn.name if fn is not None else "<module>")

    # ---- facts -----------------------------------------------------------
    def decide(self, st, t):
        """True / False / None"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if isinstance(t, C):
            return bool(t.v)
        r = st.facts.get(t)
        if r is not None:
            return r
        o = t.op
        if o == "not":
            r = self.decide(st, t.args[0])
            return None if r is None else not r
        if o == "or":
            some = False
            for d in t.args:
                k = True
                for u, p in d:
                    x = self.decide(st, u)
                    if x is None:
                        k = None
                    elif x != p:
                        k = False
                        break
                if k is True:
                    return True
                if k is None:
                    some = True
            return None if some else False
        if o == "nd":
            k, i = t.args
            for f, p in st.flog:
                if p and f.op == "nd" and f.args[0] == k:
                    return f.args[1] == i
            return None
        if o in ("inkeys", "inset*"):
            x, ks = t.args
            k = st.eqc.get(x) if isinstance(x, T) else x
            if isinstance(k, C) and all(isinstance(i, C) for i in ks.items):
                return k in ks.items
            for f, p in st.flog:
                if f.op in ("inkeys", "inset*") and f.args[0] is x:
                    a, b = set(ks.items), set(f.args[1].items)
                    if not p and a <= b:
                        return False
                    if p and b <= a:
                        return True
                    if p and not a & b and all(isinstance(i, C) for i in a | b):
                        return False
            return None
        if o == "eq":
            a, b = t.args
            ka = st.eqc.get(a) if isinstance(a, T) else a
            kb = st.eqc.get(b) if isinstance(b, T) else b
            if isinstance(ka, C) and isinstance(kb, C):
                return ka.v == kb.v
            if isinstance(b, C) and isinstance(a, T):
                if a.ty in ("int", "float"):
                    if isinstance(b.v, (int, float)):
                        lo, hi = num.interval(a, st)
                        if (lo is not None and lo > b.v) or (hi is not None and hi < b.v):
                            return False
                        if lo == hi == b.v and lo is not None:
                            return True
                if b.v == "" or b.v == b"":
                    for w in ("intok", "floatok"):
                        for base in ((10,), (16,), ()):
                            if st.facts.get(T(w, (a,) + base, "bool")) is True:
                                return False
                    for w in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum"):
                        if st.facts.get(T(w, (a,), "bool")) is True:
                            return False
                    lf = T("len", (a,), "int")
                    lo, hi = num.interval(lf, st)
                    if lo and lo > 0:
                        return False
                if isinstance(b.v, str) and self._excluded(st, a, b.v):
                    return False
                # substitute known parts of a concatenation
                if a.op == "cat" and any(isinstance(p, T) and p in st.eqc for p in a.args):
                    a2 = S.cat([st.eqc.get(p, p) if isinstance(p, T) else p for p in a.args], a.ty == "bytes")
                    r = S.eq(None, a2, b) if not _has_cat_empty(a2, b) else None
                    if r is TRUE:
                        return True
                    if r is FALSE:
                        return False
            return None
        if o in ("intok", "floatok"):
            k = st.eqc.get(t.args[0])
            if k is not None and isinstance(k.v, str):
                try:
                    int(k.v, *t.args[1:]) if o == "intok" else float(k.v)
                    return True
                except ValueError:
                    return False
            if o == "floatok" and st.facts.get(T("intok", (t.args[0], 10), "bool")) is True:
                return True
            if o == "intok" and t.args[1:] == (10,) and st.facts.get(T("floatok", (t.args[0],), "bool")) is False:
                return False
            return None
        if o in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "isupper", "islower", "isspace", "isascii"):
            k = st.eqc.get(t.args[0])
            if k is not None:
                return getattr(k.v, o)()
            x = t.args[0]
            if isinstance(x, T) and x.op == "slice" and x.args[1] is C(0) and isinstance(x.args[2], C) and \
                    st.eqc.get(T("len", (x.args[0],), "int")) is x.args[2]:
                return st.facts.get(T(o, (x.args[0],), "bool"))
            n = st.eqc.get(T("len", (x,), "int"))
            if isinstance(n, C):
                return st.facts.get(T(o, (T("slice", (x, C(0), n), x.ty),), "bool"))
            return None
        if o in ("contains", "startswith", "endswith", "inset"):
            k = st.eqc.get(t.args[0]) if isinstance(t.args[0], T) else t.args[0]
            if isinstance(k, C):
                x = S.cs(k)
                y = t.args[1]
                if isinstance(y, C):
                    y = S.cs(y) if isinstance(y.v, (str, bytes)) else None
                if isinstance(y, str):
                    return {"contains": y in x, "startswith": x.startswith(y),
                            "endswith": x.endswith(y), "inset": len(x) == 1 and x in y}[o]
            if o == "inset":
                # all members excluded individually?
                a, al = t.args
                if all(self.decide(st, S.mkeq(a, S.mk(c, S.isbytes(a)))) is False for c in al):
                    return False
            if o == "contains" and isinstance(t.args[1], str) and isinstance(t.args[0], T):
                for al, p in st.flog:
                    pass
            return None
        if o in ("lt", "le"):
            a, b = t.args
            la, ha = num.interval(a, st)
            lb, hb = num.interval(b, st)
            if o == "lt":
                if ha is not None and lb is not None and ha < lb:
                    return True
                if la is not None and hb is not None and la >= hb:
                    return False
                if st.facts.get(T("lt", (b, a), "bool")) is True:
                    return False
            else:
                if ha is not None and lb is not None and ha <= lb:
                    return True
                if la is not None and hb is not None and la > hb:
                    return False
            if num.isint(a) and num.isint(b):
                d = num.iadd(a, b, -1)
                l, h = num.interval(d, st)
                k = 0 if o == "lt" else 1
                if h is not None and h < k:
                    return True
                if l is not None and l >= k:
                    return False
            return None
        return None

    def _excluded(self, st, a, k):
        """does a known fact about text a rule out that a equals the constant k?"""
        for t, p in st.facts.items():
            o = t.op
            if not t.args or t.args[0] is not a:
                continue
            if o in ("inkeys", "inset*"):
                r = C(k) in t.args[1].items
                if r != p and (not p or all(isinstance(i, C) for i in t.args[1].items)):
                    return True
                continue
            if o == "intok":
                try:
                    int(k, *t.args[1:])
                    r = True
                except ValueError:
                    r = False
            elif o == "floatok":
                try:
                    float(k)
                    r = True
                except ValueError:
                    r = False
            elif o in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum"):
                r = getattr(k, o)()
            else:
                continue
            if r != p:
                return True
        return False

    def assume(self, st, t, pol):
        if t is TRUE or t is FALSE or isinstance(t, C):
            if bool(t.v) != pol:
                raise Infeasible()
            return
        if t.op == "not":
            return self.assume(st, t.args[0], not pol)
        d = self.decide(st, t)
        if d is not None:
            if d != pol:
                raise Infeasible()
            if t in st.facts:
                return
        st.add_fact(t, pol)
        if t.op == "or":
            if pol:
                self.propagate(st, (t,))
            return
        self._assume(st, t, pol)
        if st.ors and t.op != "nd":
            at = atomset(t)
            rel = [x for x in st.ors if not at or at & atomset(x)]
            if rel:
                self.propagate(st, rel)

    def propagate(self, st, ors):
        """unit propagation over known disjunctions"""
        for t in ors:
            live = []
            for d in t.args:
                for u, p in d:
                    x = self.decide(st, u)
                    if x is not None and x != p:
                        break
                else:
                    live.append(d)
            if not live:
                raise Infeasible()
            if len(live) == 1:
                for u, p in live[0]:
                    if u not in st.facts:
                        self.assume(st, u, p)

    def _assume(self, st, t, pol):
        if t.op in ("lt", "le"):
            self._refine(st, t, pol)
        elif t.op == "eq" and pol and isinstance(t.args[1], C) and isinstance(t.args[1].v, (int, float)) \
                and isinstance(t.args[0], T) and t.args[0].ty in ("int", "float"):
            k = t.args[1].v
            self._setrng(st, t.args[0], k, k)
        elif t.op == "eq" and not pol and isinstance(t.args[1], C) and num.isint(t.args[0]) \
                and isinstance(t.args[1].v, int):
            a, k = t.args[0], t.args[1].v
            lo, hi = num.interval(a, st)
            if lo == k:
                self._setrng(st, a, k + 1, None)
            elif hi == k:
                self._setrng(st, a, None, k - 1)

    def _refine(self, st, t, pol):
        a, b = t.args
        strict = t.op == "lt"
        if not pol:
            a, b, strict = b, a, not strict
        # now a < b (strict) or a <= b
        if num.isint(a) and num.isint(b):
            k = 1 if strict else 0
            d = num.iadd(a, b, -1)  # d <= -k
            if isinstance(d, C):
                return
            c, m = num.lin(d)
            if len(m) > 1:
                D, sg = num.direction(m)
                self._setrng(st, D, None if sg > 0 else c + k, -k - c if sg > 0 else None)
            for x, w in m.items():
                # w*x <= -k - c - rest
                rest_lo = c + k
                ok = True
                for y, u in m.items():
                    if y is x:
                        continue
                    l, h = num.interval(y, st)
                    e = l if u > 0 else h
                    if e is None:
                        ok = False
                        break
                    rest_lo += u * e
                if not ok:
                    continue
                bound = -rest_lo
                if w > 0:
                    self._setrng(st, x, None, bound // w)
                else:
                    self._setrng(st, x, -((bound) // -w), None)
            return
        la, ha = num.interval(a, st)
        lb, hb = num.interval(b, st)
        if isinstance(a, T) and hb is not None:
            self._setrng(st, a, None, hb)
        if isinstance(b, T) and la is not None:
            self._setrng(st, b, la, None)

    def _setrng(self, st, x, lo, hi):
        if not isinstance(x, T):
            return
        o = st.rng.get(x, (None, None))
        lo = o[0] if lo is None else lo if o[0] is None else max(lo, o[0])
        hi = o[1] if hi is None else hi if o[1] is None else min(hi, o[1])
        st.rng[x] = (lo, hi)
        if x.op == "floordiv" and isinstance(x.args[1], C) and x.args[1].v > 0 and x.ty == "int" and (lo, hi) != o:
            n = x.args[1].v
            c, m = num.lin(x.args[0])
            if len(m) == 1:
                (y, w), = m.items()
                l = None if lo is None else lo * n - c
                h = None if hi is None else hi * n + n - 1 - c
                if w < 0:
                    l, h, w = None if h is None else -h, None if l is None else -l, -w
                self._setrng(st, y, None if l is None else -(-l // w), None if h is None else h // w)
        if lo is not None and hi is not None:
            if lo > hi:
                raise Infeasible()
            if lo == hi and x.ty == "int" and x not in st.eqc:
                st.eqc[x] = C(int(lo))

    # ---- truth -----------------------------------------------------------
    def truth(self, cx, v):
        v = cx.force(v)
        return cx.cond(self.truthv(cx, v))

    def truthv(self, cx, v):
        """boolean V for bool(v)"""
        v = cx.force(v)
        if isinstance(v, C):
            return mkbool(bool(v.v))
        if isinstance(v, Tup):
            return mkbool(bool(v.items))
        if isinstance(v, Ref):
            o = cx.st.get(v.oid)
            if o.kind in ("list", "dict", "set"):
                return mkbool(bool(o.data))
            if o.kind == "ulist":
                return mkbool(True) if o.data else num_nonzero(T("len", (o.extra,), "int"))
            if o.kind == "bytearray":
                return self.truthv(cx, o.data[0])
            if o.kind == "inst":
                for m in ("__bool__", "__len__"):
                    f = self.class_attr(cx.st, o.cls, m)
                    if f is not None:
                        return self.truthv(cx, self.call(cx, Bound(v, f), [], {}))
            if o.kind == "ext" and hasattr(o.extra, "truth"):
                return o.extra.truth()
            return TRUE
        if isinstance(v, Wrap) and v.kind == "range":
            n = self.B.range_len(cx, v)
            return self.truthv(cx, n)
        if isinstance(v, Wrap) and v.kind == "instdict":
            return mkbool(bool(cx.st.get(v.args[0].oid).data))
        if isinstance(v, T):
            if v.ty == "bool":
                return v
            if v.ty in ("str", "bytes"):
                if S.minlen(v) > 0:
                    return TRUE
                e = S.eq(cx, v, C("") if v.ty == "str" else C(b""))
                return self.notv(e)
            if v.ty in ("int", "float"):
                return num_nonzero(v)
            if v.ty in ("datetime", "date", "time", "obj", "callable"):
                return TRUE
            if v.ty == "timedelta":
                return T("truth", (v,), "bool")
            return T("truth", (v,), "bool")
        return TRUE

    def notv(self, v):
        if isinstance(v, C):
            return mkbool(not v.v)
        if v.op == "not":
            return v.args[0]
        return T("not", (v,), "bool")

    # ---- blocks and statements ------------------------------------------
    def exec_block(self, stmts, states, sc):
        outs = []
        cur = list(states)
        for s in stmts:
            nxt = []
            for st in cur:
                for o in self.exec_stmt(s, st, sc):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = nxt
            if not cur:
                break
            if len(cur) > self.maxstates:
                raise Unsupported(f"too many states at {sc.modname}:{s.lineno}")
        outs.extend(Out("next", st) for st in cur)
        return outs

    def join(self, s0, outs):
        """join outcomes of a statement by completion kind"""
        if len(outs) < 2:
            return outs
        by = {}
        for o in outs:
            k = o.kind
            if k == "exc":
                k = ("exc", self.exc_class(o.st, o.val))
            by.setdefault(k, []).append(o)
        res = []
        for k, os_ in by.items():
            if len(os_) == 1:
                res.append(os_[0])
                continue
            js = join_states(s0, [(o.st, o.val) for o in os_])
            if k == "next" or k in ("ret", "brk", "cont"):
                res.extend(Out(k, st, v) for st, v in js)
            else:
                res.extend(Out("exc", st, v, os_[0].where) for st, v in js)
        return res

    def explore(self, st0, sc, node, fn):
        """all outcomes of evaluating fn(cx) from st0"""
        pend = [()]
        memo = {}
        res = []
        n = 0
        while pend:
            prefix = pend.pop()
            cx = Cx(self, st0.fork(), prefix, pend, memo)
            cx.node, cx.mod, cx.env, cx.fn = node, sc.modname, sc.env, sc.fn
            n += 1
            if n > 4000:
                raise Unsupported(f"too many alternatives at {sc.modname}:{getattr(node, 'lineno', 0)}")
            try:
                v = fn(cx)
                res.append(Out("next", cx.st, v))
            except AbsRaise as e:
                res.append(Out("exc", cx.st, e.exc, e.where))
            except Infeasible:
                pass
        return res

    def exec_stmt(self, s, st, sc):
        self.nstmts += 1
        if self.budget is not None and self.nstmts > self.budget:
            raise Unsupported("statement budget exhausted")
        self.covered.add((sc.modname, s.lineno))
        if self.preempt is not None:  # another thread may run before this statement
            res = []
            for st1 in self.preempt(s, st, sc):
                res += self._exec_stmt(s, st1, sc)
            return res
        return self._exec_stmt(s, st, sc)

    def _exec_stmt(self, s, st, sc):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {sc.modname}:{s.lineno}")
        try:
            outs = m(s, st, sc)
        except RecursionError:
            raise Unsupported("recursion limit") from None
        return self.join(st, outs)

    def simple(self, s, st, sc, fn):
        outs = self.explore(st, sc, s, fn)
        for o in outs:
            if o.kind == "next":
                o.val = None
        return outs

    # simple statements
    def s_Expr(self, s, st, sc):
        if isinstance(s.value, ast.Constant):
            return [Out("next", st)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            h = self.yieldh.get(sc.env)
            if h is not None:
                return self.hand_over(s, s.value, st, sc, h)
            return self.simple(s, st, sc, lambda cx: self.do_yield(cx, s.value, sc))
        return self.simple(s, st, sc, lambda cx: self.ev(cx, s.value, sc))

    def hand_over(self, s, node, st, sc, h):
        """a yield whose consumer's body runs right here"""
        res = []
        val = node.value
        for o in self.explore(st, sc, s, lambda cx: cx.force(self.ev(cx, val, sc)) if val else NONE):
            if o.kind == "exc":
                res.append(o)
            elif isinstance(node, ast.Yield):
                res.extend(Out("next", x) for x in h(o.st, o.val))
            else:
                res.extend(self.loop_over(s, o.st, sc, o.val, lambda x, v: [Out("next", y) for y in h(x, v)]))
        return res

    def start_gen(self, cx, ref, h=None):
        """all outcomes of running a generator to its end; with h, each value goes to h as it comes"""
        o = cx.st.get(ref.oid)
        st = cx.st.fork()
        if not o.data:
            return [Out("ret", st, st.alloc("iter", None, []))]
        envr, f = o.data
        st.write(ref.oid).data = []
        saved = st.frames
        st.frames = saved + (envr.oid,)
        lst = None
        if h is None:
            lst = st.alloc("list", None, [])
            st.write(envr.oid).data["__yield__"] = lst
        if self.depth >= self.maxdepth:
            raise Unsupported(f"call depth at {f.name}")
        self.depth += 1
        sc = Scope(self, f.mod, envr.oid, f, f.node, kind="func", info=self.scope_of(f))
        had = self.yieldh.pop(envr.oid, None)
        if h is not None:
            self.yieldh[envr.oid] = h
        try:
            outs = self.exec_block(f.node.body, [st], sc)
        finally:
            self.depth -= 1
            self.yieldh.pop(envr.oid, None)
            if had is not None:
                self.yieldh[envr.oid] = had
        res = []
        for o in outs:
            ost = o.st.fork()
            if o.kind in ("next", "ret"):
                items = [] if lst is None else list(ost.get(lst.oid).data)
                o = Out("ret", ost, ost.alloc("iter", None, items))
            elif o.kind != "exc":
                raise Unsupported("stray " + o.kind)
            ost.frames = saved
            res.append(Out(o.kind, ost, o.val, o.where))
        return self.join(cx.st, res)

    def drain(self, cx, ref):
        """the values of a generator not yet started, all at once"""
        key = (tuple(cx.taken), cx.ncall)
        cx.ncall += 1
        outs = cx.memo.get(key)
        if outs is None:
            outs = cx.memo[key] = self.start_gen(cx, ref)
        if not outs:
            raise Infeasible()
        o = outs[cx.choose(len(outs))]
        cx.st = o.st.fork()
        if o.kind == "exc":
            raise AbsRaise(o.val, o.where)
        return list(cx.st.get(o.val.oid).data)

    def quietly(self, cx, fn, what, mine=()):
        """fn(), which may happen earlier here than in the program: it must not be noticeable"""
        before = cx.st
        cx.st = before.fork()
        n0, tr = before.nid, before.trace
        try:
            r = fn()
        except AbsRaise:
            raise Unsupported(f"an exception inside {what}") from None
        if cx.st.trace != tr or any(
                oid < n0 and o is not before.heap.get(oid) and oid not in mine
                for oid, o in cx.st.heap.items()):
            raise Unsupported(f"effects inside {what}")
        return r

    def do_yield(self, cx, node, sc):
        if isinstance(node, ast.Yield):
            items = [self.ev(cx, node.value, sc) if node.value else NONE]
        else:
            items = self.B.iterate(cx, self.ev(cx, node.value, sc))
        lst = cx.st.get(sc.env).data.get("__yield__")
        if lst is None:
            raise Unsupported("the value of a yield expression")
        cx.st.write(lst.oid).data.extend(items)
        return NONE

    def s_Pass(self, s, st, sc):
        return [Out("next", st)]

    s_Global = s_Nonlocal = s_Pass

    def s_Assign(self, s, st, sc):
        def f(cx):
            v = self.ev(cx, s.value, sc)
            for t in s.targets:
                self.assign(cx, t, v, sc)
        return self.simple(s, st, sc, f)

    def s_AnnAssign(self, s, st, sc):
        if s.value is None:
            return [Out("next", st)]
        return self.simple(s, st, sc, lambda cx: self.assign(cx, s.target, self.ev(cx, s.value, sc), sc))

    def s_AugAssign(self, s, st, sc):
        def f(cx):
            if isinstance(s.target, ast.Name):
                cur = self.load_name(cx, s.target.id, sc)
                r = self.ev(cx, s.value, sc)
                self.store_name(cx, s.target.id, self.B.augop(cx, s.op, cur, r), sc)
            elif isinstance(s.target, ast.Attribute):
                o = cx.force(self.ev(cx, s.target.value, sc))
                cur = self.getattr(cx, o, s.target.attr)
                r = self.ev(cx, s.value, sc)
                self.setattr(cx, o, s.target.attr, self.B.augop(cx, s.op, cur, r))
            else:
                o = cx.force(self.ev(cx, s.target.value, sc))
                k = self.ev_index(cx, s.target.slice, sc)
                cur = self.B.getitem(cx, o, k)
                r = self.ev(cx, s.value, sc)
                self.B.setitem(cx, o, k, self.B.augop(cx, s.op, cur, r))
        return self.simple(s, st, sc, f)

    def s_Return(self, s, st, sc):
        outs = self.explore(st, sc, s, lambda cx: self.ev(cx, s.value, sc) if s.value else NONE)
        for o in outs:
            if o.kind == "next":
                o.kind = "ret"
        return outs

    def s_Raise(self, s, st, sc):
        def f(cx):
            if s.exc is None:
                if not cx.st.excs:
                    cx.raise_("RuntimeError", "No active exception to reraise")
                raise AbsRaise(cx.st.excs[-1], self.where(cx))
            e = cx.force(self.ev(cx, s.exc, sc))
            if isinstance(e, (Cls, Bi)):
                e = self.call(cx, e, [], {})
            cause = None if s.cause is None else cx.force(self.ev(cx, s.cause, sc))
            if not self.is_exc(cx.st, e):
                cx.raise_("TypeError", "exceptions must derive from BaseException")
            if isinstance(e, Ref) and cx.st.get(e.oid).kind == "inst":
                d = cx.st.write(e.oid).data
                if cause is not None:
                    d["__cause__"] = self.call(cx, cause, [], {}) if isinstance(cause, (Cls, Bi)) else cause
                if cx.st.excs and cx.st.excs[-1] is not e:
                    d["__context__"] = cx.st.excs[-1]
            raise AbsRaise(e, self.where(cx))
        return self.simple(s, st, sc, f)

    def s_Assert(self, s, st, sc):
        def f(cx):
            if not self.truth(cx, self.ev(cx, s.test, sc)):
                cx.raise_("AssertionError")
        return self.simple(s, st, sc, f)

    def s_Delete(self, s, st, sc):
        def f(cx):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.store_name(cx, t.id, UNBOUND, sc)
                elif isinstance(t, ast.Attribute):
                    self.delattr(cx, cx.force(self.ev(cx, t.value, sc)), t.attr)
                elif isinstance(t, ast.Subscript):
                    o = cx.force(self.ev(cx, t.value, sc))
                    self.B.delitem(cx, o, self.ev_index(cx, t.slice, sc))
        return self.simple(s, st, sc, f)

    # compound statements
    def s_If(self, s, st, sc):
        outs = self.explore(st, sc, s, lambda cx: mkbool(self.truth(cx, self.ev(cx, s.test, sc))))
        res = []
        for pol, body in ((TRUE, s.body), (FALSE, s.orelse)):
            sts = [(o.st, None) for o in outs if o.kind == "next" and o.val is pol]
            if not sts:
                continue
            js = join_states(st, sts)
            for stt, _ in js:
                if not body:
                    res.append(Out("next", stt))
                else:
                    res.extend(self.exec_block(body, [stt], sc))
        res.extend(o for o in outs if o.kind == "exc")
        return res

    def loop_over(self, s, st, sc, it, bodyfn):
        """run bodyfn(state, value) -> outcomes for the values of it, one by one"""
        if isinstance(it, Ref) and st.get(it.oid).kind == "gen":
            return self.for_gen(s, st, sc, it, bodyfn)
        res = []
        for o in self.explore(st, sc, s, lambda cx: self.B.iter_plan(cx, it)):
            if o.kind == "exc":
                res.append(o)
            else:
                res.extend(self.run_for(s, o.st, sc, o.val, bodyfn))
        return res

    def for_gen(self, s, st0, sc, ref, bodyfn):
        saved = st0.frames
        left = []

        def h(st, v):
            nxt = []
            for b in bodyfn(st, v):
                if b.kind in ("next", "cont"):
                    nxt.append(b.st)
                else:
                    left.append(b)
            return nxt
        o = st0.get(ref.oid)
        close = o.data and any(isinstance(n, (ast.With, ast.Try)) and (isinstance(n, ast.With) or n.finalbody)
                               and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(n))
                               for n in walk_local(o.data[1].node))
        cx = Cx(self, st0.fork())
        cx.node, cx.mod, cx.env, cx.fn = s, sc.modname, sc.env, sc.fn
        outs = self.start_gen(cx, ref, h)
        res, broke = [], []
        for o in outs:
            if o.kind == "exc":
                res.append(o)
            elif getattr(s, "orelse", None):
                res.extend(self.exec_block(s.orelse, [o.st], sc))
            else:
                res.append(Out("next", o.st))
        for b in left:
            if close:
                raise Unsupported("a generator left early with something to clean up")
            b.st = b.st.fork()
            b.st.frames = saved
            if b.kind == "brk":
                b = Out("next", b.st)
            res.append(b)
        return res

    def body_fn(self, s, sc):
        def run(st, v):
            res = []
            for o in self.explore(st, sc, s, lambda cx: self.assign(cx, s.target, v, sc)):
                if o.kind == "exc":
                    res.append(o)
                else:
                    res.extend(self.exec_block(s.body, [o.st], sc))
            return res
        return run

    def as_while(self, s):
        w = self.stepped.get(id(s))
        if w is None:
            name = f"__it{s.lineno}_{s.col_offset}"
            asg = ast.Assign([s.target], LazyValue(name))
            w = ast.While(LazyStep(name), [asg] + s.body, s.orelse)
            for x in (asg, asg.value, w, w.test):
                ast.copy_location(x, s)
            self.stepped[id(s)] = w, s
            return w
        return w[0]

    def e_LazyStep(self, cx, e, sc):
        env = sc.target_scope().env
        it = cx.force(cx.st.get(env).data[e.name])
        v = self.B.step(cx, it)
        cx.st.write(env).data[e.name + "v"] = NONE if v is None else v
        return FALSE if v is None else TRUE

    def e_LazyValue(self, cx, e, sc):
        return cx.st.get(sc.target_scope().env).data[e.name + "v"]

    def s_For(self, s, st, sc):
        alt = loops.index_loop(s)
        plain = isinstance(s.iter, (ast.Name, ast.Attribute))

        def f(cx):
            it = cx.force(self.ev(cx, s.iter, sc))
            how = self.B.stepwise(cx, it, plain)
            if how is not None:
                return how
            plan = self.B.iter_plan(cx, it)
            if alt is not None and plan.tail is not None:
                x = cx.force(self.ev(cx, alt.iter, sc))
                if S.isS(x):
                    plan = self.B.iter_plan(cx, x)
                    plan.node = alt
            return plan
        outs = self.explore(st, sc, s, f)
        res = []
        for o in outs:
            if o.kind == "exc":
                res.append(o)
                continue
            plan = o.val
            if isinstance(plan, Ref):
                if o.st.get(plan.oid).kind == "gen":
                    res.extend(self.for_gen(s, o.st, sc, plan, self.body_fn(s, sc)))
                    continue
                w = self.as_while(s)
                o.st.write(sc.target_scope().env).data[w.test.name] = plan
                res.extend(self.s_While(w, o.st, sc))
                continue
            res.extend(self.run_for(getattr(plan, "node", None) or s, o.st, sc, plan))
        return res

    def run_for(self, s, st0, sc, plan, bodyfn=None):
        """plan: object with .items (list of V) and .tail (None or generator of unknown)"""
        res = []
        cur = [st0]
        runb = bodyfn
        def body(states, v):
            nxt = []
            for st in states:
                for b in runb(st, v):
                    if b.kind in ("next", "cont"):
                        nxt.append(b.st)
                    elif b.kind == "brk":
                        broke.append(b.st)
                    else:
                        res.append(b)
            return nxt
        if runb is None:
            runb = self.body_fn(s, sc)
        broke = []
        n = 0
        for v in plan.items:
            base = cur[0] if len(cur) == 1 else st0
            cur = body(cur, v)
            if len(cur) > 1:
                cur = [x for x, _ in join_states(base, [(c, None) for c in cur])]
            if len(cur) > self.maxstates:
                raise Unsupported(f"too many states in loop {sc.modname}:{s.lineno}")
            n += 1
            if not cur:
                break
        if plan.tail is not None and cur:
            cur = plan.tail(self, s, cur, sc, body, res)
        if getattr(s, "orelse", None):
            for st in cur:
                res.extend(self.exec_block(s.orelse, [st], sc))
        else:
            res.extend(Out("next", st) for st in cur)
        res.extend(Out("next", st) for st in broke)
        return res

    def s_While(self, s, st0, sc):
        res = []
        cur = [st0]
        done = []
        broke = []
        seen = set()
        n = 0
        while cur:
            n += 1
            if n > self.maxloop:
                raise Unsupported(f"loop bound at {sc.modname}:{s.lineno}")
            nxt = []
            for st in cur:
                if self.loop_hook is not None:
                    st = self.loop_hook(self, s, st, sc, n, seen)
                    if st is None:
                        continue
                outs = self.explore(st, sc, s, lambda cx: mkbool(self.truth(cx, self.ev(cx, s.test, sc))))
                for o in outs:
                    if o.kind == "exc":
                        res.append(o)
                    elif o.val is FALSE:
                        done.append(o.st)
                    else:
                        for b in self.exec_block(s.body, [o.st], sc):
                            if b.kind in ("next", "cont"):
                                nxt.append(b.st)
                            elif b.kind == "brk":
                                broke.append(b.st)
                            else:
                                res.append(b)
            cur = nxt
            if len(cur) > 1:
                cur = [x for x, _ in join_states(st0, [(c, None) for c in cur])]
            if len(cur) > self.maxstates:
                raise Unsupported(f"too many states in loop {sc.modname}:{s.lineno}")
        if s.orelse:
            for st in done:
                res.extend(self.exec_block(s.orelse, [st], sc))
        else:
            res.extend(Out("next", st) for st in done)
        res.extend(Out("next", st) for st in broke)
        return res

    def s_Break(self, s, st, sc):
        return [Out("brk", st)]

    def s_Continue(self, s, st, sc):
        return [Out("cont", st)]

    def s_Try(self, s, st, sc):
        outs = self.exec_block(s.body, [st], sc)
        res = []
        for o in self.join(st, outs):
            if o.kind == "next":
                if s.orelse:
                    res.extend(self.exec_block(s.orelse, [o.st], sc))
                else:
                    res.append(o)
            elif o.kind == "exc":
                res.extend(self.handle(s, o, sc))
            else:
                res.append(o)
        if s.finalbody:
            fin = []
            for o in self.join(st, res):
                for b in self.exec_block(s.finalbody, [o.st], sc):
                    if b.kind == "next":
                        fin.append(Out(o.kind, b.st, o.val, o.where))
                    else:
                        fin.append(b)
            res = fin
        return res

    def handle(self, s, o, sc):
        for h in s.handlers:
            if h.type is None:
                match = True
            else:
                outs = self.explore(o.st, sc, h, lambda cx: self.ev(cx, h.type, sc))
                if len(outs) != 1 or outs[0].kind != "next":
                    raise Unsupported("exception handler type")
                match = self.exc_match(o.st, o.val, outs[0].val)
            if not match:
                continue
            st = o.st.fork()
            st.excs = st.excs + (o.val,)
            if h.name:
                cx = Cx(self, st)
                cx.node, cx.mod, cx.env, cx.fn = h, sc.modname, sc.env, sc.fn
                self.store_name(cx, h.name, o.val, sc)
                st = cx.st
            res = []
            for b in self.exec_block(h.body, [st], sc):
                bst = b.st.fork()
                bst.excs = bst.excs[:-1]
                if h.name:
                    cx = Cx(self, bst)
                    cx.node, cx.mod, cx.env, cx.fn = h, sc.modname, sc.env, sc.fn
                    self.store_name(cx, h.name, UNBOUND, sc)
                res.append(Out(b.kind, bst, b.val, b.where))
            return res
        return [o]

    def s_With(self, s, st, sc):
        # evaluate managers in order
        def f(cx):
            ms = []
            for i in s.items:
                m = cx.force(self.ev(cx, i.context_expr, sc))
                v = m
                if isinstance(m, Ref) and cx.st.get(m.oid).kind == "inst":
                    v = self.call(cx, self.getattr(cx, m, "__enter__"), [], {})
                if i.optional_vars is not None:
                    self.assign(cx, i.optional_vars, v, sc)
                ms.append(m)
            return Tup(ms)
        res = []
        for o in self.explore(st, sc, s, f):
            if o.kind == "exc":
                res.append(o)
                continue
            ms = o.val.items
            for b in self.exec_block(s.body, [o.st], sc):
                outs = [b]
                for m in reversed(ms):
                    nxt = []
                    for b2 in outs:
                        nxt.extend(self.exit_cm(m, b2, sc, s))
                    outs = nxt
                res.extend(outs)
        return res

    def exit_cm(self, m, b, sc, s):
        if isinstance(m, Wrap) and m.kind == "suppress":
            if b.kind == "exc" and any(self.exc_match(b.st, b.val, t) for t in m.args):
                return [Out("next", b.st)]
            return [b]
        if isinstance(m, Ref) and b.st.get(m.oid).kind == "inst":
            def g(cx):
                e = b.val if b.kind == "exc" else NONE
                r = self.call(cx, self.getattr(cx, m, "__exit__"), [NONE if e is NONE else self.exc_class(cx.st, e), e, NONE], {})
                return mkbool(b.kind == "exc" and self.truth(cx, r))
            res = []
            for o in self.explore(b.st, sc, s, g):
                if o.kind == "exc":
                    res.append(o)
                elif o.val is TRUE:
                    res.append(Out("next", o.st))
                else:
                    res.append(Out(b.kind, o.st, b.val, b.where))
            return res
        return [b]

    def s_FunctionDef(self, s, st, sc):
        return self.simple(s, st, sc, lambda cx: self.store_name(cx, s.name, self.make_fn(cx, s, sc), sc))

    def make_fn(self, cx, s, sc):
        a = s.args
        defaults = tuple(self.ev(cx, d, sc) for d in a.defaults)
        kwd = tuple((k.arg, self.ev(cx, d, sc)) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
        name = getattr(s, "name", "<lambda>")
        isgen = not isinstance(s, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(s))
        env = sc.env if sc.kind != "module" else None
        if sc.kind == "class":
            env = sc.outer_env
        f = Fn(s, sc.modname, env, defaults, kwd, name, sc.cls if sc.kind == "class" else None, isgen)
        v = f
        for d in reversed(getattr(s, "decorator_list", [])):
            dv = cx.force(self.ev(cx, d, sc))
            v = self.decorate(cx, dv, v, d, sc)
        return v

    def decorate(self, cx, dv, v, d, sc):
        if isinstance(dv, Bi):
            if dv.name in ("property", "staticmethod", "classmethod"):
                return Wrap(dv.name, v)
            if dv.name in ("functools.cached_property",):
                return Wrap("property", v)
            if dv.name in ("functools.lru_cache", "functools.cache"):
                r = cx.st.alloc("dict", None, {})
                return Wrap("cached", v, r)
            if dv.name in ("typing.overload", "typing.final", "typing.no_type_check", "abc.abstractmethod", "typing.override"):
                return v
        if isinstance(dv, Wrap) and dv.kind == "propsetter":
            p = dv.args[0]
            return Wrap("property", p.args[0], v)
        if isinstance(dv, Wrap) and dv.kind == "lru":
            r = cx.st.alloc("dict", None, {})
            return Wrap("cached", v, r)
        return self.call(cx, dv, [v], {})

    def s_ClassDef(self, s, st, sc):
        def f(cx):
            bases = tuple(cx.force(self.ev(cx, b, sc)) for b in s.bases)
            ref = cx.st.alloc("class", s.name, {})
            cls = Cls(s.name, ref.oid, bases, sc.modname, s)
            csc = Scope(self, sc.modname, ref.oid, None, s, kind="class", outer=sc, cls=cls)
            outs = self.exec_block(s.body, [cx.st], csc)
            nx = [o for o in outs if o.kind == "next"]
            if len(nx) != 1:
                raise Unsupported(f"class body {s.name}")
            cx.st = nx[0].st
            v = cls
            if s.keywords:
                raise Unsupported("class keywords")
            for b in bases:
                if isinstance(b, Bi) and b.name in ("typing.NamedTuple", "collections.NamedTuple"):
                    synth.named(self, cx, cls, sc)
                elif isinstance(b, Bi) and b.name == "enum.Enum":
                    synth.enum(self, cx, cls, sc)
                elif isinstance(b, Bi) and b.name.startswith("enum."):
                    raise Unsupported(b.name)
            for d in reversed(s.decorator_list):
                dv = cx.force(self.ev(cx, d, sc))
                if isinstance(dv, Bi) and dv.name == "dataclasses.dataclass":
                    synth.dataclass(self, cx, cls, sc, {})
                    continue
                if isinstance(dv, Wrap) and dv.kind == "dataclass":
                    synth.dataclass(self, cx, cls, sc, dict(dv.args))
                    continue
                if isinstance(dv, Bi) or isinstance(dv, Wrap):
                    continue
                v = self.call(cx, dv, [v], {})
            self.store_name(cx, s.name, v, sc)
        return self.simple(s, st, sc, f)

    def s_Import(self, s, st, sc):
        def f(cx):
            for a in s.names:
                m = self.import_module(cx, a.name)
                if a.asname:
                    self.store_name(cx, a.asname, m, sc)
                else:
                    top = a.name.split(".")[0]
                    self.store_name(cx, top, self.import_module(cx, top), sc)
        return self.simple(s, st, sc, f)

    def import_module(self, cx, name):
        if name in self.files:
            if name not in self.modules:
                saved = self._st
                fr = cx.st.frames
                self._st = cx.st
                m = self.load(name)
                cx.st = self._st
                cx.st.frames = fr
                self._st = saved if saved is not cx.st else self._st
            return self.modules[name]
        return Mod(name)

    def s_ImportFrom(self, s, st, sc):
        def f(cx):
            name = s.module or ""
            if s.level:
                pk = sc.modname if self.files.get(sc.modname, "").endswith("__init__.py") else sc.modname.rpartition(".")[0]
                for _ in range(s.level - 1):
                    pk = pk.rpartition(".")[0]
                name = pk + ("." + name if name else "")
            for a in s.names:
                if f"{name}.{a.name}" in self.files and name == self.pkg:
                    v = self.import_module(cx, f"{name}.{a.name}")
                    self.store_name(cx, a.asname or a.name, v, sc)
                    continue
                m = self.import_module(cx, name)
                if a.name == "*" and m.oid is None:  # the standard library
                    try:
                        real = importlib.import_module(name)
                    except ImportError:
                        raise Unsupported(f"import * from {name}") from None
                    for k in getattr(real, "__all__", None) or [k for k in vars(real) if not k.startswith("_")]:
                        self.store_name(cx, k, self.getattr(cx, m, k), sc)
                    continue
                if a.name == "*":
                    data = cx.st.get(m.oid).data
                    al = data.get("__all__")
                    if al is not None:
                        o = cx.st.get(al.oid).data if isinstance(al, Ref) else al.items
                        names = [x.v for x in o]
                    else:
                        names = [k for k in data if not k.startswith("_")]
                    for k in names:
                        self.store_name(cx, k, data[k], sc)
                    continue
                self.store_name(cx, a.asname or a.name, self.getattr(cx, m, a.name), sc)
        return self.simple(s, st, sc, f)

    def s_Match(self, s, st, sc):
        res = []
        outs = self.explore(st, sc, s, lambda cx: cx.force(self.ev(cx, s.subject, sc)))
        for o in outs:
            if o.kind == "exc":
                res.append(o)
                continue
            cur = [o.st]
            subj = o.val
            for case in s.cases:
                nxt = []
                for stt in cur:
                    def f(cx, case=case):
                        if not self.match(cx, case.pattern, subj, sc):
                            return FALSE
                        if case.guard is not None:
                            return mkbool(self.truth(cx, self.ev(cx, case.guard, sc)))
                        return TRUE
                    for m in self.explore(stt, sc, s, f):
                        if m.kind == "exc":
                            res.append(m)
                        elif m.val is TRUE:
                            res.extend(self.exec_block(case.body, [m.st], sc))
                        else:
                            nxt.append(m.st)
                cur = nxt
            res.extend(Out("next", x) for x in cur)
        return res

    def match(self, cx, p, v, sc):
        v = cx.force(v)
        if isinstance(p, ast.MatchValue):
            return cx.cond(self.B.equal(cx, v, self.ev(cx, p.value, sc)))
        if isinstance(p, ast.MatchSingleton):
            return cx.cond(self.B.is_(cx, v, C(p.value)))
        if isinstance(p, ast.MatchOr):
            return any(self.match(cx, q, v, sc) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(cx, p.pattern, v, sc):
                return False
            if p.name:
                self.store_name(cx, p.name, v, sc)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            c = self.ev(cx, p.cls, sc)
            return cx.cond(self.B.isinstance_(cx, v, c))
        if isinstance(p, ast.MatchSequence):
            if S.isS(v) or not isinstance(v, (Tup, Ref)):
                return False
            items = self.B.iterate(cx, v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                if len(items) != len(p.patterns):
                    return False
                return all(self.match(cx, q, x, sc) for q, x in zip(p.patterns, items))
            k = star[0]
            after = len(p.patterns) - k - 1
            if len(items) < k + after:
                return False
            if not all(self.match(cx, q, x, sc) for q, x in zip(p.patterns[:k], items)):
                return False
            if p.patterns[k].name:
                self.store_name(cx, p.patterns[k].name, cx.newlist(items[k:len(items) - after]), sc)
            return all(self.match(cx, q, x, sc) for q, x in zip(p.patterns[k + 1:], items[len(items) - after:]))
        raise Unsupported(f"pattern {type(p).__name__}")

    # ---- assignment ------------------------------------------------------
    def assign(self, cx, t, v, sc):
        if isinstance(t, ast.Name):
            self.store_name(cx, t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(cx, cx.force(self.ev(cx, t.value, sc)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = cx.force(self.ev(cx, t.value, sc))
            self.B.setitem(cx, o, self.ev_index(cx, t.slice, sc), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(cx, t.elts, v, sc)
        elif isinstance(t, ast.Starred):
            self.assign(cx, t.value, v, sc)
        else:
            raise Unsupported(f"target {type(t).__name__}")

    def unpack(self, cx, elts, v, sc):
        v = cx.force(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        items, tail = self.B.iterate2(cx, v)
        if tail is None:
            if not star:
                if len(items) != n:
                    cx.raise_("ValueError", "unpack")
                for e, x in zip(elts, items):
                    self.assign(cx, e, x, sc)
                return
            k = star[0]
            after = n - k - 1
            if len(items) < n - 1:
                cx.raise_("ValueError", "unpack")
            for e, x in zip(elts[:k], items):
                self.assign(cx, e, x, sc)
            self.assign(cx, elts[k].value, cx.newlist(items[k:len(items) - after]), sc)
            for e, x in zip(elts[k + 1:], items[len(items) - after:]):
                self.assign(cx, e, x, sc)
            return
        # unknown number of further items
        ln = T("len", (tail,), "int")
        elem = self.B.tail_elem
        if not star:
            need = n - len(items)
            if need < 0 or not cx.cond(self.B.num_eq(ln, C(need))):
                cx.raise_("ValueError", "unpack")
            items = items + [elem(tail, C(i)) for i in range(need)]
            for e, x in zip(elts, items):
                self.assign(cx, e, x, sc)
            return
        k = star[0]
        after = n - k - 1
        if after == 0:
            while len(items) < k:
                i = len(items)
                if cx.cond(num.ltc(ln, C(k - len(items)))):
                    cx.raise_("ValueError", "unpack")
                items = items + [elem(tail, C(j)) for j in range(k - len(items))]
                tail = T("taildrop", (tail, k - i), tail.ty)
            for e, x in zip(elts[:k], items):
                self.assign(cx, e, x, sc)
            self.assign(cx, elts[k].value, cx.st.alloc("ulist", None, list(items[k:]), tail), sc)
            return
        raise Unsupported("starred unpack of unknown-length sequence")

    # ---- names -----------------------------------------------------------
    def load_name(self, cx, name, sc):
        v = self._load(cx, name, sc)
        if isinstance(v, T) and cx.st.eqc:
            k = cx.st.eqc.get(v)
            if k is not None:
                return k
        return v

    def _load(self, cx, name, sc):
        e = sc
        if sc.kind == "module":
            return self.load_global(cx, name, sc.modname)
        oid = sc.env
        if sc.kind == "class":
            d = cx.st.get(oid).data
            if name in d:
                return d[name]
            oid = sc.outer_env
            if oid is None:
                return self.load_global(cx, name, sc.modname)
        first = True
        loc = sc.locals if sc.kind == "func" else None
        if loc is not None and name in sc.globals_:
            return self.load_global(cx, name, sc.modname)
        while oid is not None:
            o = cx.st.get(oid)
            if name in o.data:
                v = o.data[name]
                if v is UNBOUND or isinstance(v, Phi) and any(a is UNBOUND for _, a in v.alts):
                    v = cx.force(v)
                return v
            if first and loc is not None and name in loc:
                cx.raise_("UnboundLocalError", name)
            first = False
            oid = o.extra[0]
        return self.load_global(cx, name, sc.modname)

    def load_global(self, cx, name, modname):
        m = self.modules[modname]
        d = cx.st.get(m.oid).data
        if name in d:
            v = d[name]
            if isinstance(v, T) and v.op == "poison":
                raise Unsupported(v.args[0].v)
            return v
        v = self.B.builtin_name(name)
        if v is None:
            cx.raise_("NameError", name)
        return v

    def store_name(self, cx, name, v, sc):
        if sc.kind == "module":
            m = self.modules[sc.modname]
            cx.st.write(m.oid).data[name] = v
            return
        if sc.kind == "class":
            cx.st.write(sc.env).data[name] = v
            return
        if name in sc.globals_:
            m = self.modules[sc.modname]
            if not self.initialising:
                cx.st.event("gwrite", (sc.modname, name), self.where(cx))
            cx.st.write(m.oid).data[name] = v
            return
        if name in sc.nonlocals_:
            oid = cx.st.get(sc.env).extra[0]
            while oid is not None:
                o = cx.st.get(oid)
                if name in o.data:
                    cx.st.write(oid).data[name] = v
                    return
                oid = o.extra[0]
        cx.st.write(sc.env).data[name] = v

    # ---- expressions -----------------------------------------------------
    def ev(self, cx, e, sc):
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, ast.Name):
            return self.load_name(cx, e.id, sc)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {sc.modname}:{e.lineno}")
        old = cx.node
        cx.node = e
        r = m(cx, e, sc)
        cx.node = old
        if isinstance(r, T) and cx.st.eqc:
            k = cx.st.eqc.get(r)
            if k is not None:
                return k
        return r

    def e_Attribute(self, cx, e, sc):
        o = cx.force(self.ev(cx, e.value, sc))
        return self.getattr(cx, o, e.attr)

    def e_Subscript(self, cx, e, sc):
        o = cx.force(self.ev(cx, e.value, sc))
        return self.B.getitem(cx, o, self.ev_index(cx, e.slice, sc))

    def ev_index(self, cx, s, sc):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else cx.force(self.ev(cx, x, sc))  # noqa: E731
            return Wrap("slice", f(s.lower) or NONE, f(s.upper) or NONE, f(s.step) or NONE)
        return cx.force(self.ev(cx, s, sc))

    def e_Slice(self, cx, e, sc):
        return self.ev_index(cx, e, sc)

    def e_BinOp(self, cx, e, sc):
        a = self.ev(cx, e.left, sc)
        b = self.ev(cx, e.right, sc)
        return self.B.binop(cx, e.op, cx.force(a), cx.force(b))

    def e_UnaryOp(self, cx, e, sc):
        v = cx.force(self.ev(cx, e.operand, sc))
        if isinstance(e.op, ast.Not):
            return self.notv(self.truthv(cx, v))
        return self.B.unop(cx, e.op, v)

    def e_BoolOp(self, cx, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = cx.force(self.ev(cx, x, sc))
            if i == len(e.values) - 1:
                return v
            t = self.truth(cx, v)
            if t != isand:
                if isinstance(v, T) and v.ty == "bool":
                    return mkbool(t)
                return v
        return v

    def e_Compare(self, cx, e, sc):
        left = self.ev(cx, e.left, sc)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(cx, r, sc)
            res = self.B.compare(cx, op, cx.force(left), cx.force(right))
            if i < len(e.ops) - 1:
                if not self.truth(cx, res):
                    return FALSE
            left = right
        return res

    def e_IfExp(self, cx, e, sc):
        if self.truth(cx, self.ev(cx, e.test, sc)):
            return self.ev(cx, e.body, sc)
        return self.ev(cx, e.orelse, sc)

    def e_Call(self, cx, e, sc):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            slf = cx.st.get(sc.env).data
            first = next(iter(slf.values()))
            if sc.fn is None or sc.fn.cls is None:
                raise Unsupported("super() outside a method")
            return Wrap("super", sc.fn.cls, first)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "eval", "exec") and not self._shadowed(cx, e.func.id, sc):
            if e.func.id == "locals":
                return cx.newdict({C(k): v for k, v in cx.st.get(sc.env).data.items() if v is not UNBOUND})
            if e.func.id == "globals":
                return Wrap("instdict", Ref(self.modules[sc.modname].oid))
            raise Unsupported(e.func.id)
        f = cx.force(self.ev(cx, e.func, sc))
        if isinstance(f, Bi) and f.name in ("any", "all", "next") and e.args and isinstance(e.args[0], ast.GeneratorExp) \
                and not e.keywords and f.name not in self.bi_over:
            self.callsites.add((sc.modname, e.lineno, e.col_offset))
            if f.name == "next":
                v = self.first_of(cx, e.args[0], sc, lambda v: True)
                if v is None and len(e.args) == 1:
                    cx.raise_("StopIteration")
                return self.ev(cx, e.args[1], sc) if v is None else v
            if len(e.args) == 1:
                want = f.name == "any"
                v = self.first_of(cx, e.args[0], sc, lambda v: cx.truth(v) == want)
                return mkbool((v is None) != want)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.B.iterate(cx, self.ev(cx, a.value, sc)))
            else:
                args.append(self.ev(cx, a, sc))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = cx.force(self.ev(cx, k.value, sc))
                for kk, vv in self.B.dict_items(cx, d):
                    kk = cx.force(kk)
                    if not isinstance(kk, C):
                        raise Unsupported("** with symbolic keys")
                    kw[kk.v] = vv
            else:
                kw[k.arg] = self.ev(cx, k.value, sc)
        self.callsites.add((sc.modname, e.lineno, e.col_offset))
        if isinstance(f, Bi) and f.name in ("map", "filter", "zip", "enumerate", "itertools.chain", "itertools.islice"):
            if getattr(e, "_full", False):
                return self.call(cx, f, args, kw)
            if f.name in ("map", "filter") or any(self.B.islazy(cx, a) for a in args):
                return self.quietly(cx, lambda: self.call(cx, f, args, kw), f"a {f.name} object")
        return self.call(cx, f, args, kw)

    def _shadowed(self, cx, name, sc):
        return name in cx.st.get(self.modules[sc.modname].oid).data

    def e_Tuple(self, cx, e, sc):
        return Tup(self.elts(cx, e.elts, sc))

    def e_List(self, cx, e, sc):
        return cx.newlist(self.elts(cx, e.elts, sc))

    def e_Set(self, cx, e, sc):
        return cx.newset([cx.force(x) for x in self.elts(cx, e.elts, sc)])

    def elts(self, cx, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.B.iterate(cx, self.ev(cx, x.value, sc)))
            else:
                out.append(self.ev(cx, x, sc))
        return out

    def e_Dict(self, cx, e, sc):
        d = {}
        dup = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.B.dict_items(cx, cx.force(self.ev(cx, v, sc))):
                    d[kk] = vv
                continue
            kk = cx.force(self.ev(cx, k, sc))
            if kk in d:
                dup.append((kk, k.lineno))
            d[kk] = self.ev(cx, v, sc)
        if dup and self.initialising:
            for kk, ln in dup:
                cx.st.event("dupkey", (sc.modname, kk), (sc.modname, ln))
        return cx.newdict(d)

    def e_Lambda(self, cx, e, sc):
        return self.make_fn(cx, e, sc)

    def e_NamedExpr(self, cx, e, sc):
        v = self.ev(cx, e.value, sc)
        self.store_name(cx, e.target.id, v, sc.target_scope())
        return v

    def e_Starred(self, cx, e, sc):
        return self.ev(cx, e.value, sc)

    def e_JoinedStr(self, cx, e, sc):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(C(v.value))
            else:
                ps.append(self.e_FormattedValue(cx, v, sc))
        return S.cat(ps)

    def e_FormattedValue(self, cx, e, sc):
        v = cx.force(self.ev(cx, e.value, sc))
        if e.conversion == ord("r"):
            v = self.B.repr_(cx, v)
        elif e.conversion == ord("s"):
            v = self.B.str_(cx, v)
        elif e.conversion == ord("a"):
            v = self.B.repr_(cx, v)
        spec = EMPTY
        if e.format_spec is not None:
            spec = self.e_JoinedStr(cx, e.format_spec, sc)
        return self.B.format_(cx, v, spec)

    def e_ListComp(self, cx, e, sc):
        return cx.newlist(self.comp(cx, e, sc, lambda c, s2: self.ev(c, e.elt, s2)))

    def e_SetComp(self, cx, e, sc):
        return cx.newset([cx.force(x) for x in self.comp(cx, e, sc, lambda c, s2: self.ev(c, e.elt, s2))])

    def e_GeneratorExp(self, cx, e, sc):
        def run():
            return self.comp(cx, e, sc, lambda c, s2: self.ev(c, e.elt, s2))
        if getattr(e, "_full", False):
            items = run()
        else:
            items = self.quietly(cx, run, "a generator expression")
        return cx.st.alloc("iter", None, list(items))

    def first_of(self, cx, e, sc, stop):
        """the element of a generator expression at which stop() ends it, None when it never does"""
        class Found(Exception):
            pass

        def elt(c, s2):
            v = self.ev(c, e.elt, s2)
            if stop(v):
                f = Found()
                f.v = v
                raise f
        try:
            self.comp(cx, e, sc, elt, True)
        except Found as f:
            return f.v
        return None

    def e_DictComp(self, cx, e, sc):
        prs = self.comp(cx, e, sc, lambda c, s2: Tup((c.force(self.ev(c, e.key, s2)), self.ev(c, e.value, s2))))
        return cx.newdict({p.items[0]: p.items[1] for p in prs})

    def comp(self, cx, e, sc, elt, partial=False):
        env = cx.st.alloc("env", None, {}, (sc.env if sc.kind != "module" else None, sc.modname, "comp"))
        s2 = Scope(self, sc.modname, env.oid, sc.fn, None, kind="comp", outer=sc)
        if sc.kind == "class":
            cx.st.write(env.oid).extra = (sc.outer_env, sc.modname, "comp")
        # keep the environment alive across joins
        cx.st.frames = cx.st.frames + (env.oid,)
        out = []

        def rec(i):
            if i == len(e.generators):
                out.append(elt(cx, s2))
                return
            g = e.generators[i]
            it = cx.force(self.ev(cx, g.iter, s2 if i else sc))
            if partial and isinstance(g.iter, (ast.Name, ast.Attribute)) and isinstance(it, Ref) \
                    and cx.st.get(it.oid).kind == "iter":
                raise Unsupported("part of an iterator taken by a generator expression")
            if self.B.islazy(cx, it) and not (isinstance(e.elt if hasattr(e, "elt") else e.value, (ast.Name, ast.Constant))
                                              and not any(x.ifs for x in e.generators)):
                items, tail = self.quietly(cx, lambda: self.B.iterate2(cx, it), "an iterator of a comprehension")
            else:
                items, tail = self.B.iterate2(cx, it)
            if tail is not None:
                raise Unsupported("comprehension over unknown-length sequence")
            for x in items:
                self.assign(cx, g.target, x, s2)
                if all(self.truth(cx, self.ev(cx, c, s2)) for c in g.ifs):
                    rec(i + 1)
        try:
            rec(0)
        finally:
            if env.oid in cx.st.frames:
                cx.st.frames = tuple(f for f in cx.st.frames if f != env.oid)
        return out

    # ---- attributes ------------------------------------------------------
    def mro(self, cls):
        out = []

        def rec(c):
            if c in out:
                return
            out.append(c)
            if isinstance(c, Cls):
                for b in c.bases:
                    rec(b)
        rec(cls)
        return out

    def class_attr(self, st, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Cls):
                d = st.get(c.oid).data
                if name in d:
                    return d[name]
        return None

    def bind(self, cx, v, obj, cls):
        if isinstance(v, Fn):
            return Bound(obj, v)
        if isinstance(v, Wrap):
            if v.kind == "property":
                return self.call(cx, v.args[0], [obj], {})
            if v.kind == "staticmethod":
                return v.args[0]
            if v.kind == "classmethod":
                return Bound(cls, v.args[0])
            if v.kind == "cached":
                return Bound(obj, v)
        return v

    def getattr(self, cx, o, name, default=None):
        """default: V returned instead of raising AttributeError"""
        o = cx.force(o)
        if isinstance(o, Ref):
            ob = cx.st.get(o.oid)
            k = ob.kind
            if k == "inst":
                if isinstance(ob.cls, Cls):
                    ca = self.class_attr(cx.st, ob.cls, name)
                    if isinstance(ca, Wrap) and ca.kind == "property":
                        return self.call(cx, ca.args[0], [o], {})
                else:
                    ca = None
                if name in ob.data:
                    v = ob.data[name]
                    if v is UNBOUND or isinstance(v, Phi) and any(a is UNBOUND for _, a in v.alts):
                        v = cx.force_attr(v) if hasattr(cx, "force_attr") else self.force_attr(cx, v)
                        if v is None:
                            if default is not None:
                                return default
                            cx.raise_("AttributeError", name)
                    return v
                if ca is not None:
                    return self.bind(cx, ca, o, ob.cls)
                if name == "__dict__":
                    return Wrap("instdict", o)
                if name == "__class__":
                    return ob.cls
                if name in ("__setattr__", "__delattr__", "__repr__", "__str__", "__eq__", "__hash__", "__init__", "__getattribute__"):
                    return Wrap("objmeth", o, name)
                if self.is_exc_cls(ob.cls) and name in ("args", "__cause__", "__context__", "__traceback__", "with_traceback", "__notes__", "add_note"):
                    return ob.data.get(name, NONE)
                # symbolic attribute names
                for kk in ob.data:
                    if isinstance(kk, T):
                        r = S.eq(cx, kk, C(name))
                        if r is TRUE or r is not FALSE and cx.cond(r):
                            return ob.data[kk]
                if isinstance(ob.cls, Cls):
                    ga = self.class_attr(cx.st, ob.cls, "__getattr__")
                    if ga is not None:
                        try:
                            return self.call(cx, Bound(o, ga), [C(name)], {})
                        except AbsRaise as e:
                            if default is not None and self.exc_match(cx.st, e.exc, Bi("AttributeError")):
                                return default
                            raise
                if default is not None:
                    return default
                cx.raise_("AttributeError", name)
            if k == "ext":
                return ob.extra.getattr(cx, o, name) if hasattr(ob.extra, "getattr") else Wrap("meth", o, name)
            if k == "class":
                raise Unsupported("class object ref")
            r = self.B.obj_attr(cx, o, ob, name)
            if r is not None:
                return r
            if default is not None:
                return default
            cx.raise_("AttributeError", name)
        if isinstance(o, Cls):
            v = self.class_attr(cx.st, o, name)
            if v is not None:
                if isinstance(v, Wrap) and v.kind == "staticmethod":
                    return v.args[0]
                if isinstance(v, Wrap) and v.kind == "classmethod":
                    return Bound(o, v.args[0])
                return v
            if name in ("__name__", "__qualname__"):
                return C(o.name)
            if name == "__new__":
                return Wrap("objnew", o)
            if name == "__dict__":
                return Wrap("instdict", Ref(o.oid))
            if self.is_exc_cls(o) or name in ("__setattr__", "__init__", "__delattr__", "__repr__"):
                return Wrap("unbound", Bi("object"), name)
            if default is not None:
                return default
            cx.raise_("AttributeError", name)
        if isinstance(o, Mod):
            if o.oid is not None:
                d = cx.st.get(o.oid).data
                if name in d:
                    return d[name]
                sub = f"{o.name}.{name}"
                if sub in self.modules:
                    return self.modules[sub]
                if name == "__dict__":
                    return Wrap("instdict", Ref(o.oid))
                if default is not None:
                    return default
                cx.raise_("AttributeError", f"{o.name}.{name}")
            return self.B.std_attr(o.name, name)
        if isinstance(o, Wrap):
            if o.kind == "super":
                cls, slf = o.args
                kls = cx.st.get(slf.oid).cls if isinstance(slf, Ref) and cx.st.get(slf.oid).kind == "inst" else slf
                m = self.mro(kls)
                i = m.index(cls) if cls in m else 0
                for c in m[i + 1:]:
                    if isinstance(c, Cls):
                        d = cx.st.get(c.oid).data
                        if name in d:
                            return self.bind(cx, d[name], slf, kls)
                return Wrap("objmeth", slf, name)
            if o.kind == "property" and name in ("setter", "getter", "deleter"):
                return Wrap("propsetter" if name == "setter" else "propother", o)
            if o.kind == "property" and name == "fget":
                return o.args[0]
            if o.kind == "cached" and name in ("cache_clear", "cache_info", "__wrapped__"):
                return o.args[0] if name == "__wrapped__" else Wrap("meth", o, name)
            if o.kind in ("instdict", "range", "dictview"):
                return Wrap("meth", o, name)
        if isinstance(o, Bi):
            return self.B.bi_attr(cx, o, name)
        if isinstance(o, (Fn, Bound)):
            fn = o.fn if isinstance(o, Bound) else o
            if isinstance(fn, Fn) and fn.mod in self.modules:
                v = cx.st.get(self.modules[fn.mod].oid).data.get(self.fn_key(fn, name))
                v = None if v is None else self.force_attr(cx, v)
                if v is not None:
                    return v
            if name in ("__name__", "__qualname__", "__doc__"):
                return C(o.name if isinstance(o, Fn) else getattr(o.fn, "name", "?"))
            if name == "__self__" and isinstance(o, Bound):
                return o.self
            if name == "__func__" and isinstance(o, Bound):
                return o.fn
        r = self.B.val_attr(cx, o, name)
        if r is not None:
            return r
        if default is not None:
            return default
        cx.raise_("AttributeError", name)

    def force_attr(self, cx, v):
        """like force, but returns None for an attribute absent on this path"""
        while isinstance(v, Phi):
            ok = []
            for g, a in v.alts:
                if all(self.decide(cx.st, t) in (None, p) for t, p in g):
                    ok.append((g, a))
            if not ok:
                raise Infeasible()
            pres = [a for _, a in ok if a is not UNBOUND]
            if len(pres) == len(ok):
                return v
            if not pres:
                return None
            g, a = ok[cx.choose(len(ok))]
            for t, p in sorted(g, key=lambda tp: tp[0].n):
                self.assume(cx.st, t, p)
            v = a
        return None if v is UNBOUND else v

    def setattr(self, cx, o, name, v):
        o = cx.force(o)
        if isinstance(o, Ref):
            ob = cx.st.get(o.oid)
            if ob.kind == "inst":
                if isinstance(ob.cls, Cls):
                    f = self.class_attr(cx.st, ob.cls, "__setattr__")
                    if f is not None:
                        self.call(cx, Bound(o, f), [C(name) if isinstance(name, str) else name, v], {})
                        return
                self.raw_setattr(cx, o, name, v)
                return
            if ob.kind == "ext":
                return
            cx.raise_("AttributeError", str(name))
        if isinstance(o, Cls):
            if not self.initialising:
                cx.st.event("gwrite", (o.name, name), self.where(cx))
            cx.st.write(o.oid).data[name] = v
            return
        if isinstance(o, Mod) and o.oid is not None:
            if not self.initialising:
                cx.st.event("gwrite", (o.name, name), self.where(cx))
            cx.st.write(o.oid).data[name] = v
            return
        if isinstance(o, Fn) and isinstance(name, str):
            if not self.initialising:
                cx.st.event("gwrite", (o.name, name), self.where(cx))
            cx.st.write(self.modules[o.mod].oid).data[self.fn_key(o, name)] = v
            return
        if isinstance(o, (Wrap, Mod)):
            raise Unsupported(f"attribute of {o!r} set")
        cx.raise_("AttributeError", str(name))

    def fn_key(self, f, name):
        """where the module keeps an attribute of a function"""
        return f"{f.name}@{f.node.lineno}:{f.node.col_offset}{'' if f.env is None else f.env}.{name}"

    def raw_setattr(self, cx, o, name, v):
        if not isinstance(o, Ref):
            raise Unsupported("object.__setattr__ on non-object")
        ob = cx.st.get(o.oid)
        name = name.v if isinstance(name, C) else name
        if isinstance(ob.cls, Cls) and isinstance(name, str):
            ca = self.class_attr(cx.st, ob.cls, name)
            if isinstance(ca, Wrap) and ca.kind == "property":
                if len(ca.args) > 1:
                    self.call(cx, ca.args[1], [o, v], {})
                    return
                cx.raise_("AttributeError", f"can't set attribute {name}")
            sl = self.class_attr(cx.st, ob.cls, "__slots__")
            if sl is not None:
                pass
        w = cx.st.write(o.oid)
        w.data[name] = v

    def delattr(self, cx, o, name):
        o = cx.force(o)
        if isinstance(o, Ref):
            ob = cx.st.get(o.oid)
            if ob.kind == "inst":
                if isinstance(ob.cls, Cls):
                    f = self.class_attr(cx.st, ob.cls, "__delattr__")
                    if f is not None:
                        self.call(cx, Bound(o, f), [C(name) if isinstance(name, str) else name], {})
                        return
                self.raw_delattr(cx, o, name)
                return
        raise Unsupported("del attribute")

    def raw_delattr(self, cx, o, name):
        name = name.v if isinstance(name, C) else name
        ob = cx.st.get(o.oid)
        if name not in ob.data:
            cx.raise_("AttributeError", str(name))
        del cx.st.write(o.oid).data[name]

    # ---- exceptions ------------------------------------------------------
    def exc_class(self, st, e):
        e = e.alts[0][1] if isinstance(e, Phi) else e
        if isinstance(e, Ref):
            return st.get(e.oid).cls
        if isinstance(e, T):
            return e.args[0] if e.op == "exc" else Bi("Exception")
        return e

    def is_exc_cls(self, c):
        return any(isinstance(b, Bi) and b.name in EXC_NAMES for b in self.mro(c))

    def is_exc(self, st, e):
        if isinstance(e, Ref):
            ob = st.get(e.oid)
            return ob.kind == "inst" and self.is_exc_cls(ob.cls)
        return isinstance(e, T) and e.op == "exc"

    def subclass(self, c, k):
        """is class c a subclass of class k"""
        if c is k:
            return True
        if isinstance(k, Bi) and k.name == "object":
            return True
        for b in self.mro(c):
            if b is k:
                return True
            if isinstance(b, Bi) and isinstance(k, Bi) and b.name in EXC_NAMES and k.name in EXC_NAMES:
                if issubclass(EXC_NAMES[b.name], EXC_NAMES[k.name]):
                    return True
        return False

    def exc_match(self, st, e, t):
        c = self.exc_class(st, e)
        if isinstance(t, Tup):
            return any(self.exc_match(st, e, x) for x in t.items)
        if isinstance(t, Phi):
            raise Unsupported("exception type")
        return self.subclass(c, t)

    # ---- calls -----------------------------------------------------------
    def call(self, cx, f, args, kw):
        f = cx.force(f)
        if isinstance(f, Bound):
            return self.call(cx, f.fn, [f.self] + args, kw)
        if isinstance(f, Fn):
            ov = self.fn_over.get((f.mod, f.name))
            if ov is not None:
                return ov(cx, args, kw)
            return self.call_fn(cx, f, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(cx, f, args, kw)
        if isinstance(f, Bi):
            ov = self.bi_over.get(f.name)
            if ov is not None:
                return ov(cx, args, kw)
            return self.B.call_builtin(cx, f.name, args, kw)
        if isinstance(f, Wrap):
            return self.B.call_wrap(cx, f, args, kw)
        if isinstance(f, T):
            cx.st.event("call", (f, tuple(args), tuple(sorted(kw.items()))), self.where(cx))
            return T("ret", (f,) + cx.st.fresh(), "any")
        if isinstance(f, Ref):
            ob = cx.st.get(f.oid)
            if ob.kind == "inst":
                m = self.class_attr(cx.st, ob.cls, "__call__") if isinstance(ob.cls, Cls) else None
                if m is not None:
                    return self.call(cx, Bound(f, m), args, kw)
            if ob.kind == "ext":
                return ob.extra.call(cx, f, "__call__", args, kw)
        cx.raise_("TypeError", "not callable")

    def instantiate(self, cx, cls, args, kw):
        new = self.class_attr(cx.st, cls, "__new__")
        data = {}
        if self.is_exc_cls(cls):
            data["args"] = Tup(args)
        if new is not None:
            f = new.args[0] if isinstance(new, Wrap) else new
            ref = cx.force(self.call(cx, f, [cls] + args, kw))
            if not (isinstance(ref, Ref) and cx.st.get(ref.oid).kind == "inst"):
                return ref
        else:
            ref = cx.st.alloc("inst", cls, data)
        init = self.class_attr(cx.st, cls, "__init__")
        if init is not None:
            self.call(cx, Bound(ref, init), args, kw)
        elif not self.is_exc_cls(cls) and (args or kw):
            if new is None:
                cx.raise_("TypeError", f"{cls.name}() takes no arguments")
        return ref

    def call_fn(self, cx, f, args, kw):
        key = (tuple(cx.taken), cx.ncall)
        cx.ncall += 1
        outs = cx.memo.get(key)
        if outs is None:
            outs = self.run_fn(cx, f, args, kw)
            cx.memo[key] = outs
        if not outs:
            raise Infeasible()
        o = outs[cx.choose(len(outs))]
        cx.st = o.st.fork()
        if o.kind == "exc":
            raise AbsRaise(o.val, o.where)
        return o.val

    def run_fn(self, cx, f, args, kw):
        """all outcomes ('ret'/'exc') of calling f in cx.st"""
        self.ncalls += 1
        if self.depth >= self.maxdepth:
            raise Unsupported(f"call depth at {f.name}")
        st = cx.st.fork()
        roots0 = st.roots
        st.roots = roots0 + tuple(v for v in [f, *args, *kw.values()] if not isinstance(v, C))
        node = f.node
        fsc = self.scope_of(f)
        env = st.alloc("env", None, {}, (f.env, f.mod, f.name))
        sub = Cx(self, st)
        sub.node, sub.mod, sub.env, sub.fn = cx.node, cx.mod, cx.env, getattr(cx, "fn", None)
        try:
            self.bind_args(sub, f, env, args, kw)
        except AbsRaise as e:
            sub.st.roots = roots0
            return [Out("exc", sub.st, e.exc, e.where)]
        st = sub.st
        self.funcs.add((f.mod, f.name))
        if f.isgen:
            g = st.alloc("gen", None, [env, f])
            st.roots = roots0
            return [Out("ret", st, g)]
        saved = st.frames
        st.frames = st.frames + (env.oid,)
        self.depth += 1
        sc = Scope(self, f.mod, env.oid, f, node, kind="func", info=fsc)
        try:
            if isinstance(node, ast.Lambda):
                outs = self.explore(st, sc, node, lambda c: self.ev(c, node.body, sc))
                for o in outs:
                    if o.kind == "next":
                        o.kind = "ret"
            else:
                outs = self.exec_block(node.body, [st], sc)
        finally:
            self.depth -= 1
        res = []
        for o in outs:
            ost = o.st
            if ost.frames != saved:
                ost = ost.fork()
                ost.frames = saved
            if o.kind == "next":
                res.append(Out("ret", ost, NONE))
            elif o.kind in ("ret", "exc"):
                res.append(Out(o.kind, ost, o.val, o.where))
            else:
                raise Unsupported("stray " + o.kind)
        res = self.join(cx.st, res)
        for o in res:
            if o.st.roots != roots0:
                o.st = o.st.fork()
                o.st.roots = roots0
        return res

    def bind_args(self, cx, f, env, args, kw):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        d = {}
        kw = dict(kw)
        if len(args) > len(params):
            if a.vararg is None:
                cx.raise_("TypeError", f"{f.name}() takes {len(params)} positional arguments but {len(args)} were given")
            d_var = args[len(params):]
        else:
            d_var = []
        for p, v in zip(params, args):
            d[p] = v
        posonly = {p.arg for p in a.posonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in params and k not in posonly:
                if k in d:
                    cx.raise_("TypeError", f"{f.name}() got multiple values for argument '{k}'")
                d[k] = v
            elif any(k == p.arg for p in a.kwonlyargs):
                d[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                cx.raise_("TypeError", f"{f.name}() got an unexpected keyword argument '{k}'")
        nd = len(f.defaults)
        for p, v in zip(params[len(params) - nd:], f.defaults):
            d.setdefault(p, v)
        for k, v in f.kwdefaults:
            d.setdefault(k, v)
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p not in d:
                cx.raise_("TypeError", f"{f.name}() missing required argument: '{p}'")
        # keep declaration order (super() needs the first parameter first)
        out = {p: d[p] for p in params}
        out.update({p.arg: d[p.arg] for p in a.kwonlyargs})
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(d_var)
        if a.kwarg is not None:
            out[a.kwarg.arg] = cx.newdict({C(k): v for k, v in extra.items()})
        cx.st.write(env.oid).data.update(out)

    def scope_of(self, f):
        r = self._locals.get(id(f.node))
        if r is None:
            r = scope_info(f.node)
            self._locals[id(f.node)] = r
        return r

    # ---- entry points for clients ---------------------------------------
    def run(self, f, args=(), kw=None, st=None, name="client"):
        """All outcomes of calling value f from state st: list of Out (ret/exc)."""
        st = st or self.newstate()
        sc = Scope(self, f"{self.pkg}", None, None, None, kind="client")
        pend_outs = self.explore(st, sc, None, lambda cx: self.call(cx, f, list(args), dict(kw or {})))
        outs = []
        for o in pend_outs:
            outs.append(Out("ret" if o.kind == "next" else o.kind, o.st, o.val, o.where))
        return outs

    def do(self, fn, st=None):
        """All outcomes of an arbitrary client function fn(cx)."""
        st = st or self.newstate()
        sc = Scope(self, f"{self.pkg}", None, None, None, kind="client")
        return [Out("ret" if o.kind == "next" else o.kind, o.st, o.val, o.where)
                for o in self.explore(st, sc, None, fn)]


def _has_cat_empty(a, b):
    return isinstance(b, C) and len(b.v) == 0 and isinstance(a, T) and a.op == "cat"


def num_nonzero(v):
    return T("not", (T("eq", (v, C(0)), "bool"),), "bool")


def bound_names(s):
    """names a module-level statement may bind"""
    out = set()
    for n in [s] + list(walk_local(s)):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.partition(".")[0] for a in n.names}
    if isinstance(s, ast.ClassDef):
        return {s.name}
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return {s.name}
    return out


def walk_local(node):
    """walk a function body without entering nested functions or classes"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def scope_info(node):
    glob, nonl, loc = set(), set(), set()
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(p.arg)
    for p in (a.vararg, a.kwarg):
        if p is not None:
            loc.add(p.arg)
    if not isinstance(node, ast.Lambda):
        def visit(n, incomp):
            if isinstance(n, ast.Global):
                glob.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nonl.update(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not incomp:
                loc.add(n.id)
            elif isinstance(n, ast.NamedExpr):
                loc.add(n.target.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                loc.add(n.name)
                for d in n.decorator_list:
                    visit(d, incomp)
                return
            elif isinstance(n, ast.Lambda):
                return
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    loc.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.MatchAs) and n.name:
                loc.add(n.name)
            elif isinstance(n, ast.MatchStar) and n.name:
                loc.add(n.name)
            inc = incomp or isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))
            for c in ast.iter_child_nodes(n):
                visit(c, inc)
        for s in node.body:
            visit(s, False)
    loc -= glob
    loc -= nonl
    return (frozenset(loc), frozenset(glob), frozenset(nonl))


class LazyStep(ast.expr):
    """moves the iterator kept under a name one step on; false at its end"""

    _fields = ()

    def __init__(self, name):
        super().__init__()
        self.name = name


class LazyValue(LazyStep):
    """the value that step gave"""


WHOLE = {"list", "tuple", "set", "frozenset", "dict", "sum", "bytes", "bytearray", "sorted", "max", "min", "Counter",
         "deque", "OrderedDict"}
WHOLE_M = {"join", "extend", "update", "writelines", "fromkeys"}
WRAPS = {"map": 1, "filter": 1, "zip": 0, "enumerate": 0, "chain": 0, "iter": 0, "reversed": 0,
         "from_iterable": 0}


def mark_consumed(tree):
    """mark the lazy expressions whose every element is taken at once"""
    def mark(e):
        if isinstance(e, ast.GeneratorExp):
            e._full = True
        elif isinstance(e, ast.Call):
            e._full = True
            n = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, "attr", "")
            if n in WRAPS:
                for a in e.args[WRAPS[n]:]:
                    mark(a)
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in WHOLE or isinstance(f, ast.Attribute) and f.attr in WHOLE_M | WHOLE:
                for a in n.args:
                    mark(a)
            elif ast.unparse(f) in ("reduce", "functools.reduce") and len(n.args) > 1:
                mark(n.args[1])
        elif isinstance(n, ast.Starred):
            mark(n.value)
        elif isinstance(n, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets):
            mark(n.value)
        elif isinstance(n, ast.For) and not any(isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.Raise, ast.Call))
                                                for b in n.body for x in ast.walk(b)):
            mark(n.iter)
        elif isinstance(n, ast.comprehension):
            pass


class Scope:
    __slots__ = ("it", "modname", "env", "fn", "node", "kind", "outer", "cls", "locals",
                 "globals_", "nonlocals_", "outer_env")

    def __init__(self, it, modname, env, fn, node, kind="module", outer=None, cls=None, info=None):
        self.it, self.modname, self.env, self.fn, self.node = it, modname, env, fn, node
        self.kind, self.outer, self.cls = kind, outer, cls
        self.locals, self.globals_, self.nonlocals_ = info or (frozenset(), frozenset(), frozenset())
        self.outer_env = None
        if kind == "class" and outer is not None and outer.kind in ("func", "comp"):
            self.outer_env = outer.env

    def target_scope(self):
        s = self
        while s.kind == "comp":
            s = s.outer
        return s
