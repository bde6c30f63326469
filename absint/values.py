"""Abstract values.

Every value is immutable and interned, so identity is equality.

C     a constant
T     a term: an operator applied to values - the *provenance* of a value that
      is not a constant.  Atoms are terms with operator 'atom'.
Tup   an immutable tuple of values
Ref   a reference to an abstract heap object
Phi   a guarded union: one of several values, each under a set of literals
Fn / Bound / Cls / Bi / Mod   callables, classes and modules
"""

from __future__ import annotations


class V:
    __slots__ = ()


_CI: dict = {}
_TI: dict = {}
_TUPI: dict = {}
_PHII: dict = {}
_REFI: dict = {}


class C(V):
    __slots__ = ("v",)

    def __new__(cls, v):
        if isinstance(v, float):
            k = (float, repr(v))
        elif isinstance(v, (tuple, frozenset)):
            k = (type(v), repr(v))
        else:
            k = (type(v), v)
        o = _CI.get(k)
        if o is None:
            o = object.__new__(cls)
            o.v = v
            _CI[k] = o
        return o

    def __repr__(self):
        return repr(self.v)


class Props:
    """Facts that hold of an atom by construction."""

    __slots__ = ("minlen", "maxlen", "incl", "excl", "lo", "hi", "aware", "nonan", "extra")

    def __init__(self, minlen=0, maxlen=None, incl=None, excl=frozenset(), lo=None,
                 hi=None, aware=None, nonan=True, extra=None):
        self.minlen = minlen
        self.maxlen = maxlen
        self.incl = incl
        self.excl = frozenset(excl)
        self.lo = lo
        self.hi = hi
        self.aware = aware
        self.nonan = nonan
        self.extra = extra


class T(V):
    __slots__ = ("op", "args", "ty", "props", "_iv", "_si", "n")

    def __new__(cls, op, args=(), ty="any", props=None):
        k = (op, args)
        o = _TI.get(k)
        if o is None:
            o = object.__new__(cls)
            o.op = op
            o.args = args
            o.ty = ty
            o.props = props
            o._iv = None
            o._si = None
            o.n = len(_TI)
            _TI[k] = o
        return o

    def __repr__(self):
        if self.op == "atom":
            return f"<{self.args[0]}>"
        if self.op == "cat":
            return "cat(" + "+".join(map(repr, self.args)) + ")"
        return f"{self.op}({', '.join(map(repr, self.args))})"


class Tup(V):
    __slots__ = ("items",)

    def __new__(cls, items):
        items = tuple(items)
        o = _TUPI.get(items)
        if o is None:
            o = object.__new__(cls)
            o.items = items
            _TUPI[items] = o
        return o

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class Ref(V):
    __slots__ = ("oid",)

    def __new__(cls, oid):
        o = _REFI.get(oid)
        if o is None:
            o = object.__new__(cls)
            o.oid = oid
            _REFI[oid] = o
        return o

    def __repr__(self):
        return f"&{self.oid}"


class Phi(V):
    """alts: tuple of (guard: frozenset of (term, bool), value)"""

    __slots__ = ("alts",)

    def __new__(cls, alts):
        alts = tuple(alts)
        o = _PHII.get(alts)
        if o is None:
            o = object.__new__(cls)
            o.alts = alts
            _PHII[alts] = o
        return o

    def __repr__(self):
        return "Phi{" + "; ".join(
            ("&".join(("" if p else "!") + repr(t) for t, p in g) or "-") + " => " + repr(v)
            for g, v in self.alts) + "}"


class Fn(V):
    """A function defined in the analysed source (function def or lambda)."""

    __slots__ = ("node", "mod", "env", "defaults", "kwdefaults", "name", "cls", "isgen", "_key")
    _int: dict = {}

    def __new__(cls, node, mod, env, defaults, kwdefaults, name, owner, isgen):
        k = (id(node), mod, env, defaults, kwdefaults, owner)
        o = cls._int.get(k)
        if o is None:
            o = object.__new__(cls)
            o.node, o.mod, o.env, o.defaults = node, mod, env, defaults
            o.kwdefaults, o.name, o.cls, o.isgen, o._key = kwdefaults, name, owner, isgen, k
            cls._int[k] = o
        return o

    def __repr__(self):
        return f"fn:{self.name}"


class Bound(V):
    __slots__ = ("self", "fn")
    _int: dict = {}

    def __new__(cls, slf, fn):
        k = (slf, fn)
        o = cls._int.get(k)
        if o is None:
            o = object.__new__(cls)
            o.self, o.fn = slf, fn
            cls._int[k] = o
        return o

    def __repr__(self):
        return f"bound({self.self!r}.{self.fn!r})"


class Wrap(V):
    """staticmethod / classmethod / property wrappers, super proxies, partials..."""

    __slots__ = ("kind", "args")
    _int: dict = {}

    def __new__(cls, kind, *args):
        k = (kind, args)
        o = cls._int.get(k)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.args = kind, args
            cls._int[k] = o
        return o

    def __repr__(self):
        return f"{self.kind}{self.args!r}"


class Cls(V):
    """A class defined in the analysed source; its attributes are in heap object oid."""

    __slots__ = ("name", "oid", "bases", "mod", "node")
    _int: dict = {}

    def __new__(cls, name, oid, bases, mod, node):
        k = (name, oid)
        o = cls._int.get(k)
        if o is None:
            o = object.__new__(cls)
            o.name, o.oid, o.bases, o.mod, o.node = name, oid, bases, mod, node
            cls._int[k] = o
        return o

    def __repr__(self):
        return f"class:{self.name}"


class Bi(V):
    """A builtin or standard-library callable / class / object, by dotted name."""

    __slots__ = ("name",)
    _int: dict = {}

    def __new__(cls, name):
        o = cls._int.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._int[name] = o
        return o

    def __repr__(self):
        return f"bi:{self.name}"


class Mod(V):
    __slots__ = ("name", "oid")
    _int: dict = {}

    def __new__(cls, name, oid=None):
        o = cls._int.get((name, oid))
        if o is None:
            o = object.__new__(cls)
            o.name, o.oid = name, oid
            cls._int[(name, oid)] = o
        return o

    def __repr__(self):
        return f"mod:{self.name}"


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
EMPTY = C("")
UNBOUND = T("unbound", (), "unbound")


def atom(name, ty, **kw):
    key = tuple((k, tuple(sorted(v)) if isinstance(v, frozenset) else v) for k, v in sorted(kw.items()))
    t = T("atom", (name, ty, key), ty, None)
    if t.props is None:
        t.props = Props(**kw)
    return t


def mkbool(b):
    return TRUE if b else FALSE


def atoms_of(v, acc=None):
    """All atoms occurring in a value."""
    if acc is None:
        acc = set()
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(y for y in x if isinstance(y, (V, tuple)))
            continue
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, T):
            if x.op == "atom":
                acc.add(x)
            st.extend(a for a in x.args if isinstance(a, (V, tuple)))
        elif isinstance(x, Tup):
            st.extend(x.items)
        elif isinstance(x, Phi):
            for g, a in x.alts:
                st.append(a)
                st.extend(t for t, _ in g)
    return acc
