"""Models of builtins, container and string operations, and the standard-library
calls the repository uses."""

from __future__ import annotations

from fractions import Fraction
import ast
import builtins as _pyb
import datetime as _dt
import importlib
import math as _math
import operator as _op
import re as _re

from . import num, strings as S, dtm
from .values import (V, C, T, Tup, Ref, Phi, Fn, Bound, Wrap, Cls, Bi, Mod, NONE, TRUE,
                     FALSE, EMPTY, UNBOUND, mkbool, atom)

OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
       ast.Mod: "%", ast.Pow: "**", ast.BitXor: "^", ast.BitAnd: "&", ast.BitOr: "|",
       ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
PYOP = {"+": _op.add, "-": _op.sub, "*": _op.mul, "/": _op.truediv, "//": _op.floordiv,
        "%": _op.mod, "**": _op.pow, "^": _op.xor, "&": _op.and_, "|": _op.or_,
        "<<": _op.lshift, ">>": _op.rshift}


def _interp():
    from . import interp
    return interp


def unsupported(msg):
    raise _interp().Unsupported(msg)


# --------------------------------------------------------------------------
# names
# --------------------------------------------------------------------------

_BLT = {"__name__": None}


def builtin_name(name):
    if name in ("__file__",):
        return C("?")
    if name == "__debug__":
        return TRUE
    if hasattr(_pyb, name):
        o = getattr(_pyb, name)
        if name in _interp().EXC_NAMES:
            return Bi(_interp().EXC_BY_OBJ.get(o, name))
        if isinstance(o, (bool, int, str)) or o is None or o is NotImplemented or o is Ellipsis:
            return C(o)
        return Bi(name)
    return None


_CANON = {}


def std_attr(mod, name):
    try:
        m = importlib.import_module(mod)
    except ImportError:
        unsupported(f"module {mod}")
    if not hasattr(m, name):
        try:
            importlib.import_module(f"{mod}.{name}")
            return Mod(f"{mod}.{name}")
        except ImportError:
            unsupported(f"{mod}.{name}")
    o = getattr(m, name)
    I = _interp()
    if isinstance(o, type) and o in I.EXC_BY_OBJ:
        return Bi(I.EXC_BY_OBJ[o])
    if isinstance(o, type(importlib)):
        return Mod(f"{mod}.{name}")
    if isinstance(o, (int, float, str, bytes)) and not isinstance(o, type):
        try:
            return C(int(o)) if isinstance(o, int) and not isinstance(o, bool) else C(o)
        except TypeError:
            pass
    if isinstance(o, (_dt.timezone, _dt.datetime)):
        return C(o)
    if o is getattr(_pyb, getattr(o, "__name__", ""), object()):
        return Bi(o.__name__)
    return Bi(f"{mod}.{name}")


def resolve(name):
    p = name.split(".")
    if len(p) == 1:
        return getattr(_pyb, name)
    for i in range(len(p) - 1, 0, -1):
        try:
            o = importlib.import_module(".".join(p[:i]))
        except ImportError:
            if i == 1:
                o = getattr(_pyb, p[0])
            else:
                continue
        for x in p[i:]:
            o = getattr(o, x)
        return o
    raise AttributeError(name)


def bi_attr(cx, o, name):
    if name == "__name__":
        return C(o.name.split(".")[-1])
    if o.name.split(".")[0] in ("datetime", "io", "int", "float", "bytes", "bytearray", "str", "dict", "object", "functools", "itertools", "socket", "list", "set", "tuple", "frozenset", "re"):
        real = resolve(o.name)
        if hasattr(real, name):
            x = getattr(real, name)
            if isinstance(x, (_dt.datetime, _dt.timedelta, _dt.timezone, _dt.date, _dt.time, int, float, str)):
                return C(x)
            return Bi(f"{o.name}.{name}")
    if o.name in _interp().EXC_NAMES:
        return Bi(f"{o.name}.{name}")
    if o.name in ("typing.Literal", "typing.Any"):
        return o
    unsupported(f"attribute {o.name}.{name}")


# --------------------------------------------------------------------------
# types
# --------------------------------------------------------------------------

PYT = {"int": int, "float": float, "str": str, "bytes": bytes, "bool": bool, "list": list,
       "dict": dict, "tuple": tuple, "set": set, "bytearray": bytearray, "object": object,
       "datetime.datetime": _dt.datetime, "datetime.date": _dt.date, "datetime.time": _dt.time,
       "datetime.timedelta": _dt.timedelta, "types.NoneType": type(None), "frozenset": frozenset,
       "complex": complex, "datetime.timezone": _dt.timezone, "range": range}
TSUPER = {"int": ("int",), "float": ("float",), "str": ("str",), "bytes": ("bytes",),
          "bool": ("bool", "int"), "datetime": ("datetime.datetime", "datetime.date"),
          "date": ("datetime.date",), "time": ("datetime.time",), "timedelta": ("datetime.timedelta",)}


def typename(cx, v):
    v = cx.force(v)
    if isinstance(v, C):
        return type(v.v).__name__
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(v, T):
        return v.ty
    if isinstance(v, Ref):
        o = cx.st.get(v.oid)
        return {"ulist": "list"}.get(o.kind, o.kind)
    return "other"


def isinstance_(cx, v, k):
    """V bool"""
    v, k = cx.force(v), cx.force(k)
    if isinstance(k, Tup):
        for x in k.items:
            r = isinstance_(cx, v, x)
            if r is TRUE or r is not FALSE and cx.cond(r):
                return TRUE
        return FALSE
    if isinstance(k, Wrap) and k.kind == "union":
        return isinstance_(cx, v, Tup(k.args))
    if k is NONE:
        return mkbool(v is NONE)
    if isinstance(k, Bi):
        if k.name == "object":
            return TRUE
        if k.name in ("typing.Any",):
            return TRUE
        if isinstance(v, C):
            pt = PYT.get(k.name)
            if pt is None:
                if k.name in ("numbers.Number", "numbers.Real"):
                    return mkbool(isinstance(v.v, (int, float)))
                return FALSE
            return mkbool(isinstance(v.v, pt))
        if isinstance(v, Tup):
            return mkbool(k.name in ("tuple", "collections.abc.Sequence"))
        if isinstance(v, Ref):
            o = cx.st.get(v.oid)
            if o.kind == "inst":
                return mkbool(cx.it.subclass(o.cls, k))
            if o.kind == "ext":
                return mkbool(k.name in getattr(o.extra, "types", ()))
            return mkbool({"ulist": "list"}.get(o.kind, o.kind) == k.name
                          or k.name.startswith("collections.abc.") and o.kind in ("list", "dict", "set"))
        if isinstance(v, T):
            if v.ty in TSUPER:
                return mkbool(k.name in TSUPER[v.ty] or k.name in ("numbers.Number", "numbers.Real") and v.ty in ("int", "float", "bool"))
            if v.ty in ("callable",):
                return mkbool(k.name in ("types.FunctionType", "collections.abc.Callable"))
            if v.ty == "obj":
                return FALSE
            return T("isinstance", (v, k.name), "bool")
        if isinstance(v, (Fn, Bound)):
            return mkbool(k.name in ("types.FunctionType", "collections.abc.Callable", "types.MethodType"))
        return FALSE
    if isinstance(k, Cls):
        if isinstance(v, Ref) and cx.st.get(v.oid).kind == "inst":
            return mkbool(cx.it.subclass(cx.st.get(v.oid).cls, k))
        return FALSE
    unsupported(f"isinstance with {k!r}")


def typeof(cx, v):
    v = cx.force(v)
    if isinstance(v, Ref):
        o = cx.st.get(v.oid)
        if o.kind == "inst":
            return o.cls
        return Bi({"ulist": "list"}.get(o.kind, o.kind))
    if isinstance(v, C):
        if v.v is None:
            return Bi("types.NoneType")
        n = type(v.v).__name__
        return Bi(n if n in PYT else f"datetime.{n}")
    if isinstance(v, Tup):
        return Bi("tuple")
    if isinstance(v, T):
        if v.ty in ("int", "float", "str", "bytes", "bool"):
            return Bi(v.ty)
        if v.ty in ("datetime", "date", "time", "timedelta"):
            return Bi("datetime." + v.ty)
    if isinstance(v, (Fn, Bound)):
        return Bi("types.FunctionType")
    return T("type", (v,), "any")


# --------------------------------------------------------------------------
# equality / comparison
# --------------------------------------------------------------------------


def num_eq(a, b):
    if isinstance(a, C) and isinstance(b, C):
        return mkbool(a.v == b.v)
    if a is b:
        return TRUE
    if num.isint(a) and num.isint(b) and not (ty2(a) == "bool" or ty2(b) == "bool"):
        d = num.iadd(a, b, -1)
        if isinstance(d, C):
            return mkbool(d.v == 0)
        c, m = num.lin(d)
        if len(m) == 1:
            (t, w), = m.items()
            if (-c) % w:
                return FALSE
            return T("eq", (t, C((-c) // w)), "bool")
        if not isinstance(a, C) and not isinstance(b, C):
            return T("eq", (d, C(0)), "bool")
    return S.mkeq(a, b)


def ty2(v):
    return num.ty(v)


def equal(cx, a, b):
    a, b = cx.force(a), cx.force(b)
    if a is b:
        if isinstance(a, T) and a.ty == "float" and a.props is not None and not a.props.nonan:
            return S.mkeq(a, b)
        if isinstance(a, C) and isinstance(a.v, float) and a.v != a.v:
            return FALSE
        return TRUE
    if isinstance(a, C) and isinstance(b, C):
        try:
            return mkbool(a.v == b.v)
        except TypeError:
            return FALSE
    if S.isS(a) and S.isS(b):
        if S.isbytes(a) != S.isbytes(b):
            return FALSE
        return S.eq(cx, a, b)
    if num.isnum(a) and num.isnum(b):
        return num_eq(a, b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return FALSE
        for x, y in zip(a.items, b.items):
            r = equal(cx, x, y)
            if r is FALSE or r is not TRUE and not cx.cond(r):
                return FALSE
        return TRUE
    if dtm.isdt(a) and dtm.isdt(b):
        return dtm.eq(cx, a, b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = cx.st.get(a.oid), cx.st.get(b.oid)
        if oa.kind == "inst":
            f = cx.it.class_attr(cx.st, oa.cls, "__eq__") if isinstance(oa.cls, Cls) else None
            if f is not None:
                return cx.it.truthv(cx, cx.call(Bound(a, f), [b]))
            return FALSE
        if oa.kind == ob.kind == "list":
            return equal(cx, Tup(oa.data), Tup(ob.data))
        if oa.kind == ob.kind == "set" or oa.kind == ob.kind == "dict" and set(oa.data) != set(ob.data):
            if set(oa.data) == set(ob.data):
                return TRUE
            if all(isinstance(k, C) for k in list(oa.data) + list(ob.data)):
                return FALSE
            unsupported("comparing collections with unknown keys")
        if oa.kind == ob.kind == "dict":
            return equal(cx, Tup(oa.data[k] for k in oa.data), Tup(ob.data[k] for k in oa.data))
        if oa.kind == "bytearray" and ob.kind == "bytearray":
            return equal(cx, cx.force(oa.data[0]), cx.force(ob.data[0]))
        return FALSE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Wrap) and x.kind == "instdict":
            if isinstance(y, Wrap) and y.kind == "instdict" or isinstance(y, Ref) and cx.st.get(y.oid).kind == "dict":
                return equal(cx, cx.newdict(dict(dict_items(cx, x))), cx.newdict(dict(dict_items(cx, y))))
            return FALSE
        if isinstance(x, Ref) and cx.st.get(x.oid).kind == "bytearray" and S.isbytes(y):
            return S.eq(cx, cx.force(cx.st.get(x.oid).data[0]), y)
        if isinstance(x, Ref) and cx.st.get(x.oid).kind == "inst":
            o = cx.st.get(x.oid)
            f = cx.it.class_attr(cx.st, o.cls, "__eq__") if isinstance(o.cls, Cls) else None
            if f is not None:
                return cx.it.truthv(cx, cx.call(Bound(x, f), [y]))
            return FALSE
        if isinstance(x, T) and x.ty in ("any", "obj?") and not isinstance(y, (Fn, Cls, Bi, Mod)):
            return S.mkeq(x, y)
    return FALSE


def is_(cx, a, b):
    a, b = cx.force(a), cx.force(b)
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and x.ty == "any" and isinstance(y, (C, T)):
            return S.mkeq(x, y)
    if isinstance(a, C) and isinstance(b, C):
        return mkbool(a.v is b.v)
    if isinstance(a, T) and a.ty == "bool" and isinstance(b, C) and isinstance(b.v, bool):
        return a if b.v else cx.it.notv(a)
    return FALSE


def compare(cx, op, a, b):
    if isinstance(op, ast.Eq):
        return equal(cx, a, b)
    if isinstance(op, ast.NotEq):
        return cx.it.notv(equal(cx, a, b))
    if isinstance(op, ast.Is):
        return is_(cx, a, b)
    if isinstance(op, ast.IsNot):
        return cx.it.notv(is_(cx, a, b))
    if isinstance(op, ast.In):
        return contains(cx, b, a)
    if isinstance(op, ast.NotIn):
        return cx.it.notv(contains(cx, b, a))
    n = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
    return order(cx, n, a, b)


def micros(x):
    """seconds as whole microseconds: division of microseconds by 10**6 is correctly
    rounded, hence monotone and exact at whole microseconds below 2**32 seconds"""
    if isinstance(x, T) and x.op == "total_seconds":
        return x.args[0]
    if isinstance(x, C) and isinstance(x.v, (int, float)) and abs(x.v) < 2 ** 32 and Fraction(x.v) * 10 ** 6 % 1 == 0:
        return C(int(Fraction(x.v) * 10 ** 6))
    return None


def order(cx, n, a, b):
    a, b = cx.force(a), cx.force(b)
    if isinstance(a, C) and isinstance(b, C):
        try:
            return mkbool({"<": _op.lt, "<=": _op.le, ">": _op.gt, ">=": _op.ge}[n](a.v, b.v))
        except TypeError as e:
            cx.raise_("TypeError", str(e))
    if n in (">", ">="):
        a, b = b, a
        n = "<" if n == ">" else "<="
    if num.isnum(a) and num.isnum(b):
        if num.isint(a) and num.isint(b):
            a2 = a if isinstance(a, C) else num.iadd(a, C(0))
            b2 = b if isinstance(b, C) else num.iadd(b, C(0))
            if n == "<":
                t = num.ltc(a2, b2)
            else:
                t = cx.it.notv(num.ltc(b2, a2))
            return t
        ua, ub = micros(a), micros(b)
        if ua is not None and ub is not None:
            return order(cx, n, ua, ub)
        if n == "<=" and num.nonan(a) and num.nonan(b):
            return cx.it.notv(num.ltc(b, a))
        return T("lt" if n == "<" else "le", (a, b), "bool")
    if dtm.isdt(a) and dtm.isdt(b):
        return dtm.order(cx, n, a, b)
    if S.isS(a) and S.isS(b) and S.isbytes(a) == S.isbytes(b):
        return T("slt" if n == "<" else "sle", (a, b), "bool")
    if isinstance(a, Tup) and isinstance(b, Tup) or isinstance(a, Ref) and isinstance(b, Ref) and \
            cx.st.get(a.oid).kind == cx.st.get(b.oid).kind == "list":
        la, lb = iterate(cx, a), iterate(cx, b)
        for x, y in zip(la, lb):
            e = equal(cx, x, y)
            if e is TRUE or e is not FALSE and cx.cond(e):
                continue
            return order(cx, n, x, y)
        return mkbool(len(la) < len(lb) if n == "<" else len(la) <= len(lb))
    if isinstance(a, Ref) and isinstance(b, Ref) and cx.st.get(a.oid).kind == cx.st.get(b.oid).kind == "set":
        sa, sb = set(cx.st.get(a.oid).data), set(cx.st.get(b.oid).data)
        return mkbool(sa < sb if n == "<" else sa <= sb)
    for x in (a, b):
        if isinstance(x, T) and x.ty == "any":
            if not cx.cond(T("cmpok", (a, b), "bool")):
                cx.raise_("TypeError", f"'{n}' not supported")
            return T("cmp" + n, (a, b), "bool")
    refuse(cx, _op.lt, (a, b), f"'{n}' not supported")


def contains(cx, box, x):
    box, x = cx.force(box), cx.force(x)
    if S.isS(box):
        if S.isS(x) and S.isbytes(x) == S.isbytes(box):
            return S.contains(cx, box, x)
        if S.isbytes(box) and num.isint(x):
            if isinstance(x, C):
                return S.contains(cx, box, C(bytes([x.v])))
        if isinstance(x, C) or num.isnum(x):
            cx.raise_("TypeError", "in <string> requires string")
        return T("contains", (box, x), "bool")
    if isinstance(box, C) and isinstance(box.v, frozenset):
        return any_eq(cx, [C(i) for i in box.v], x)
    if isinstance(box, Tup):
        return any_eq(cx, box.items, x)
    if isinstance(box, Wrap):
        if box.kind == "range":
            lo, hi, st = box.args
            if all(isinstance(i, C) for i in (lo, hi, st, x)):
                return mkbool(x.v in range(lo.v, hi.v, st.v))
            if all(isinstance(i, C) for i in (lo, hi, st)) and len(range(lo.v, hi.v, st.v)) <= 12:
                return any_eq(cx, [C(i) for i in range(lo.v, hi.v, st.v)], x)
            if st is C(1) and num.isint(x):
                r = order(cx, "<=", lo, x)
                if r is FALSE or r is not TRUE and not cx.cond(r):
                    return FALSE
                return order(cx, "<", x, hi)
        if box.kind == "instdict":
            o = cx.st.get(box.args[0].oid)
            if isinstance(x, C):
                v = o.data.get(x.v)
                if v is None or v is UNBOUND:
                    return FALSE
                if isinstance(v, Phi):
                    return mkbool(cx.it.force_attr(cx, v) is not None)
                return TRUE
        if box.kind == "dictview":
            return contains(cx, box.args[0], x) if box.args[1] == "keys" else any_eq(cx, iterate(cx, box), x)
    if isinstance(box, Ref):
        o = cx.st.get(box.oid)
        if o.kind in ("dict", "set"):
            return dict_has(cx, box, o, x)
        if o.kind in ("list", "iter"):
            return any_eq(cx, o.data, x)
        if o.kind == "ulist":
            r = any_eq(cx, o.data, x)
            if r is TRUE:
                return r
            return T("contains", (o.extra, x), "bool")
        if o.kind == "bytearray":
            return contains(cx, cx.force(o.data[0]), x)
        if o.kind == "inst":
            f = cx.it.class_attr(cx.st, o.cls, "__contains__")
            if f is not None:
                return cx.it.truthv(cx, cx.call(Bound(box, f), [x]))
        if o.kind == "udict":
            return T("contains", (o.extra, x), "bool")
    if isinstance(box, T):
        return T("contains", (box, x), "bool")
    refuse(cx, _op.contains, (box, x), "argument is not iterable")


def any_eq(cx, items, x):
    und = []
    for i in items:
        r = equal(cx, x, i)
        if r is TRUE:
            return TRUE
        if r is not FALSE:
            d = cx.it.decide(cx.st, r)
            if d is True:
                return TRUE
            if d is None:
                und.append(r)
    if not und:
        return FALSE
    if len(und) == 1:
        return und[0]
    if len(und) <= 12:
        for r in und:
            if cx.cond(r):
                return TRUE
        return FALSE
    return T("inset*", (x, Tup(i for i in items)), "bool")


def hashkey(cx, k):
    """1, True and 1.0 are the same key"""
    if isinstance(k, C) and isinstance(k.v, (bool, float)) and k.v == k.v and not _math.isinf(k.v) and k.v == int(k.v):
        return C(int(k.v))
    return k


def dict_has(cx, ref, o, x):
    x = hashkey(cx, x)
    if isinstance(x, Ref) and cx.st.get(x.oid).kind in ("list", "dict", "set", "bytearray"):
        cx.raise_("TypeError", "unhashable")
    if x in o.data:
        return TRUE
    syms = [k for k in o.data if not isinstance(k, C)]
    if isinstance(x, C) or isinstance(x, (Tup,)) and all(isinstance(i, C) for i in x.items):
        if not syms:
            return FALSE
        return any_eq(cx, syms, x)
    if isinstance(x, (T, Tup)):
        keys = [k for k in o.data]
        und = []
        for k in keys:
            r = equal(cx, x, k) if (S.isS(x) and S.isS(k)) or not S.isS(x) else FALSE
            if r is TRUE:
                return TRUE
            if r is not FALSE and cx.it.decide(cx.st, r) is not False:
                und.append(r)
        if not und:
            return FALSE
        if len(und) <= 3:
            return any_eq(cx, [k for k in keys], x)
        return T("inkeys", (x, Tup(keys)), "bool")
    return FALSE


# --------------------------------------------------------------------------
# arithmetic
# --------------------------------------------------------------------------


def augop(cx, op, a, b):
    a, b = cx.force(a), cx.force(b)
    if isinstance(a, Ref):
        o = cx.st.get(a.oid)
        n = OPN[type(op)]
        if n == "+" and o.kind in ("list", "ulist"):
            if o.kind == "ulist":
                unsupported("+= on unknown list")
            items = iterate(cx, b)
            cx.st.write(a.oid).data.extend(items)
            return a
        if n == "+" and o.kind == "bytearray":
            if not (S.isbytes(b) or isinstance(b, Ref) and cx.st.get(b.oid).kind == "bytearray"):
                cx.raise_("TypeError", "can't concat")
            w = cx.st.write(a.oid)
            w.data[0] = S.cat([tobytes(cx, a), tobytes(cx, b)], True)
            return a
        if n == "|" and o.kind == "dict":
            dict_update(cx, a, b)
            return a
        if o.kind == "set" and n in ("|", "-", "&"):
            r = binop(cx, op, a, b)
            cx.st.write(a.oid).data = dict(cx.st.get(r.oid).data)
            return a
    return binop(cx, op, a, b)


def tobytes(cx, v):
    v = cx.force(v)
    if S.isbytes(v):
        return C(bytes(v.v)) if isinstance(v, C) else v
    if isinstance(v, Ref) and cx.st.get(v.oid).kind == "bytearray":
        return cx.force(cx.st.get(v.oid).data[0])
    return None


UNKNOWN = object()
SAMPLE = {"str": "", "bytes": b"", "int": 1, "float": 1.5, "bool": True, "list": [], "tuple": (),
          "datetime": _dt.datetime(2000, 1, 2), "date": _dt.date(2000, 1, 2), "time": _dt.time(1), "timedelta": _dt.timedelta(1),
          "NoneType": None}
SAMPLE_K = {"list": [], "ulist": [], "dict": {}, "udict": {}, "set": set(), "bytearray": bytearray(), "iter": iter(()),
            "gen": (x for x in ()), "calls": iter(())}


def sample(cx, v):
    """a value of the same type as v, UNKNOWN when there is none at hand"""
    v = cx.force(v)
    if isinstance(v, C):
        return v.v
    if isinstance(v, Tup):
        return ()
    if isinstance(v, (Fn, Bound)):
        return sample
    if isinstance(v, Cls):
        return UNKNOWN
    if isinstance(v, Bi):
        return len
    if isinstance(v, Ref):
        o = cx.st.get(v.oid)
        if o.kind == "inst" and isinstance(o.cls, Cls) and not any(
                n.startswith("__") and n not in ("__init__", "__str__", "__repr__", "__setattr__", "__delattr__", "__module__",
                                                 "__doc__", "__slots__", "__qualname__", "__iter__", "__next__", "__new__")
                for c in cx.it.mro(o.cls) if isinstance(c, Cls) for n in cx.st.get(c.oid).data if isinstance(n, str)):
            if all(isinstance(c, Cls) or c.name == "object" for c in cx.it.mro(o.cls)):
                return object()
        return SAMPLE_K.get(o.kind, UNKNOWN)
    if dtm.isdt(v) and isinstance(v, T):
        return SAMPLE.get(v.ty, UNKNOWN)
    if isinstance(v, Wrap) and v.kind == "range":
        return range(0)
    if S.isS(v):
        return b"" if S.isbytes(v) else ""
    if isinstance(v, (T,)):
        return SAMPLE.get(v.ty, UNKNOWN)
    if num.isnum(v):
        return 1 if num.isint(v) else 1.5
    return UNKNOWN


def refuse(cx, fn, vals, msg):
    """fn is not modelled for vals: TypeError where Python refuses values of such types, beyond reach otherwise"""
    xs = [sample(cx, v) for v in vals]
    if all(x is not UNKNOWN for x in xs):
        try:
            fn(*xs)
        except TypeError:
            cx.raise_("TypeError", msg)
        except Exception:  # the operation exists, these samples do not suit it
            pass
    unsupported(f"operation on these types: {msg}")


def binop(cx, op, a, b):
    n = OPN[type(op)] if not isinstance(op, str) else op
    a, b = cx.force(a), cx.force(b)
    if isinstance(a, C) and isinstance(b, C):
        try:
            r = PYOP[n](a.v, b.v)
        except Exception as e:  # constant folding: the operation itself raises
            cx.raise_(type(e).__name__, str(e))
        return cx.lift(r)
    if n == "|" and isinstance(a, (Bi, Cls, Wrap)) and isinstance(b, (Bi, Cls, Wrap, C)):
        x = a.args if isinstance(a, Wrap) and a.kind == "union" else (a,)
        y = b.args if isinstance(b, Wrap) and b.kind == "union" else (b,)
        return Wrap("union", *(x + y))
    if n == "|" and isinstance(a, C) and a.v is None and isinstance(b, (Bi, Cls, Wrap)):
        return Wrap("union", a, b)
    if (dtm.isdt(a) or dtm.isdt(b)) and not (n == "%" and S.isS(a)):
        r = dtm.binop(cx, n, a, b)
        if r is not None:
            return r
    if n == "+":
        if S.isS(a) and S.isS(b):
            if S.isbytes(a) != S.isbytes(b):
                cx.raise_("TypeError", "can't concat")
            return S.cat([a, b], S.isbytes(a))
        if S.isbytes(a) and tobytes(cx, b) is not None:
            return S.cat([a, tobytes(cx, b)], True)
        if isinstance(a, Ref) and cx.st.get(a.oid).kind == "bytearray" and tobytes(cx, b) is not None:
            return cx.st.alloc("bytearray", None, [S.cat([tobytes(cx, a), tobytes(cx, b)], True)])
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = cx.st.get(a.oid), cx.st.get(b.oid)
            if oa.kind == "list" and ob.kind == "list":
                return cx.newlist(oa.data + ob.data)
            if oa.kind == "list" and ob.kind == "ulist":
                return cx.st.alloc("ulist", None, oa.data + ob.data, ob.extra)
        if (S.isS(a) or S.isS(b)) and not (isinstance(a, T) and a.ty == "any" or isinstance(b, T) and b.ty == "any"):
            cx.raise_("TypeError", "can only concatenate str to str")
        if S.isstr(a) and isinstance(b, T) and b.ty == "any" or S.isstr(b) and isinstance(a, T) and a.ty == "any":
            x = a if isinstance(a, T) and a.ty == "any" else b
            if not cx.cond(T("isinstance", (x, "str"), "bool")):
                cx.raise_("TypeError", "can only concatenate str")
            f = lambda q: T("asstr", (q,), "str") if q is x else q  # noqa: E731
            return S.cat([f(a), f(b)])
    if n == "*":
        for x, y in ((a, b), (b, a)):
            if num.isint(y):
                if S.isS(x):
                    if isinstance(y, C):
                        return S.cat([x] * max(0, y.v), S.isbytes(x))
                    return T("repeat", (x, y), x.ty if isinstance(x, T) else ("bytes" if S.isbytes(x) else "str"))
                if isinstance(x, Tup) and isinstance(y, C):
                    return Tup(x.items * max(0, y.v))
                if isinstance(x, Ref) and cx.st.get(x.oid).kind == "list" and isinstance(y, C):
                    return cx.newlist(cx.st.get(x.oid).data * max(0, y.v))
    if n == "%" and S.isS(a) and isinstance(a, C):
        return bpercent(cx, a, b) if S.isbytes(a) else percent(cx, a, b)
    if n in ("|", "&", "-", "^") and isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = cx.st.get(a.oid), cx.st.get(b.oid)
        if n == "|" and oa.kind == ob.kind == "dict":
            d = dict(oa.data)
            d.update(ob.data)
            return cx.newdict(d)
        if oa.kind == ob.kind == "set":
            if n in ("&", "-") and not all(isinstance(k, C) for k in list(oa.data) + list(ob.data)) and oa.data and ob.data:
                unsupported("set operation with unknown members")
            if n == "|":
                return cx.newset(list(oa.data) + list(ob.data))
            if n == "&":
                return cx.newset([k for k in oa.data if k in ob.data])
            if n == "-":
                return cx.newset([k for k in oa.data if k not in ob.data])
    if isinstance(a, Wrap) and a.kind == "dictview" or isinstance(b, Wrap) and b.kind == "dictview":
        return binop(cx, n, cx.newset(iterate(cx, a)), cx.newset(iterate(cx, b)))
    for x in (a, b):
        if isinstance(x, T) and x.ty == "any":
            # operand of unknown type: may raise TypeError
            if not cx.cond(T("isnum", (x,), "bool")):
                cx.raise_("TypeError", "unsupported operand type(s)")
            y = T("asnum", (x,), "float")
            if x is a:
                a = y
            if x is b:
                b = y
    if num.isnum(a) and num.isnum(b):
        return arith(cx, n, a, b)
    if isinstance(a, Ref) and cx.st.get(a.oid).kind == "inst":
        dn = {"+": "__add__", "-": "__sub__", "*": "__mul__", "%": "__mod__"}.get(n)
        f = dn and cx.it.class_attr(cx.st, cx.st.get(a.oid).cls, dn)
        if f is not None:
            return cx.call(Bound(a, f), [b])
    refuse(cx, PYOP[n], (a, b), f"unsupported operand type(s) for {n}")


def arith(cx, n, a, b):
    if num.isint(a) and num.isint(b):
        if n == "+":
            return num.iadd(a, b)
        if n == "-":
            return num.iadd(a, b, -1)
        if n == "*":
            if isinstance(b, C):
                return num.iscale(a, int(b.v))
            if isinstance(a, C):
                return num.iscale(b, int(a.v))
            return T("imul", tuple(sorted((a, b), key=lambda t: t.n)), "int")
        if n == "^":
            if ty2(a) == "bool" or ty2(b) == "bool":
                a, b = [num.iadd(x, C(0)) if ty2(x) == "bool" else x for x in (a, b)]
            return num.ixor(a, b)
        if n in ("&", "|"):
            return bitop(cx, n, a, b)
        if n in ("//", "%", "/"):
            z = num_eq(b, C(0))
            if z is TRUE or z is not FALSE and cx.cond(z):
                cx.raise_("ZeroDivisionError", "division by zero")
            if n == "/":
                return T("fdiv", (a, b), "float")
            if isinstance(b, C):
                return idiv(cx, n, a, b.v)
            return T("floordiv" if n == "//" else "mod", (a, b), "int")
        if n == "**":
            if isinstance(b, C) and isinstance(b.v, int) and 0 <= b.v <= 4:
                if b.v == 0:
                    return C(1)
                r = a
                for _ in range(b.v - 1):
                    r = arith(cx, "*", r, a)
                return r
            return T("pow", (a, b), "int")
        if n == "<<":
            if isinstance(b, C):
                return num.iscale(a, 1 << b.v)
            return T("shl", (a, b), "int")
        if n == ">>":
            if isinstance(b, C):
                return idiv(cx, "//", a, 1 << b.v)
            return T("shr", (a, b), "int")
    # float arithmetic
    if n == "+":
        if isinstance(b, C) and b.v == 0:
            return tofloat(a)
        if isinstance(a, C) and a.v == 0:
            return tofloat(b)
        return T("fadd", commuted(a, b), "float")
    if n == "-":
        if isinstance(a, C) and a.v == 0:
            return num.neg(tofloat(b))
        if isinstance(b, C) and b.v == 0:
            return tofloat(a)
        return T("fsub", (a, b), "float")
    if n == "*":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, C):
                if x.v == 1:
                    return tofloat(y)
                if x.v == -1:
                    return num.neg(tofloat(y))
        return T("fmul", commuted(a, b), "float")
    if n in ("/", "//", "%"):
        z = num_eq(b, C(0))
        lo, hi = num.interval(b, cx.st)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            z = FALSE
        if z is TRUE or z is not FALSE and cx.cond(z):
            cx.raise_("ZeroDivisionError", "float division by zero")
        if n == "/":
            if isinstance(b, C) and b.v == 1:
                return tofloat(a)
            return T("fdiv", (a, b), "float")
        return T("ffloordiv" if n == "//" else "fmod", (a, b), "float")
    if n == "**":
        return T("pow", (a, b), "float")
    if n in ("^", "&", "|", "<<", ">>"):
        cx.raise_("TypeError", f"unsupported operand type(s) for {n}")
    unsupported(f"operator {n}")


def commuted(a, b):
    """operands of a commutative operation in one order: constants last"""
    if isinstance(a, T) and isinstance(b, T):
        return tuple(sorted((a, b), key=lambda t: t.n))
    return (b, a) if isinstance(a, C) and isinstance(b, T) else (a, b)


def nested(r):
    """(t, a) when r is t // a plus a constant"""
    m = num.lin(r)[1]
    if len(m) == 1:
        (t, w), = m.items()
        if w == 1 and t.op == "floordiv" and isinstance(t.args[1], C) and t.args[1].v > 0:
            return t.args[0], t.args[1].v
    return None


def idiv(cx, n, a, k):
    """a // k or a % k for constant k"""
    if k > 0:
        # split off multiples of k:  (k*q + r) // k = q + r//k
        c, m = num.lin(a)
        qd, rd = {}, {}
        for t, w in m.items():
            if w % k == 0:
                qd[t] = w // k
            else:
                rd[t] = w
        qc, rc = divmod(c, k)
        r = num.mklin(rc, rd)
        lo, hi = num.interval(r, cx.st)
        if lo is not None and hi is not None and lo >= 0 and hi < k:
            rq, rr = C(0), r
        elif lo is not None and hi is not None and lo // k == hi // k:
            s = int(lo // k)
            rq, rr = C(s), num.iadd(r, C(-s * k))
        elif isinstance(r, C):
            rq, rr = C(r.v // k), C(r.v % k)
        elif num.common(r, k) > 1:
            # (g*y + c) // (g*m) = (y + c//g) // m,  (g*y + c) % (g*m) = g*((y + c//g) % m) + c % g
            g = num.common(r, k)
            rq = rr = idiv(cx, n, num.reduced(r, g), k // g)
            rr = num.iadd(num.iscale(rr, g), C(num.lin(r)[0] % g))
        elif n == "//" and nested(r) is not None:
            t, a = nested(r)
            rq = rr = idiv(cx, n, num.iadd(t, C(num.lin(r)[0] * a)), a * k)  # (t // a + c) // k
        elif r.op == "mod" and isinstance(r.args[1], C) and r.args[1].v > 0 and r.args[1].v % k == 0:
            # (x % (m*k)) % k = x % k,  (x % (m*k)) // k = (x // k) % m
            if n == "%":
                rq = rr = idiv(cx, "%", r.args[0], k)
            else:
                rq = rr = idiv(cx, "%", idiv(cx, "//", r.args[0], k), r.args[1].v // k)
        else:
            rq = T("floordiv", (r, C(k)), "int")
            rr = T("mod", (r, C(k)), "int")
        if n == "//":
            return num.iadd(num.mklin(qc, qd), rq)
        return rr
    return T("floordiv" if n == "//" else "mod", (a, C(k)), "int")


def tofloat(v):
    if isinstance(v, C):
        return C(float(v.v))
    if num.isint(v):
        return T("tofloat", (v,), "float")
    return v


def bitop(cx, n, a, b):
    if isinstance(a, C):
        a, b = b, a
    if isinstance(b, C):
        lo, hi = num.interval(a, cx.st)
        if n == "&":
            if b.v == 0:
                return C(0)
            if b.v > 0 and (b.v & (b.v + 1)) == 0 and lo is not None and lo >= 0 and hi is not None and hi <= b.v:
                return a
        elif b.v == 0:
            return a
    if not isinstance(b, C) and a.n > b.n:
        a, b = b, a
    return T("bitand" if n == "&" else "bitor", (a, b), "int")


def unop(cx, op, v):
    if isinstance(op, ast.USub):
        if num.isnum(v):
            return num.neg(v if not (isinstance(v, T) and v.ty == "bool") else num.iadd(v, C(0)))
        if dtm.istd(v):
            return dtm.neg(v)
        if isinstance(v, T) and v.ty == "any":
            return num.neg(binop(cx, "+", v, C(0.0)))
        refuse(cx, _op.neg, (v,), "bad operand type for unary -")
    if isinstance(op, ast.UAdd):
        return v
    if isinstance(op, ast.Invert):
        if isinstance(v, C):
            return C(~v.v)
        if num.isint(v):
            return num.iadd(C(-1), v, -1)
    unsupported("unary operator")


# --------------------------------------------------------------------------
# str / repr / format
# --------------------------------------------------------------------------


def str_(cx, v):
    v = cx.force(v)
    if isinstance(v, C):
        return C(str(v.v))
    if S.isstr(v):
        return v
    if isinstance(v, T):
        if v.ty == "int":
            r = redigit(v, "1")
            return r if r is not None else T("str", (v,), "str")
        return T("str", (v,), "str")
    if isinstance(v, Ref):
        o = cx.st.get(v.oid)
        if o.kind == "inst":
            if isinstance(o.cls, Cls):
                f = cx.it.class_attr(cx.st, o.cls, "__str__") or cx.it.class_attr(cx.st, o.cls, "__repr__")
                if f is not None:
                    return cx.force(cx.call(Bound(v, f), []))
            if cx.it.is_exc_cls(o.cls):
                a = o.data.get("args", Tup(()))
                if isinstance(a, Tup) and len(a.items) == 1:
                    return str_(cx, a.items[0])
                return T("excstr", (a,), "str")
            return T("str", (v,), "str")
    return repr_(cx, v)


def repr_(cx, v):
    v = cx.force(v)
    if isinstance(v, C):
        return C(repr(v.v))
    if isinstance(v, T):
        if v.ty in ("int", "float", "bool"):
            return T("str", (v,), "str")
        return T("repr", (v,), "str")
    if isinstance(v, Tup):
        items = [repr_(cx, i) for i in v.items]
        return seqrepr("(", items, ")" if len(items) != 1 else ",)")
    if isinstance(v, Ref):
        o = cx.st.get(v.oid)
        if o.kind == "list":
            return seqrepr("[", [repr_(cx, i) for i in o.data], "]")
        if o.kind == "dict":
            return seqrepr("{", [S.cat([repr_(cx, k), C(": "), repr_(cx, x)]) for k, x in o.data.items()], "}")
        if o.kind == "set" and o.data:
            return seqrepr("{", [repr_(cx, k) for k in o.data], "}")
        if o.kind == "inst" and isinstance(o.cls, Cls):
            f = cx.it.class_attr(cx.st, o.cls, "__repr__")
            if f is not None:
                return cx.force(cx.call(Bound(v, f), []))
        return T("repr", (v,), "str")
    if isinstance(v, Wrap) and v.kind == "dictview":
        return seqrepr(f"dict_{v.args[1]}([", [repr_(cx, i) for i in iterate(cx, v)], "])")
    return T("repr", (v,), "str")


def seqrepr(o, items, c):
    ps = [C(o)]
    for i, x in enumerate(items):
        if i:
            ps.append(C(", "))
        ps.append(x)
    ps.append(C(c))
    return S.cat(ps)


def format_(cx, v, spec):
    v, spec = cx.force(v), cx.force(spec)
    if isinstance(v, C) and isinstance(spec, C):
        try:
            return C(format(v.v, spec.v))
        except (ValueError, TypeError) as e:
            cx.raise_(type(e).__name__, str(e))
    if spec is EMPTY:
        return str_(cx, v)
    if isinstance(spec, C):
        sp = spec.v
        if num.isnum(v):
            f = S.parse_spec(sp)
            if f is None:
                try:
                    format(1 if num.isint(v) else 1.0, sp)
                except ValueError:
                    cx.raise_("ValueError", "Invalid format specifier")
                return T("fmt", (v, sp), "str")
            if f["type"] in ("s",):
                cx.raise_("ValueError", "Invalid format specifier")
            if num.isint(v) and (f["type"] in ("", "d", "X", "x", "n", "b", "o", "c")) and f["prec"] is not None:
                cx.raise_("ValueError", "Precision not allowed in integer format specifier")
            if ty2(v) == "float" and f["type"] in ("d", "X", "x", "b", "o", "c"):
                cx.raise_("ValueError", "Unknown format code for float")
            if num.isint(v):
                ns = S.norm_spec(sp)
                if ns == "":
                    return str_(cx, v)
                r = redigit(v, ns)
                return r if r is not None else T("fmt", (v, ns), "str")
            if f["type"] in ("", ) and f["prec"] is None and f["width"] is None:
                return T("str", (v,), "str")
            return T("fmt", (v, S.norm_spec(sp)), "str")
        if dtm.isdt(v) and not dtm.istd(v):
            return dtm.strftime(cx, v, sp)
        if S.isstr(v):
            f = S.parse_spec(sp)
            if f is not None and f["type"] in ("", "s"):
                if f["width"] is None and f["prec"] is None:
                    return v
                if f["prec"] is not None and f["width"] is None:
                    return S.slice_(cx, v, NONE, C(f["prec"]))
                if f["prec"] is None and S.minlen(v) >= f["width"]:
                    return v
                if f["prec"] is None and f["fill"] == "0" and f["align"] == ">":
                    return zpad(cx, v, f["width"])
                return T("fmt", (v, sp), "str")
            cx.raise_("ValueError", "Unknown format code for str")
        if isinstance(v, T) and v.ty == "any":
            if not cx.cond(T("fmtok", (v, sp), "bool")):
                cx.raise_("ValueError", "format")
            return T("fmt", (v, sp), "str")
        cx.raise_("TypeError", "unsupported format string")
    return T("fmt", (v, spec), "str")


def redigit(v, ns):
    """digits printed again at their own width"""
    if isinstance(v, T) and v.op == "int" and len(v.args) == 2 and v.args[1] == 10 and ns[-1:] in ("d", "1"):
        x = v.args[0]
        ps = S.parts(x)
        w = S.maxlen(x)
        if w is None or S.minlen(x) != w or w == 0:
            return None
        for p in ps:
            ok = p.v.isdigit() and p.v.isascii() if isinstance(p, C) else \
                p.op == "atom" and p.props.incl is not None and p.props.incl <= S.DIG
            if not ok:
                return None
        first = ps[0].v[0] if isinstance(ps[0], C) else None
        nz = first != "0" if first else "0" not in ps[0].props.incl
        if ns == f"0{w}d" or nz and ns in ("1", "d"):
            return x
    return None


def zpad(cx, v, w):
    if S.minlen(v) >= w:
        return v
    if v.op == "str" and num.isint(v.args[0]) and S.nonneg(v.args[0]):
        return zfill(cx, v, w)
    mx = S.maxlen(v)
    if mx is not None and mx == S.minlen(v):
        return S.cat([C("0" * (w - mx)), v])
    return T("zpad", (v, w), "str")


def zfill(cx, v, w):
    if isinstance(v, C):
        return C(v.v.zfill(w))
    if S.minlen(v) >= w:
        return v
    if v.op == "fmt" and not (v.args[1] and v.args[1][0] in "0123456789") and num.isint(v.args[0]):
        f = S.parse_spec(v.args[1])
        if f and f["width"] is None and f["fill"] is None:
            return T("fmt", (v.args[0], S.norm_spec(f"0{w}{f['type'] or 'd'}")), "str")
    if v.op == "fmt" and v.ty == "str":
        f = S.parse_spec(v.args[1])
        if f and f["width"] is None and f["fill"] is None and f["type"] == "f":
            return T("fmt", (v.args[0], f"0{w}.{f['prec']}f"), "str")
    if v.op == "str" and num.isint(v.args[0]):
        return T("fmt", (v.args[0], S.norm_spec(f"0{w}d")), "str")
    mx = S.maxlen(v)
    if mx is not None and mx == S.minlen(v) and not S.may_contain(S.slice_(cx, v, C(0), C(1)), "-") and not S.may_contain(v, "+"):
        return S.cat([C("0" * (w - mx)), v])
    return T("zfill", (v, w), "str")


def percent(cx, a, b):
    import re
    fmt = a.v
    args = list(b.items) if isinstance(b, Tup) else [b]
    out = []
    pos = 0
    i = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])", fmt):
        out.append(C(fmt[pos:m.start()]))
        pos = m.end()
        name, flags, w, p, t = m.groups()
        if t == "%":
            out.append(C("%"))
            continue
        if name:
            v = getitem(cx, b, C(name))
        else:
            if i >= len(args):
                cx.raise_("TypeError", "not enough arguments for format string")
            v = cx.force(args[i])
            i += 1
        if t == "s":
            v = str_(cx, v)
            out.append(v if not w else format_(cx, v, C(("<" if "-" in flags else ">") + w)))
        elif t == "r":
            out.append(repr_(cx, v))
        elif t in "dixXofeEgGuc":
            if t in "iu":
                t = "d"
            if t == "d" and ty2(v) == "float":
                v = toint(cx, v)
            if not num.isnum(v):
                cx.raise_("TypeError", "%d format: a number is required")
            spec = ("0" if "0" in flags and "-" not in flags else "") + (w or "") + (f".{p}" if p else (".6" if t in "feEgG" else "")) + t
            out.append(format_(cx, v, C(spec)))
        else:
            unsupported("% format")
    if isinstance(b, Tup) and i < len(args):
        cx.raise_("TypeError", "not all arguments converted during string formatting")
    out.append(C(fmt[pos:]))
    return S.cat(out)


def bpercent(cx, a, b):
    """bytes % arguments: %b, %s, %d and %%"""
    import re
    args = list(b.items) if isinstance(b, Tup) else [b]
    fmt = a.v
    out, pos = [], 0
    for m in re.finditer(rb"%(.?)", fmt, re.S):
        out.append(C(fmt[pos:m.start()]))
        pos = m.end()
        t = m.group(1)
        if t == b"%":
            out.append(C(b"%"))
            continue
        if t not in (b"b", b"s", b"d"):
            unsupported("% format of bytes")
        if not args:
            cx.raise_("TypeError", "not enough arguments for format string")
        v = cx.force(args.pop(0))
        if t == b"d":
            if not num.isnum(v):
                refuse(cx, lambda x: b"%d" % x, (v,), "%d format: a number is required")
            out.append(S.encode(format_(cx, v if num.isint(v) else toint(cx, v), C("d")), "ascii", cx))
        else:
            x = tobytes(cx, v)
            if x is None:
                refuse(cx, lambda x: b"%b" % x, (v,), "%b requires a bytes-like object")
            out.append(x)
    if args:
        cx.raise_("TypeError", "not all arguments converted during bytes formatting")
    out.append(C(fmt[pos:]))
    return S.cat(out, True)


def str_format(cx, fmt, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(C(lit))
        if field is None:
            continue
        name = field
        import re
        m = re.match(r"^(\w*)(.*)$", name)
        base, rest = m.groups()
        if base == "":
            v = args[auto]
            auto += 1
        elif base.isdigit():
            v = args[int(base)]
        else:
            if base not in kw:
                cx.raise_("KeyError", base)
            v = kw[base]
        v = cx.force(v)
        for a, i in re.findall(r"\.(\w+)|\[(\w+)\]", rest):
            v = cx.force(cx.it.getattr(cx, v, a) if a else getitem(cx, v, C(int(i)) if i.isdigit() else C(i)))
        if conv == "r":
            v = repr_(cx, v)
        elif conv == "s":
            v = str_(cx, v)
        if spec and "{" in spec:
            sp = str_format(cx, spec, args[auto:], kw)
        else:
            sp = C(spec or "")
        out.append(format_(cx, v, sp))
    return S.cat(out)


# --------------------------------------------------------------------------
# iteration
# --------------------------------------------------------------------------


class Plan(V):
    __slots__ = ("items", "tail", "node")

    def __init__(self, items, tail=None):
        self.items, self.tail, self.node = items, tail, None


def tail_elem(tail, i):
    """element i of an unknown-length tail"""
    ety = "str"
    if tail.op in ("split", "taildrop"):
        return T("splititem", (tail.args[0] if tail.op == "split" else tail, tail.args[1] if tail.op == "split" else tail.args[1], i), tail.ty)
    if tail.op == "chars":
        return T("charat", (tail.args[0], i), tail.ty)
    return T("elem", (tail, i), tail.ty if tail.ty in ("str", "bytes", "int") else "any")


def islazy(cx, v):
    """does taking an element of v run code of the program?"""
    if not isinstance(v, Ref):
        return False
    o = cx.st.get(v.oid)
    return o.kind in ("gen", "calls") or o.kind == "inst" and isinstance(o.cls, Cls) and \
        cx.it.class_attr(cx.st, o.cls, "__iter__") is not None


def stepwise(cx, v, kept):
    """the iterator to be stepped through for a loop over v, None where all elements may be taken at once"""
    if not isinstance(v, Ref):
        return None
    o = cx.st.get(v.oid)
    if o.kind in ("gen", "calls"):
        return v
    if o.kind == "iter" and kept and o.extra is None:
        return v
    if o.kind == "inst" and isinstance(o.cls, Cls):
        f = cx.it.class_attr(cx.st, o.cls, "__iter__")
        if f is None:
            return None
        r = cx.force(cx.call(Bound(v, f), []))
        if isinstance(r, Ref):
            ro = cx.st.get(r.oid)
            if ro.kind == "inst" and isinstance(ro.cls, Cls) and cx.it.class_attr(cx.st, ro.cls, "__next__") is not None:
                return r
            w = stepwise(cx, r, False)
            if w is not None:
                return w
        return iter_plan(cx, r)
    return None


def step(cx, v):
    """the next element of an iterator, None at its end"""
    try:
        return b_next(cx, [v], {})
    except _interp().AbsRaise as e:
        if cx.it.exc_match(cx.st, e.exc, Bi("StopIteration")):
            return None
        raise


def iterate2(cx, v):
    """-> (items, tail term or None)"""
    v = cx.force(v)
    if isinstance(v, Ref):
        k = cx.st.get(v.oid).kind
        if k == "gen":
            return cx.it.drain(cx, v), None
        if k == "calls":
            return all_steps(cx, v), None
    if isinstance(v, Tup):
        return list(v.items), None
    if isinstance(v, Cls):
        em = cx.st.get(v.oid).data.get("_enum_")
        if em is None:
            cx.raise_("TypeError", "class is not iterable")
        out = []
        for m in em.items:
            if m.items[2] not in out:
                out.append(m.items[2])
        return out, None
    if isinstance(v, C):
        if isinstance(v.v, (str,)):
            return [C(c) for c in v.v], None
        if isinstance(v.v, bytes):
            return [C(c) for c in v.v], None
        if isinstance(v.v, (frozenset, tuple)):
            return [C(c) for c in v.v], None
        cx.raise_("TypeError", "not iterable")
    if S.isS(v):
        ch = S.tochars(v)
        if ch is not None:
            if S.isbytes(v):
                ch = [byteval(c) for c in ch]
            return ch, None
        return [], T("chars", (v,), "str" if S.isstr(v) else "int")
    if isinstance(v, Wrap):
        if v.kind == "range":
            lo, hi, st = v.args
            if all(isinstance(x, C) for x in v.args):
                r = range(lo.v, hi.v, st.v)
                if len(r) > 5000:
                    unsupported("very long range")
                return [C(i) for i in r], None
            if isinstance(lo, C) and isinstance(st, C) and st.v == 1:
                return [], T("rangetail", (lo, hi), "int")
            return [], T("rangetail3", (lo, hi, st), "int")
        if v.kind == "dictview":
            o, what = v.args
            its = dict_items(cx, o)
            if what == "keys":
                return [k for k, _ in its], None
            if what == "values":
                return [x for _, x in its], None
            return [Tup((k, x)) for k, x in its], None
        if v.kind == "instdict":
            return [k for k, _ in dict_items(cx, v)], None
    if isinstance(v, Ref):
        o = cx.st.get(v.oid)
        if o.kind == "list":
            return list(o.data), None
        if o.kind in ("dict", "set"):
            return list(o.data), None
        if o.kind == "iter":
            items = list(o.data)
            if items:
                cx.st.write(v.oid).data = []
            t = o.extra
            return items, t
        if o.kind == "ulist":
            return list(o.data), o.extra
        if o.kind == "bytearray":
            return iterate2(cx, cx.force(o.data[0]))
        if o.kind == "inst":
            f = cx.it.class_attr(cx.st, o.cls, "__iter__")
            if f is not None:
                r = cx.force(cx.call(Bound(v, f), []))
                if r is not v:
                    return iterate2(cx, r)
                if cx.it.class_attr(cx.st, o.cls, "__next__") is not None:
                    return all_steps(cx, v), None
        if o.kind == "ext" and hasattr(o.extra, "iterate"):
            return o.extra.iterate(cx, v), None
    if isinstance(v, T):
        if v.ty in ("list", "tuple", "any"):
            return [], v
    if isinstance(v, Cls):
        cx.raise_("TypeError", "class is not iterable")
    if isinstance(v, Ref):
        unsupported(f"iteration over {cx.st.get(v.oid).kind}")
    refuse(cx, iter, (v,), "object is not iterable")


def byteval(c):
    """integer value of a single byte"""
    if isinstance(c, C):
        return C(c.v[0])
    if c.op == "enc":
        return T("ord", (c.args[0],), "int")
    if c.op == "byte":
        return c.args[0]
    return T("ord", (c,), "int")


def iterate(cx, v):
    items, tail = iterate2(cx, v)
    if tail is not None:
        unsupported("iteration over sequence of unknown length")
    return items


def iter_plan(cx, v):
    v = cx.force(v)
    items, tail = iterate2(cx, v)
    if tail is None:
        return Plan(items)
    from .loops import unknown_tail
    return Plan(items, unknown_tail(cx, v, tail))


def dict_items(cx, v):
    v = cx.force(v)
    if isinstance(v, Wrap) and v.kind == "instdict":
        o = cx.st.get(v.args[0].oid)
        out = []
        for k, x in o.data.items():
            if isinstance(x, Phi) and any(a is UNBOUND for _, a in x.alts) or x is UNBOUND:
                x = cx.it.force_attr(cx, x)
                if x is None:
                    continue
            out.append((C(k) if isinstance(k, str) else k, x))
        return out
    if isinstance(v, Wrap) and v.kind == "dictview" and v.args[1] == "items":
        return dict_items(cx, v.args[0])
    if isinstance(v, Ref):
        o = cx.st.get(v.oid)
        if o.kind == "dict":
            return list(o.data.items())
        if o.kind in ("list", "iter"):
            return [tuple(iterate(cx, x)) for x in iterate(cx, v)]
    if isinstance(v, Tup):
        return [tuple(iterate(cx, x)) for x in v.items]
    if v is NONE:
        cx.raise_("TypeError", "NoneType is not a mapping")
    unsupported(f"mapping {v!r}")


def translated(cx, v, tab):
    """str.translate with a constant table, as replacements where these do not interact"""
    o = cx.st.get(tab.oid)
    if o.kind != "dict" or S.isbytes(v):
        return None
    moves = {}
    for k, x in dict_items(cx, tab):
        k = k.v if isinstance(k, C) else k
        if not isinstance(x, C) or not isinstance(k, (int, str)):
            return None
        k = chr(k) if isinstance(k, int) else k
        x = "" if x.v is None else chr(x.v) if isinstance(x.v, int) else x.v
        if x != k:
            moves[k] = x
    if isinstance(v, C):
        return C(v.v.translate({ord(k): x for k, x in moves.items()}))
    if any(k in x for k in moves for x in moves.values()):
        return None
    for k in sorted(moves):
        v = S.replace(cx, v, C(k), C(moves[k]))
    return v


def range_len(cx, w):
    lo, hi, st = w.args
    if all(isinstance(x, C) for x in w.args):
        return C(len(range(lo.v, hi.v, st.v)))
    if st is C(1):
        d = num.iadd(hi, lo, -1)
        l, h = num.interval(d, cx.st)
        if l is not None and l >= 0:
            return d
        return T("max", (C(0), d), "int")
    return T("rangelen", (lo, hi, st), "int")


# --------------------------------------------------------------------------
# subscripts
# --------------------------------------------------------------------------


def norm_index(cx, i, n):
    """constant index into a sequence of known length n -> python index"""
    k = i.v
    if k < 0:
        k += n
    if k < 0 or k >= n:
        cx.raise_("IndexError", "index out of range")
    return k


def getitem(cx, o, k):
    o, k = cx.force(o), cx.force(k)
    if isinstance(o, Cls) and "__members__" in cx.st.get(o.oid).data:
        return getitem(cx, cx.st.get(o.oid).data["__members__"], k)
    if isinstance(o, (Bi, Cls)):
        return o  # generic alias in an annotation-like position
    if isinstance(o, Wrap) and o.kind in ("union",):
        return o
    if isinstance(k, Wrap) and k.kind == "slice":
        return getslice(cx, o, *k.args)
    if isinstance(k, T) and k.ty == "bool" and (S.isS(o) or isinstance(o, Tup) or ty2(o) == "list"):
        k = C(int(cx.cond(k)))  # False and True are 0 and 1
    if S.isS(o):
        if ty2(k) not in ("int", "bool"):
            cx.raise_("TypeError", "string indices must be integers")
        return stritem(cx, o, k)
    if isinstance(o, Tup):
        return seqitem(cx, o.items, k)
    if isinstance(o, Wrap):
        if o.kind == "range":
            return seqitem(cx, iterate(cx, o), k)
        if o.kind == "instdict":
            if isinstance(k, C):
                ob = cx.st.get(o.args[0].oid)
                if k.v in ob.data:
                    r = cx.it.force_attr(cx, ob.data[k.v])
                    if r is not None:
                        return r
                cx.raise_("KeyError", k.v)
            unsupported("symbolic key")
    if isinstance(o, Ref):
        ob = cx.st.get(o.oid)
        if ob.kind == "list":
            return seqitem(cx, ob.data, k)
        if ob.kind == "dict":
            return dict_get(cx, o, ob, k, None)
        if ob.kind == "bytearray":
            return getitem(cx, cx.force(ob.data[0]), k)
        if ob.kind == "ulist":
            if isinstance(k, C):
                if 0 <= k.v < len(ob.data):
                    return ob.data[k.v]
                ln = T("len", (ob.extra,), "int")
                if k.v >= 0:
                    i = k.v - len(ob.data)
                    if cx.cond(cx.it.notv(num.ltc(C(i), ln))):
                        cx.raise_("IndexError", "list index out of range")
                    return tail_elem(ob.extra, C(i))
                if not ob.data and cx.cond(num.ltc(ln, C(-k.v))):
                    cx.raise_("IndexError", "list index out of range")
                return tail_elem(ob.extra, k)
            ln = T("len", (ob.extra,), "int")
            if cx.cond(cx.it.notv(num.ltc(k, num.iadd(ln, C(len(ob.data)))))):
                cx.raise_("IndexError", "list index out of range")
            return tail_elem(ob.extra, k)
        if ob.kind == "inst":
            f = cx.it.class_attr(cx.st, ob.cls, "__getitem__") if isinstance(ob.cls, Cls) else None
            if f is not None:
                return cx.call(Bound(o, f), [k])
        if ob.kind == "ext" and hasattr(ob.extra, "getitem"):
            return ob.extra.getitem(cx, o, k)
        refuse(cx, _op.getitem, (o, k), "object is not subscriptable")
    if isinstance(o, T) and o.ty == "match":
        return dtm.match_group(cx, o, k)
    if isinstance(o, T) and o.ty == "any":
        if not cx.cond(T("subscriptable", (o, k), "bool")):
            cx.raise_("TypeError", "not subscriptable")
        return T("item", (o, k), "any")
    refuse(cx, _op.getitem, (o, k), "object is not subscriptable")


def stritem(cx, o, k):
    byt = S.isbytes(o)
    if isinstance(o, C) and isinstance(k, C):
        try:
            return C(o.v[k.v])
        except IndexError:
            cx.raise_("IndexError", "string index out of range")
    if isinstance(k, C):
        ch = S.tochars(o)
        if ch is not None:
            c = ch[norm_index(cx, k, len(ch))]
            return byteval(c) if byt else c
        need = k.v + 1 if k.v >= 0 else -k.v
        if S.minlen(o) < need:
            mx = S.maxlen(o)
            if mx is not None and mx < need:
                cx.raise_("IndexError", "string index out of range")
            if cx.cond(num.ltc(strlen(cx, o), C(need))):
                cx.raise_("IndexError", "string index out of range")
        c = S.slice_(cx, o, C(k.v), C(k.v + 1) if k.v != -1 else NONE if False else (C(k.v + 1) if k.v != -1 else None))
        if S.minlen(c) != 1 or S.maxlen(c) != 1:
            c = T("charat", (o, k), o.ty)
            return T("ord", (c,), "int") if byt else c
        return byteval(c) if byt else c
    if cx.cond(cx.it.notv(num.ltc(k, strlen(cx, o)))):
        cx.raise_("IndexError", "string index out of range")
    c = T("charat", (o, k), "bytes" if byt else "str")
    return T("ord", (c,), "int") if byt else c


def seqitem(cx, items, k):
    if isinstance(k, C):
        if not isinstance(k.v, int):
            cx.raise_("TypeError", "indices must be integers")
        return items[norm_index(cx, k, len(items))]
    if not num.isint(k):
        cx.raise_("TypeError", "indices must be integers or slices")
    n = len(items)
    for i in range(n):
        if cx.cond(num_eq(k, C(i))):
            return items[i]
    for i in range(1, n + 1):
        if cx.cond(num_eq(k, C(-i))):
            return items[-i]
    cx.raise_("IndexError", "list index out of range")


def getslice(cx, o, i, j, s):
    g = lambda x: None if x is NONE else x  # noqa: E731
    if S.isS(o):
        return S.slice_(cx, o, g(i), g(j), g(s))
    if isinstance(o, Ref) and cx.st.get(o.oid).kind == "bytearray":
        r = S.slice_(cx, cx.force(cx.st.get(o.oid).data[0]), g(i), g(j), g(s))
        return cx.st.alloc("bytearray", None, [r])
    if all(x is NONE or isinstance(x, C) for x in (i, j, s)):
        sl = slice(i.v, j.v, s.v)
        if isinstance(o, Tup):
            return Tup(o.items[sl])
        if isinstance(o, Ref):
            ob = cx.st.get(o.oid)
            if ob.kind == "list":
                return cx.newlist(ob.data[sl])
            if ob.kind == "ulist" and sl.stop is None and sl.step is None and (sl.start or 0) >= 0:
                a = sl.start or 0
                if a <= len(ob.data):
                    return cx.st.alloc("ulist", None, ob.data[a:], ob.extra)
                return cx.st.alloc("ulist", None, [], T("taildrop", (ob.extra, a - len(ob.data)), ob.extra.ty))
        if isinstance(o, Wrap) and o.kind == "range":
            return cx.newlist(iterate(cx, o)[sl])
    if isinstance(o, Ref) and cx.st.get(o.oid).kind == "list" and s is NONE:
        # symbolic bound over a list of known length: one case per value
        data = cx.st.get(o.oid).data
        n = len(data)

        def conc(x, dflt):
            if x is NONE:
                return dflt
            if isinstance(x, C):
                return x.v
            for q in range(0, n + 1):
                if cx.cond(num_eq(x, C(q))):
                    return q
            if cx.cond(num.ltc(C(n), x)):
                return n
            unsupported("negative symbolic slice bound")
        return cx.newlist(data[conc(i, None):conc(j, None)])
    if isinstance(o, T) and o.ty == "any":
        if not cx.cond(T("sliceable", (o,), "bool")):
            cx.raise_("TypeError", "not subscriptable")
        return T("slice", (o, i, j), "any")
    if isinstance(o, (Ref, Tup)):
        unsupported("slice with symbolic bounds")
    refuse(cx, lambda x: x[0:1], (o,), "object is not subscriptable")


def dict_get(cx, ref, ob, k, default):
    """default None -> KeyError"""
    k = hashkey(cx, k)
    if k in ob.data:
        v = ob.data[k]
        if v is UNBOUND or isinstance(v, Phi) and any(a is UNBOUND for _, a in v.alts):
            v = cx.it.force_attr(cx, v)
            if v is None:
                if default is None:
                    cx.raise_("KeyError", repr(k))
                return default
        return v
    has = dict_has(cx, ref, ob, k)
    if has is FALSE or has is not TRUE and not cx.cond(has):
        if default is None:
            cx.raise_("KeyError", repr(k))
        return default
    for kk, v in list(ob.data.items()):
        r = equal(cx, k, kk)
        if r is TRUE or r is not FALSE and cx.cond(r):
            return v
    raise _interp().Infeasible()


def setitem(cx, o, k, v):
    o, k = cx.force(o), cx.force(k)
    if isinstance(o, Wrap) and o.kind == "instdict":
        if isinstance(k, C):
            if cx.st.isbase(o.args[0].oid):
                cx.st.event("gwrite", (o.args[0].oid, k.v), cx.it.where(cx))
            cx.st.write(o.args[0].oid).data[k.v] = v
            return
        unsupported("symbolic key")
    if not isinstance(o, Ref):
        cx.raise_("TypeError", "object does not support item assignment")
    ob = cx.st.get(o.oid)
    if cx.st.isbase(o.oid):
        cx.st.event("gwrite", (o.oid, k), cx.it.where(cx))
    if ob.kind == "list":
        if isinstance(k, Wrap):
            i, j, s = k.args
            if all(x is NONE or isinstance(x, C) for x in (i, j, s)):
                items = iterate(cx, v)
                cx.st.write(o.oid).data[slice(i.v, j.v, s.v)] = items
                return
            unsupported("slice assignment")
        if isinstance(k, C):
            n = norm_index(cx, k, len(ob.data))
            cx.st.write(o.oid).data[n] = v
            return
        n = len(ob.data)
        for i in range(n):
            if cx.cond(num_eq(k, C(i))):
                cx.st.write(o.oid).data[i] = v
                return
        cx.raise_("IndexError", "list assignment index out of range")
    if ob.kind == "ulist":
        if isinstance(k, C) and 0 <= k.v < len(ob.data):
            cx.st.write(o.oid).data[k.v] = v
            return
        if isinstance(k, C) and k.v >= 0:
            ln = T("len", (ob.extra,), "int")
            need = k.v - len(ob.data)
            if cx.cond(cx.it.notv(num.ltc(C(need), ln))):
                cx.raise_("IndexError", "list assignment index out of range")
            w = cx.st.write(o.oid)
            for i in range(need):
                w.data.append(tail_elem(ob.extra, C(i)))
            w.data.append(v)
            w.extra = T("taildrop", (ob.extra, need + 1), ob.extra.ty)
            return
        unsupported("symbolic index into unknown list")
    if ob.kind == "dict":
        k = hashkey(cx, k)
        cx.st.write(o.oid).data[k] = v
        return
    if ob.kind == "bytearray":
        if isinstance(k, Wrap):
            i, j, s = k.args
            cur = cx.force(ob.data[0])
            g = lambda x: None if x is NONE else x  # noqa: E731
            pre = S.slice_(cx, cur, C(0), g(i) or C(0))
            post = S.slice_(cx, cur, g(j), None) if g(j) is not None else C(b"")
            cx.st.write(o.oid).data[0] = S.cat([pre, tobytes(cx, v), post], True)
            return
    if ob.kind == "inst":
        f = cx.it.class_attr(cx.st, ob.cls, "__setitem__") if isinstance(ob.cls, Cls) else None
        if f is not None:
            cx.call(Bound(o, f), [k, v])
            return
    refuse(cx, lambda x: x.__class__.__setitem__ if hasattr(x, "__setitem__") else _op.setitem(x, 0, 0), (o,),
           "object does not support item assignment")


def delitem(cx, o, k):
    o, k = cx.force(o), cx.force(k)
    if isinstance(o, Ref):
        ob = cx.st.get(o.oid)
        if cx.st.isbase(o.oid):
            cx.st.event("gwrite", (o.oid, k), cx.it.where(cx))
        if ob.kind == "dict":
            k = hashkey(cx, k)
            if k not in ob.data:
                cx.raise_("KeyError", repr(k))
            del cx.st.write(o.oid).data[k]
            return
        if ob.kind == "list":
            if isinstance(k, Wrap):
                i, j, s = k.args
                del cx.st.write(o.oid).data[slice(i.v, j.v, s.v)]
                return
            n = norm_index(cx, k, len(ob.data))
            del cx.st.write(o.oid).data[n]
            return
        if ob.kind == "bytearray" and isinstance(k, Wrap):
            i, j, s = k.args
            cur = cx.force(ob.data[0])
            g = lambda x: None if x is NONE else x  # noqa: E731
            pre = S.slice_(cx, cur, C(0), g(i)) if g(i) is not None else C(b"")
            post = S.slice_(cx, cur, g(j), None) if g(j) is not None else C(b"")
            cx.st.write(o.oid).data[0] = S.cat([pre, post], True)
            return
    if isinstance(o, Wrap) and o.kind == "instdict":
        cx.it.raw_delattr(cx, o.args[0], k)
        return
    unsupported("del item")


def dict_update(cx, d, other):
    items = dict_items(cx, other)
    if cx.st.isbase(d.oid):
        cx.st.event("gwrite", (d.oid, "update"), cx.it.where(cx))
    w = cx.st.write(d.oid)
    for k, v in items:
        w.data[hashkey(cx, cx.force(k))] = v


# --------------------------------------------------------------------------
# lengths
# --------------------------------------------------------------------------


def strlen(cx, v):
    if isinstance(v, C):
        return C(len(v.v))
    c = 0
    d = {}
    for p in S.parts(v):
        if isinstance(p, C):
            c += len(p.v)
        elif S.minlen(p) == S.maxlen(p):
            c += S.minlen(p)
        else:
            q = p
            if isinstance(q, T) and q.op == "enc" and S.asciionly(q.args[0]):
                q = q.args[0]
            t = T("len", (q,), "int")
            d[t] = d.get(t, 0) + 1
    r = num.mklin(c, d)
    if isinstance(r, T) and cx.st.eqc.get(r) is not None:
        return cx.st.eqc[r]
    return r


def len_(cx, v):
    v = cx.force(v)
    if S.isS(v):
        return strlen(cx, v)
    if isinstance(v, Tup):
        return C(len(v.items))
    if isinstance(v, Wrap):
        if v.kind == "range":
            return range_len(cx, v)
        if v.kind == "dictview":
            return len_(cx, v.args[0])
        if v.kind == "instdict":
            return C(len(dict_items(cx, v)))
    if isinstance(v, Ref):
        o = cx.st.get(v.oid)
        if o.kind in ("list", "dict", "set"):
            return C(len(o.data))
        if o.kind == "ulist":
            return num.iadd(C(len(o.data)), T("len", (o.extra,), "int"))
        if o.kind == "bytearray":
            return strlen(cx, cx.force(o.data[0]))
        if o.kind == "inst":
            f = cx.it.class_attr(cx.st, o.cls, "__len__") if isinstance(o.cls, Cls) else None
            if f is not None:
                return cx.call(Bound(v, f), [])
        if o.kind == "ext" and hasattr(o.extra, "len"):
            return o.extra.len(cx, v)
    if isinstance(v, T) and v.ty in ("any", "list"):
        if v.ty == "any" and not cx.cond(T("sized", (v,), "bool")):
            cx.raise_("TypeError", "object has no len()")
        return T("len", (v,), "int")
    refuse(cx, len, (v,), "object has no len()")


# --------------------------------------------------------------------------
# conversions
# --------------------------------------------------------------------------


def toint(cx, v, base=None):
    v = cx.force(v)
    if isinstance(v, C):
        try:
            return C(int(v.v, base) if base is not None else int(v.v))
        except (ValueError, TypeError, OverflowError) as e:
            cx.raise_(type(e).__name__, str(e))
    if S.isS(v):
        b = 10 if base is None else base
        if v.op == "str" and num.isint(v.args[0]) and b == 10:
            return v.args[0]
        if v.op == "fmt" and num.isint(v.args[0]):
            f = S.parse_spec(v.args[1])
            if f and (f["type"] in ("X", "x") and b == 16 or f["type"] in ("", "d") and b == 10):
                return v.args[0]
        inner = v
        if v.op in ("upper", "lower", "strip", "enc"):
            inner = v.args[0]  # same integer value
        if S.isS(inner) and inner.op == "enc":
            inner = inner.args[0]
        t = T("intok", (inner, b), "bool")
        if inner.op == "atom" and inner.props.incl is not None and S.minlen(inner) >= 1 and \
                inner.props.incl <= set("0123456789abcdefABCDEF"[:10 if b == 10 else 22]):
            t = TRUE
        if not cx.cond(t):
            cx.raise_("ValueError", "invalid literal for int()")
        r = T("int", (inner, b), "int")
        return cx.st.eqc.get(r, r)
    if num.isint(v):
        return num.iadd(v, C(0)) if ty2(v) == "bool" else v
    if ty2(v) == "float":
        if v.op == "tofloat":
            return v.args[0]
        lo, hi = num.interval(v, cx.st)
        if lo is None or hi is None:
            if v.op in ("round",) or True:
                if not cx.cond(T("finite", (v,), "bool")):
                    cx.raise_("OverflowError", "cannot convert float infinity to integer")
        if v.op == "floor":
            return T("floor", v.args, "int")
        x = exact_us(v)
        if x is not None:
            return x
        return T("toint", (v,), "int")
    if isinstance(v, Ref) and cx.st.get(v.oid).kind == "inst":
        f = cx.it.class_attr(cx.st, cx.st.get(v.oid).cls, "__int__")
        if f is not None:
            return cx.call(Bound(v, f), [])
    if isinstance(v, T) and v.ty == "any":
        if not cx.cond(T("intok", (v,), "bool")):
            cx.raise_("ValueError" if cx.nd(2, "exc") else "TypeError", "int()")
        return T("int", (v,), "int")
    refuse(cx, int, (v,), "int() argument must be a string or a number")


def exact_us(v):
    return None


def tofloat_(cx, v):
    v = cx.force(v)
    if isinstance(v, C):
        try:
            return C(float(v.v))
        except (ValueError, TypeError, OverflowError) as e:
            cx.raise_(type(e).__name__, str(e))
    if S.isS(v):
        if v.op == "str" and num.isnum(v.args[0]):
            return tofloat(v.args[0])
        if floatok(v) is False:
            cx.raise_("ValueError", "could not convert string to float")
        if floatok(v) is None and not cx.cond(T("floatok", (v,), "bool")):
            cx.raise_("ValueError", "could not convert string to float")
        return T("float", (v,), "float")
    if num.isnum(v):
        return tofloat(v)
    if isinstance(v, T) and v.ty == "any":
        if not cx.cond(T("floatok", (v,), "bool")):
            cx.raise_("ValueError" if cx.nd(2, "exc") else "TypeError", "float()")
        return T("float", (v,), "float")
    refuse(cx, float, (v,), "float() argument must be a string or a number")


def floatok(v):
    """does the text follow the syntax of a number, whatever its unknown pieces"""
    from . import regex
    if v.op == "atom" and v.props.incl is None or S.isbytes(v):
        return None
    if v.op == "fmt" and isinstance(v.args[0], T) and v.args[0].ty in ("int", "float") and isinstance(v.args[1], (str, C)) and \
            _re.fullmatch(r"[+-]?0?[0-9]*(\.[0-9]+)?[eEfFgG]", v.args[1] if isinstance(v.args[1], str) else str(v.args[1].v)):
        return True  # a formatted number
    if regex.decide("fullmatch", r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", v):
        return True
    if regex.decide("fullmatch", r"\s*[+-]?([\d_]*\.?[\d_]*([eE][+-]?[\d_]+)?|[iI][nN][fF][a-zA-Z]*|[nN][aA][nN])\s*", v) is False:
        return False
    return None


def round_(cx, v, n):
    v = cx.force(v)
    nn = None if n is None or n is NONE else (n.v if isinstance(n, C) else n)
    if isinstance(v, C) and (nn is None or isinstance(nn, int)):
        try:
            return C(round(v.v, nn) if nn is not None else round(v.v))
        except (TypeError, ValueError, OverflowError) as e:
            cx.raise_(type(e).__name__, str(e))
    if num.isint(v) and (nn is None or isinstance(nn, int) and nn >= 0):
        return v
    if isinstance(v, T) and v.ty == "any":
        v = binop(cx, "+", v, C(0.0))
    if not num.isnum(v):
        refuse(cx, round, (v,), "type doesn't define __round__ method")
    if nn is None:
        lo, hi = num.interval(v, cx.st)
        if (lo is None or hi is None) and not cx.cond(T("finite", (v,), "bool")):
            cx.raise_("OverflowError", "cannot convert float infinity to integer")
        return T("round", (v, None), "int")
    return T("round", (v, nn), "int" if num.isint(v) else "float")


# --------------------------------------------------------------------------
# builtin calls
# --------------------------------------------------------------------------

FOLD_OK_PREFIX = ("math.", "re.", "operator.", "binascii.", "datetime.", "struct.", "string.", "calendar.")
NOFOLD = {"print", "input", "open", "exec", "eval", "compile", "id", "hash", "globals", "locals",
          "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.date.today",
          "datetime.datetime.today", "iter", "next", "type", "isinstance", "issubclass", "super",
          "getattr", "setattr", "hasattr", "delattr", "vars", "object", "map", "filter", "zip",
          "enumerate", "reversed", "range", "property", "staticmethod", "classmethod", "len",
          "list", "dict", "set", "tuple", "bytearray", "callable", "dir", "memoryview", "slice",
          "operator.itemgetter", "operator.attrgetter", "operator.methodcaller"}


def call_builtin(cx, name, args, kw):
    args = [cx.force(a) for a in args]
    kw = {k: cx.force(v) for k, v in kw.items()}
    I = _interp()
    if name in I.EXC_NAMES:
        return cx.st.alloc("inst", Bi(name), {"args": Tup(args)})
    if all(isinstance(a, C) for a in args) and all(isinstance(a, C) for a in kw.values()) and \
            name not in NOFOLD and (("." not in name) or name.startswith(FOLD_OK_PREFIX)
                                    or name.split(".")[0] in ("int", "bytes", "str", "float", "dict")):
        try:
            f = resolve(name)
        except (AttributeError, ImportError):
            f = None
        if f is not None and (args or kw or name in ("str", "int", "float", "bytes", "bool")):
            if name.startswith("re.") and name.split(".")[1] not in ("match", "split", "sub", "findall", "search", "fullmatch", "compile", "escape"):
                f = None
            if f is not None:
                if name == "re.compile":
                    return Wrap("regex", args[0])
                try:
                    r = f(*[a.v for a in args], **{k: a.v for k, a in kw.items()})
                except Exception as e:  # constant folding: the call itself raises
                    cx.raise_(type(e).__name__ if type(e).__name__ in I.EXC_NAMES else I.EXC_BY_OBJ.get(type(e), "Exception"), str(e))
                if name.startswith("re.") and name.split(".")[1] in ("match", "search", "fullmatch"):
                    return NONE if r is None else Wrap("cmatch", C(args[0].v), args[1], C(name.split(".")[1]))
                try:
                    return cx.lift(r)
                except TypeError:
                    pass
    h = BUILTINS.get(name)
    if h is not None:
        return h(cx, args, kw)
    if name.startswith("math."):
        return math_call(cx, name[5:], args, kw)
    if name.startswith("datetime."):
        return dtm.call(cx, name, args, kw)
    if name.startswith("re."):
        return dtm.re_call(cx, name[3:], args, kw)
    for t, kinds in (("str.", "str"), ("bytes.", "bytes"), ("list.", "list"), ("dict.", "dict"), ("set.", "set"), ("bytearray.", "bytearray"), ("int.", "int"), ("float.", "float")):
        if name.startswith(t):
            h = BUILTINS.get(name)
            meth = name[len(t):]
            if args:
                return call_method(cx, args[0], meth, args[1:], kw)
    if name.startswith("typing.") or name.startswith("collections.abc."):
        return Bi("typing.Any")
    if name.startswith("operator."):
        return op_call(cx, name[9:], args, kw)
    if name.startswith(("time.", "random.", "os.", "sys.")):
        cx.st.event("clock" if name.startswith("time.") else "extern", (name,), cx.it.where(cx))
        return T("extern", (name,) + cx.st.fresh(), "float" if name.startswith("time.") else "any")
    if name.startswith("threading."):
        from .models import Neutral
        return cx.st.alloc("ext", None, None, Neutral())
    if name.startswith("warnings."):
        return NONE
    unsupported(f"call of {name}")


def op_call(cx, name, args, kw):
    tab = {"xor": "^", "add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//",
           "mod": "%", "and_": "&", "or_": "|", "concat": "+"}
    if name in tab:
        return binop(cx, tab[name], args[0], args[1])
    if name in ("eq", "ne", "lt", "le", "gt", "ge"):
        if name == "eq":
            return equal(cx, *args)
        if name == "ne":
            return cx.it.notv(equal(cx, *args))
        return order(cx, {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[name], *args)
    if name == "itemgetter":
        return Wrap("itemgetter", *args)
    if name == "attrgetter":
        return Wrap("attrgetter", *args)
    if name == "neg":
        return num.neg(args[0])
    if name == "contains":
        return contains(cx, args[0], args[1])
    if name == "getitem":
        return getitem(cx, args[0], args[1])
    unsupported(f"operator.{name}")


def math_call(cx, f, args, kw):
    if kw:
        unsupported(f"math.{f} keywords")
    for i, a in enumerate(args):
        if isinstance(a, T) and a.ty == "any":
            args[i] = binop(cx, "+", a, C(0.0))
        elif not num.isnum(a) and not (f in ("fsum", "prod", "gcd", "dist")):
            refuse(cx, float, (a,), "must be real number")
    a = args[0]
    if f in ("acos", "asin"):
        if cx.cond(T("lt", (a, C(-1.0)), "bool")) or cx.cond(T("lt", (C(1.0), a), "bool")):
            cx.raise_("ValueError", "math domain error")
    elif f == "sqrt":
        if cx.cond(T("lt", (a, C(0.0)), "bool")):
            cx.raise_("ValueError", "math domain error")
    elif f in ("log", "log2", "log10"):
        if cx.cond(T("le", (a, C(0.0)), "bool")):
            cx.raise_("ValueError", "math domain error")
    elif f in ("floor", "ceil", "trunc"):
        if num.isint(a):
            return a
        lo, hi = num.interval(a, cx.st)
        if (lo is None or hi is None) and not cx.cond(T("finite", (a,), "bool")):
            cx.raise_("OverflowError", "cannot convert float infinity to integer")
        if f == "floor" and a.op == "fdiv" and num.isint(a.args[0]) and num.isint(a.args[1]):
            # floor(i / n) over integers well inside the exactly representable range
            l, h = num.interval(a.args[0], cx.st)
            if l is not None and h is not None and max(abs(l), abs(h)) < 2**50 and isinstance(a.args[1], C):
                return idiv(cx, "//", a.args[0], a.args[1].v)
        if a.op == "tofloat":
            return a.args[0]
        return T({"floor": "floor", "ceil": "ceil", "trunc": "toint"}[f], (a,), "int")
    elif f in ("isnan", "isinf", "isfinite"):
        lo, hi = num.interval(a, cx.st)
        if lo is not None and hi is not None:
            return mkbool(f == "isfinite")
        if f == "isfinite":
            return T("finite", (a,), "bool")
        return T(f, (a,), "bool")
    elif f == "fabs":
        return num.abs_(tofloat(a))
    elif f == "fmod":
        z = num_eq(args[1], C(0))
        if z is TRUE or z is not FALSE and cx.cond(z):
            cx.raise_("ValueError", "math domain error")
        return T("math", ("fmod", a, args[1]), "float")
    elif f == "copysign":
        b = args[1]
        m = num.abs_(tofloat(a), cx.st)
        lo, hi = num.interval(b, cx.st)
        if lo is not None and lo > 0:
            return m
        if hi is not None and hi < 0:
            return num.neg(m)
        return T("math", ("copysign", m, b), "float")
    elif f == "pow":
        return T("pow", (a, args[1]), "float")
    elif f == "modf":
        return Tup((T("math", ("modf_frac", a), "float"), T("math", ("modf_int", a), "float")))
    elif f == "gcd":
        return T("math", ("gcd",) + tuple(args), "int")
    elif f not in ("sin", "cos", "tan", "atan", "atan2", "radians", "degrees", "hypot", "exp"):
        unsupported(f"math.{f}")
    # even / odd symmetry
    if f == "cos":
        a = num.abs_(a, cx.st) if isinstance(a, T) and a.op in ("neg", "abs") else a
        args = [a.args[0] if isinstance(a, T) and a.op == "abs" else a]
    if f == "sin" and isinstance(a, T) and a.op == "neg":
        return num.neg(T("math", ("sin", a.args[0]), "float"))
    return T("math", (f,) + tuple(args), "float")


def b_len(cx, args, kw):
    return len_(cx, args[0])


def b_range(cx, args, kw):
    for a in args:
        if ty2(a) not in ("int", "bool"):
            if isinstance(a, T) and a.ty == "any":
                unsupported("range of unknown type")
            cx.raise_("TypeError", "object cannot be interpreted as an integer")
    if len(args) == 1:
        return Wrap("range", C(0), args[0], C(1))
    if len(args) == 2:
        return Wrap("range", args[0], args[1], C(1))
    return Wrap("range", *args)


def b_int(cx, args, kw):
    base = args[1] if len(args) > 1 else kw.get("base")
    return toint(cx, args[0] if args else C(0), base.v if base is not None else None)


def b_ord(cx, args, kw):
    a = args[0]
    if S.isS(a):
        if S.minlen(a) == 1 and S.maxlen(a) == 1:
            return byteval(a) if S.isbytes(a) else (a.args[0] if isinstance(a, T) and a.op == "chr" else T("ord", (a,), "int"))
        if cx.cond(num_eq(strlen(cx, a), C(1))):
            return T("ord", (a,), "int")
        cx.raise_("TypeError", "ord() expected a character")
    cx.raise_("TypeError", "ord() expected string of length 1")


def b_chr(cx, args, kw):
    a = args[0]
    if isinstance(a, T) and a.op == "ord":
        return a.args[0]
    return T("chr", (a,), "str")


def b_abs(cx, args, kw):
    a = args[0]
    if dtm.istd(a):
        return dtm.abs_td(cx, a)
    if isinstance(a, T) and a.ty == "any":
        a = binop(cx, "+", a, C(0.0))
    if not num.isnum(a):
        refuse(cx, abs, (a,), "bad operand type for abs()")
    # the sign of a float is not resolved here, so that both forms stay comparable
    return num.abs_(a, cx.st if num.isint(a) else None)


def b_divmod(cx, args, kw):
    return Tup((binop(cx, "//", *args), binop(cx, "%", *args)))


def b_pow(cx, args, kw):
    if len(args) == 2:
        return binop(cx, "**", *args)
    unsupported("3-argument pow")


def b_minmax(which):
    def h(cx, args, kw):
        key = kw.get("key")
        default = kw.get("default")
        if len(args) == 1:
            items, tail = iterate2(cx, args[0])
            if tail is not None:
                return T(which + "of", (tail,), "any")
            if not items:
                if default is not None:
                    return default
                cx.raise_("ValueError", f"{which}() arg is an empty sequence")
        else:
            items = args
        items = [cx.force(i) for i in items]
        if key is not None and key is not NONE:
            best, bk = items[0], cx.force(cx.call(key, [items[0]]))
            for i in items[1:]:
                k = cx.force(cx.call(key, [i]))
                r = order(cx, "<", k, bk) if which == "min" else order(cx, ">", k, bk)
                if r is TRUE or r is not FALSE and cx.cond(r):
                    best, bk = i, k
            return best
        if all(isinstance(i, C) for i in items):
            try:
                return C((min if which == "min" else max)(i.v for i in items))
            except TypeError as e:
                cx.raise_("TypeError", str(e))
        if all(num.isnum(i) for i in items):
            return minmax_num(cx, which, items)
        best = items[0]
        for i in items[1:]:
            r = order(cx, "<", i, best) if which == "min" else order(cx, ">", i, best)
            if r is TRUE or r is not FALSE and cx.cond(r):
                best = i
        return best
    return h


def minmax_num(cx, which, items):
    # flatten, drop dominated
    flat = []
    for i in items:
        if isinstance(i, T) and i.op == which:
            flat.extend(i.args)
        else:
            flat.append(i)
    consts = [i for i in flat if isinstance(i, C)]
    rest = list(dict.fromkeys(i for i in flat if not isinstance(i, C)))
    if consts:
        k = C((min if which == "min" else max)(c.v for c in consts))
        out = []
        for r in rest:
            lo, hi = num.interval(r, cx.st)
            if which == "max" and hi is not None and hi <= k.v or which == "min" and lo is not None and lo >= k.v:
                continue
            out.append(r)
        drop = any((which == "max" and (l := num.interval(r, cx.st)[0]) is not None and l >= k.v) or
                   (which == "min" and (l := num.interval(r, cx.st)[1]) is not None and l <= k.v) for r in out)
        rest = out if drop else [k] + out
    if len(rest) == 1:
        return rest[0]
    ty = "int" if all(num.isint(i) for i in rest) else "float"
    return T(which, tuple(rest), ty)


def b_sum(cx, args, kw):
    items = iterate(cx, args[0])
    acc = args[1] if len(args) > 1 else kw.get("start", C(0))
    for i in items:
        acc = binop(cx, "+", acc, i)
    return acc


def b_isinstance(cx, args, kw):
    return isinstance_(cx, args[0], args[1])


def b_getattr(cx, args, kw):
    n = args[1]
    if not isinstance(n, C):
        return sym_getattr(cx, args[0], n, args[2] if len(args) > 2 else None)
    return cx.it.getattr(cx, args[0], n.v, args[2] if len(args) > 2 else None)


def sym_getattr(cx, o, n, default):
    if isinstance(o, Ref) and cx.st.get(o.oid).kind == "inst":
        ob = cx.st.get(o.oid)
        for k in list(ob.data):
            r = S.eq(cx, n, C(k) if isinstance(k, str) else k)
            if r is TRUE or r is not FALSE and cx.cond(r):
                return ob.data[k]
        if default is not None:
            return default
        cx.raise_("AttributeError", "?")
    unsupported("getattr with unknown name")


def b_hasattr(cx, args, kw):
    n = args[1]
    m = T("missing", (), "any")
    if isinstance(n, C):
        try:
            r = cx.it.getattr(cx, args[0], n.v, m)
        except _interp().AbsRaise as e:
            if cx.it.exc_match(cx.st, e.exc, Bi("AttributeError")):
                return FALSE
            raise
        return mkbool(r is not m)
    r = sym_getattr(cx, args[0], n, m)
    return mkbool(r is not m)


def b_setattr(cx, args, kw):
    n = args[1]
    cx.it.setattr(cx, args[0], n.v if isinstance(n, C) else n, args[2])
    return NONE


def b_delattr(cx, args, kw):
    cx.it.delattr(cx, args[0], args[1].v if isinstance(args[1], C) else args[1])
    return NONE


def b_list(cx, args, kw):
    if not args:
        return cx.newlist([])
    items, tail = iterate2(cx, args[0])
    if tail is not None:
        return cx.st.alloc("ulist", None, items, tail)
    return cx.newlist(items)


def b_tuple(cx, args, kw):
    if not args:
        return Tup(())
    items, tail = iterate2(cx, args[0])
    if tail is not None:
        if not items:
            return T("tupleof", (tail,), "tuple") if tail.ty == "x" else cx.st.alloc("ulist", None, items, tail)
        return cx.st.alloc("ulist", None, items, tail)
    return Tup(items)


def b_set(cx, args, kw):
    return cx.newset([hashkey(cx, cx.force(x)) for x in (iterate(cx, args[0]) if args else [])])


def b_frozenset(cx, args, kw):
    return b_set(cx, args, kw)


def b_dict(cx, args, kw):
    d = {}
    if args:
        for k, v in dict_items(cx, args[0]):
            d[hashkey(cx, cx.force(k))] = v
    for k, v in kw.items():
        d[C(k)] = v
    return cx.newdict(d)


def b_enumerate(cx, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", C(0))
    items, tail = iterate2(cx, args[0])
    out = [Tup((num.iadd(start, C(i)), x)) for i, x in enumerate(items)]
    if tail is None:
        return cx.st.alloc("iter", None, out)
    return cx.st.alloc("iter", None, out, T("enumtail", (tail, num.iadd(start, C(len(items)))), "pair"))


def b_zip(cx, args, kw):
    ls = []
    for a in args:
        items, tail = iterate2(cx, a)
        if tail is not None:
            if tail.op == "count":
                ls.append(None)
                cnt = tail
                continue
            unsupported("zip over unknown-length sequence")
        ls.append(items)
    n = min(len(x) for x in ls if x is not None)
    full = []
    for a, x in zip(args, ls):
        full.append(x if x is not None else [num.iadd(cnt.args[0], C(i)) for i in range(n)])
    if kw.get("strict") is TRUE and any(len(x) != n for x in full):
        cx.raise_("ValueError", "zip() argument lengths differ")
    return cx.st.alloc("iter", None, [Tup(x) for x in zip(*full)])


def b_map(cx, args, kw):
    its = []
    for a in args[1:]:
        items, tail = iterate2(cx, a)
        if tail is not None:
            if len(args) == 2 and not items:
                # one generic element stands for all of them
                e = tail_elem(tail, T("anyidx", (tail,), "int"))
                r = cx.call(args[0], [e])
                return cx.st.alloc("iter", None, [], T("maptail", (tail, r), getattr(r, "ty", "any")))
            unsupported("map over unknown-length sequence")
        its.append(items)
    out = [cx.call(args[0], list(x)) for x in zip(*its)]
    return cx.st.alloc("iter", None, out)


def b_filter(cx, args, kw):
    out = []
    for x in iterate(cx, args[1]):
        if cx.truth(x if args[0] is NONE else cx.call(args[0], [x])):
            out.append(x)
    return cx.st.alloc("iter", None, out)


def b_reversed(cx, args, kw):
    return cx.st.alloc("iter", None, list(reversed(iterate(cx, args[0]))))


class _Sym(Exception):
    pass


def b_sorted(cx, args, kw):
    items = [cx.force(i) for i in iterate(cx, args[0])]
    rev = kw.get("reverse", FALSE)
    key = kw.get("key")
    if key is not None and key is not NONE:
        ks = [cx.force(cx.call(key, [i])) for i in items]
    else:
        ks = items

    def pyk(v):
        if isinstance(v, C):
            return v.v
        if isinstance(v, Tup):
            return tuple(pyk(i) for i in v.items)
        raise _Sym
    try:
        [pyk(k) for k in ks]
    except _Sym:
        if len(ks) > 4:
            unsupported("sorting unknown values")
        out = []
        for i, k in zip(items, ks):
            n = len(out)
            while n:
                r = order(cx, "<", out[n - 1][1], k) if getattr(rev, "v", False) else order(cx, "<", k, out[n - 1][1])
                if not (r is TRUE or r is not FALSE and cx.cond(r)):
                    break
                n -= 1
            out.insert(n, (i, k))
        return cx.newlist([i for i, _ in out])
    order_ = sorted(range(len(items)), key=lambda i: pyk(ks[i]), reverse=bool(getattr(rev, "v", False)))
    return cx.newlist([items[i] for i in order_])


def b_any(cx, args, kw):
    items, tail = iterate2(cx, args[0])
    for x in items:
        if cx.truth(x):
            return TRUE
    if tail is not None:
        return T("anyof", (tail,), "bool")
    return FALSE


def b_all(cx, args, kw):
    items, tail = iterate2(cx, args[0])
    for x in items:
        if not cx.truth(x):
            return FALSE
    if tail is not None:
        return T("allof", (tail,), "bool")
    return TRUE


def b_iter(cx, args, kw):
    if len(args) == 2:
        return cx.st.alloc("calls", None, list(args))
    a = args[0]
    if isinstance(a, Ref):
        o = cx.st.get(a.oid)
        if o.kind in ("iter", "gen", "calls"):
            return a
        if o.kind == "inst":
            f = cx.it.class_attr(cx.st, o.cls, "__iter__")
            if f is not None:
                return cx.call(Bound(a, f), [])
    items, tail = iterate2(cx, a)
    return cx.st.alloc("iter", None, items, tail)


def all_steps(cx, v):
    from .loops import SENTINEL_MAX
    out = []
    for _ in range(SENTINEL_MAX):
        x = step(cx, v)
        if x is None:
            return out
        out.append(x)
    unsupported("an iterator that does not end")


def b_next(cx, args, kw):
    a = args[0]
    if isinstance(a, Ref):
        o = cx.st.get(a.oid)
        if o.kind == "gen":
            items = cx.it.quietly(cx, lambda: cx.it.drain(cx, a), "a generator taken step by step",
                                  (a.oid, o.data[0].oid) if o.data else (a.oid,))
            w = cx.st.write(a.oid)
            w.kind, w.data = "iter", items
            o = w
        if o.kind == "calls":
            if o.data:
                v = cx.force(cx.call(o.data[0], []))
                e = equal(cx, v, o.data[1])
                if not (e is TRUE or e is not FALSE and cx.cond(e)):
                    return v
                cx.st.write(a.oid).data = []
            if len(args) > 1:
                return args[1]
            cx.raise_("StopIteration")
        if o.kind == "iter":
            if o.data:
                w = cx.st.write(a.oid)
                return w.data.pop(0)
            if o.extra is not None:
                if o.extra.op == "count":
                    w = cx.st.write(a.oid)
                    w.extra = T("count", (num.iadd(o.extra.args[0], C(1)),), "int")
                    return o.extra.args[0]
                unsupported("next() on unknown-length iterator")
            if len(args) > 1:
                return args[1]
            cx.raise_("StopIteration")
        if o.kind == "inst":
            f = cx.it.class_attr(cx.st, o.cls, "__next__")
            if f is not None:
                return cx.call(Bound(a, f), [])
    refuse(cx, next, (a,), "object is not an iterator")


def b_bytes(cx, args, kw):
    if not args:
        return C(b"")
    a = args[0]
    if len(args) > 1 or kw:
        return S.encode(a, codec_name(cx, args[1:], kw), cx, len(args) < 3 and "errors" not in kw)
    b = tobytes(cx, a)
    if b is not None:
        return b
    if S.isstr(a):
        cx.raise_("TypeError", "string argument without an encoding")
    if num.isint(a):
        if isinstance(a, C):
            return C(bytes(a.v))
        unsupported("bytes(n)")
    items = iterate(cx, a)
    ps = []
    for i in items:
        i = cx.force(i)
        if isinstance(i, C):
            try:
                ps.append(C(bytes([i.v])))
            except (ValueError, TypeError) as e:
                cx.raise_(type(e).__name__, str(e))
        elif i.op == "ord" and S.isbytes(i.args[0]):
            ps.append(i.args[0])
        elif i.op == "ord" and S.asciionly(i.args[0]):
            ps.append(T("enc", (i.args[0], "utf-8"), "bytes"))
        else:
            ps.append(T("byte", (i,), "bytes"))
    return S.cat(ps, True)


def b_bytearray(cx, args, kw):
    return cx.st.alloc("bytearray", None, [b_bytes(cx, args, kw)])


def b_str(cx, args, kw):
    if not args:
        return EMPTY
    if len(args) > 1 or "encoding" in kw:
        return S.decode(cx, tobytes(cx, args[0]), codec_name(cx, args[1:], kw))
    return str_(cx, args[0])


def b_type(cx, args, kw):
    if len(args) == 1:
        return typeof(cx, args[0])
    unsupported("type() with 3 arguments")


def b_callable(cx, args, kw):
    a = args[0]
    if isinstance(a, T):
        return mkbool(True) if a.ty == "callable" else T("iscallable", (a,), "bool")
    return mkbool(isinstance(a, (Fn, Bound, Cls, Bi, Wrap)))


def b_vars(cx, args, kw):
    return cx.it.getattr(cx, args[0], "__dict__")


def b_hex(cx, args, kw):
    a = args[0]
    lo, hi = num.interval(a, cx.st)
    if num.isint(a) and lo is not None and lo >= 0:
        return S.cat([C("0x"), T("fmt", (a, "x"), "str")])
    return T("hexs", (a,), "str")


def b_reduce(cx, args, kw):
    items, tail = iterate2(cx, args[1])
    items = list(items)
    if len(args) > 2:
        acc = args[2]
    elif items:
        acc = items.pop(0)
    elif tail is None:
        cx.raise_("TypeError", "reduce() of empty sequence with no initial value")
    else:
        unsupported("reduce over unknown-length sequence")
    for i in items:
        acc = cx.call(args[0], [acc, i])
    if tail is not None:
        from . import loops
        e = loops.elem_of(tail)
        if e is None:
            unsupported("reduce over unknown elements")
        ty = num.ty(acc) or getattr(acc, "ty", None) or (type(acc.v).__name__ if isinstance(acc, C) else "any")
        r = cx.force(cx.call(args[0], [T("foldacc", (ty,), ty), e]))
        return T("fold", (tail, acc, r), ty)
    return acc


def b_format(cx, args, kw):
    return format_(cx, args[0], args[1] if len(args) > 1 else EMPTY)


def b_print(cx, args, kw):
    return NONE


def b_partial(cx, args, kw):
    return Wrap("partial", args[0], Tup(args[1:]), Tup(Tup((C(k), v)) for k, v in kw.items()))


def b_getlogger(cx, args, kw):
    from .models import Logger
    return cx.st.alloc("ext", None, None, Logger())


def b_bytesio(cx, args, kw):
    from .models import BytesIOModel
    b = tobytes(cx, args[0]) if args else C(b"")
    return cx.st.alloc("ext", None, [b], BytesIOModel())


def b_suppress(cx, args, kw):
    return Wrap("suppress", *args)


def b_decompress(cx, args, kw):
    w = args[1] if len(args) > 1 else kw.get("wbits", C(15))
    b = tobytes(cx, args[0])
    if not cx.cond(T("inflateok", (b, w), "bool")):
        cx.raise_("zlib.error", "Error -3 while decompressing data")
    cx.st.event("inflate", (b, w), cx.it.where(cx))
    return T("inflate", (b, w), "bytes", None)


def b_chain(cx, args, kw):
    out = []
    for a in args:
        out.extend(iterate(cx, a))
    return cx.st.alloc("iter", None, out)


def b_count(cx, args, kw):
    return cx.st.alloc("iter", None, [], T("count", (args[0] if args else C(0),), "int"))


def b_islice(cx, args, kw):
    items, tail = iterate2(cx, args[0])
    if all(isinstance(a, C) for a in args[1:]) and tail is None:
        import itertools
        return cx.st.alloc("iter", None, list(itertools.islice(items, *[a.v for a in args[1:]])))
    unsupported("islice")


def b_from_bytes(cx, args, kw):
    return T("int_from_bytes", tuple(args), "int")


def b_hash(cx, args, kw):
    return T("hash", (args[0],), "int")


def b_objnew(cx, args, kw):
    return cx.st.alloc("inst", args[0], {})


def b_obj_setattr(cx, args, kw):
    cx.it.raw_setattr(cx, args[0], args[1], args[2])
    return NONE


def b_namedtuple(cx, args, kw):
    from . import synth
    name, names = cx.force(args[0]), cx.force(args[1])
    if not isinstance(name, C):
        unsupported("namedtuple with a computed name")
    if isinstance(names, C):
        fl = names.v.replace(",", " ").split()
    else:
        fl = [cx.force(x).v for x in iterate(cx, names)]
    ds = list(iterate(cx, kw["defaults"])) if "defaults" in kw else []
    ds = [None] * (len(fl) - len(ds)) + ds
    it = cx.it
    ref = cx.st.alloc("class", name.v, {})
    mod = getattr(cx, "mod", None)
    cls = _interp().Cls(name.v, ref.oid, (Bi("object"),), mod, None)
    sc = _interp().Scope(it, mod, ref.oid, None, None)
    synth.tuplelike(it, cx, cls, sc, list(zip(fl, ds)))
    return cls


def b_itertools(name):
    import itertools

    def f(cx, args, kw):
        seqs = [iterate(cx, a) for a in args]
        if name == "zip_longest":
            r = itertools.zip_longest(*seqs, fillvalue=kw.get("fillvalue", NONE))
        elif name == "product":
            if kw:
                unsupported("product keywords")
            r = itertools.product(*seqs)
        elif name in ("combinations", "permutations", "compress", "pairwise"):
            unsupported(f"itertools.{name}")
        return cx.st.alloc("iter", None, [Tup(x) for x in r], None)
    return f


def b_takewhile(cx, args, kw):
    out = []
    for x in iterate(cx, args[1]):
        if not cx.it.truth(cx, cx.call(args[0], [x])):
            break
        out.append(x)
    return cx.st.alloc("iter", None, out, None)


def b_dropwhile(cx, args, kw):
    xs = iterate(cx, args[1])
    for i, x in enumerate(xs):
        if not cx.it.truth(cx, cx.call(args[0], [x])):
            return cx.st.alloc("iter", None, xs[i:], None)
    return cx.st.alloc("iter", None, [], None)


def b_accumulate(cx, args, kw):
    xs = iterate(cx, args[0])
    f = args[1] if len(args) > 1 else kw.get("func")
    out = []
    if "initial" in kw:
        xs = [kw["initial"]] + xs
    for x in xs:
        out.append(x if not out else cx.call(f, [out[-1], x]) if f is not None and f is not NONE else binop(cx, "+", out[-1], x))
    return cx.st.alloc("iter", None, out, None)


def b_dcfield(cx, args, kw):
    return Wrap("field", kw.get("default"), kw.get("default_factory"), kw.get("init"))


def b_dataclass(cx, args, kw):
    if args:
        unsupported("dataclass called on a class")
    return Wrap("dataclass", *[(k, v) for k, v in sorted(kw.items())])


def b_obj_delattr(cx, args, kw):
    cx.it.raw_delattr(cx, args[0], args[1])
    return NONE


def b_object(cx, args, kw):
    return cx.st.alloc("inst", Bi("object"), {})


def b_deepcopy(cx, args, kw):
    memo = {}

    def cp(v):
        if isinstance(v, Ref):
            o = cx.st.get(v.oid)
            if o.kind in ("list", "dict", "set", "bytearray", "ulist"):
                if v in memo:
                    return memo[v]
                r = cx.st.alloc(o.kind, o.cls, o.data.copy(), o.extra)
                memo[v] = r
                w = cx.st.write(r.oid)
                if isinstance(w.data, list):
                    w.data = [cp(x) for x in w.data]
                else:
                    w.data = {k: cp(x) for k, x in w.data.items()}
                return r
            if o.kind == "inst":
                unsupported("deepcopy of instance")
        if isinstance(v, Tup):
            return Tup(cp(x) for x in v.items)
        return v
    return cp(args[0])


def b_copy(cx, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        o = cx.st.get(v.oid)
        return cx.st.alloc(o.kind, o.cls, o.data.copy() if o.data is not None else None, o.extra)
    return v


def b_lru(cx, args, kw):
    if args and isinstance(args[0], Fn):
        return Wrap("cached", args[0], cx.st.alloc("dict", None, {}))
    return Wrap("lru")


def b_fromkeys(cx, args, kw):
    return cx.newdict({hashkey(cx, cx.force(k)): args[1] if len(args) > 1 else NONE for k in iterate(cx, args[0])})


def b_id(cx, args, kw):
    return T("id", (args[0],), "int")


def b_issub(cx, args, kw):
    ks = args[1].items if isinstance(args[1], Tup) else (args[1],)
    return mkbool(any(cx.it.subclass(args[0], k) for k in ks))


def b_dir(cx, args, kw):
    a = args[0]
    if isinstance(a, Ref) and cx.st.get(a.oid).kind == "inst":
        names = set(k for k in cx.st.get(a.oid).data if isinstance(k, str))
        for c in cx.it.mro(cx.st.get(a.oid).cls):
            if isinstance(c, Cls):
                names |= set(cx.st.get(c.oid).data)
        return cx.newlist([C(n) for n in sorted(names)])
    unsupported("dir()")


BUILTINS = {
    "len": b_len, "range": b_range, "int": b_int, "float": lambda cx, a, k: tofloat_(cx, a[0] if a else C(0.0)),
    "ord": b_ord, "chr": b_chr, "abs": b_abs, "divmod": b_divmod, "pow": b_pow,
    "min": b_minmax("min"), "max": b_minmax("max"), "sum": b_sum, "isinstance": b_isinstance,
    "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr, "delattr": b_delattr,
    "list": b_list, "tuple": b_tuple, "set": b_set, "frozenset": b_frozenset, "dict": b_dict,
    "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "filter": b_filter,
    "reversed": b_reversed, "sorted": b_sorted, "any": b_any, "all": b_all, "iter": b_iter,
    "next": b_next, "bytes": b_bytes, "bytearray": b_bytearray, "str": b_str, "type": b_type,
    "callable": b_callable, "vars": b_vars, "hex": b_hex, "repr": lambda cx, a, k: repr_(cx, a[0]),
    "bool": lambda cx, a, k: cx.it.truthv(cx, a[0]) if a else FALSE,
    "round": lambda cx, a, k: round_(cx, a[0], a[1] if len(a) > 1 else k.get("ndigits")),
    "functools.reduce": b_reduce, "format": b_format, "print": b_print,
    "functools.partial": b_partial, "logging.getLogger": b_getlogger, "io.BytesIO": b_bytesio,
    "contextlib.suppress": b_suppress, "zlib.decompress": b_decompress,
    "itertools.chain": b_chain, "itertools.count": b_count, "itertools.islice": b_islice,
    "itertools.chain.from_iterable": lambda cx, a, k: b_chain(cx, iterate(cx, a[0]), k),
    "hash": b_hash, "object": b_object, "object.__new__": b_objnew,
    "itertools.zip_longest": b_itertools("zip_longest"), "itertools.product": b_itertools("product"),
    "itertools.takewhile": b_takewhile, "itertools.dropwhile": b_dropwhile, "itertools.accumulate": b_accumulate,
    "collections.namedtuple": b_namedtuple, "dataclasses.field": b_dcfield, "dataclasses.dataclass": b_dataclass,
    "object.__setattr__": b_obj_setattr, "object.__delattr__": b_obj_delattr,
    "copy.deepcopy": b_deepcopy, "copy.copy": b_copy, "functools.lru_cache": b_lru,
    "functools.cache": b_lru, "dict.fromkeys": b_fromkeys, "id": b_id, "issubclass": b_issub,
    "dir": b_dir, "types.MappingProxyType": lambda cx, a, k: a[0],
    "typing.cast": lambda cx, a, k: a[1], "typing.TypeVar": lambda cx, a, k: Bi("typing.Any"),
    "slice": lambda cx, a, k: Wrap("slice", *( [NONE, a[0], NONE] if len(a) == 1 else (list(a) + [NONE])[:3])),
    "functools.wraps": lambda cx, a, k: Wrap("identity"),
    "collections.OrderedDict": b_dict, "memoryview": b_bytes,
    "object.__init__": lambda cx, a, k: NONE,
}


def codec_name(cx, args, kw):
    v = args[0] if args else kw.get("encoding", C("utf-8"))
    if not isinstance(v, C):
        unsupported("symbolic codec")
    n = v.v.lower().replace("_", "-")
    return {"utf8": "utf-8", "latin1": "latin-1", "iso-8859-1": "latin-1", "us-ascii": "ascii"}.get(n, n)


# --------------------------------------------------------------------------
# wrapped callables
# --------------------------------------------------------------------------


def call_wrap(cx, f, args, kw):
    k = f.kind
    if k == "meth":
        return call_method(cx, f.args[0], f.args[1], args, kw)
    if k == "partial":
        fn, pa, pk = f.args
        d = {p.items[0].v: p.items[1] for p in pk.items}
        d.update(kw)
        return cx.call(fn, list(pa.items) + args, d)
    if k == "staticmethod":
        return cx.call(f.args[0], args, kw)
    if k == "identity":
        return args[0]
    if k == "objmeth":
        o, name = f.args
        if name == "__setattr__":
            cx.it.raw_setattr(cx, o, cx.force(args[0]), args[1])
            return NONE
        if name == "__delattr__":
            cx.it.raw_delattr(cx, o, cx.force(args[0]))
            return NONE
        if name == "__init__":
            if isinstance(o, Ref) and cx.st.get(o.oid).kind == "inst" and cx.it.is_exc_cls(cx.st.get(o.oid).cls):
                cx.st.write(o.oid).data["args"] = Tup(args)
            return NONE
        if name == "__getattribute__":
            return b_getattr(cx, [o] + args, {})
        if name == "__new__":
            return cx.st.alloc("inst", args[0] if args else o, {})
        if name in ("__repr__", "__str__"):
            return T("repr", (o,), "str")
        if name == "__init_subclass__":
            return NONE
        if name == "__eq__":
            return is_(cx, o, args[0])
        if name == "__hash__":
            return T("hash", (o,), "int")
        cx.raise_("AttributeError", name)
    if k == "unbound":
        return call_builtin(cx, f"object.{f.args[1]}", args, kw)
    if k == "objnew":
        return cx.st.alloc("inst", args[0] if args else f.args[0], {})
    if k == "cached":
        fn, d = f.args
        fargs = [cx.force(a) for a in args]
        key = Tup(list(fargs) + [Tup((C(x), cx.force(v))) for x, v in sorted(kw.items())])
        for a in fargs:
            if isinstance(a, Ref) and cx.st.get(a.oid).kind in ("list", "dict", "set", "bytearray"):
                cx.raise_("TypeError", "unhashable type")
        o = cx.st.get(d.oid)
        if key in o.data:
            return o.data[key]
        r = cx.call(fn, fargs, kw)
        cx.st.write(d.oid).data[key] = r
        return r
    if k == "lru":
        return Wrap("cached", args[0], cx.st.alloc("dict", None, {}))
    if k == "regex":
        return f
    if k == "itemgetter":
        r = [getitem(cx, args[0], i) for i in f.args]
        return r[0] if len(r) == 1 else Tup(r)
    if k == "attrgetter":
        return cx.it.getattr(cx, args[0], f.args[0].v)
    if k == "suppress":
        return f
    if k in ("propsetter",):
        return Wrap("property", f.args[0].args[0], args[0])
    if k == "property":
        unsupported("calling a property object")
    unsupported(f"call of {k}")


# --------------------------------------------------------------------------
# methods
# --------------------------------------------------------------------------


def val_attr(cx, o, name):
    if isinstance(o, C):
        if hasattr(o.v, name):
            a = getattr(o.v, name)
            if callable(a):
                return Wrap("meth", o, name)
            try:
                return C(a)
            except TypeError:
                unsupported(f"attribute {name}")
        return None
    if isinstance(o, Tup):
        return Wrap("meth", o, name) if hasattr(tuple, name) else None
    if isinstance(o, Wrap) and o.kind in ("regex", "cmatch"):
        return Wrap("meth", o, name)
    if isinstance(o, T):
        if o.ty == "str":
            return Wrap("meth", o, name) if hasattr(str, name) else None
        if o.ty == "bytes":
            return Wrap("meth", o, name) if hasattr(bytes, name) else None
        if o.ty in ("datetime", "date", "time", "timedelta"):
            return dtm.attr(cx, o, name)
        if o.ty in ("int", "float", "bool"):
            pt = {"int": int, "float": float, "bool": bool}[o.ty]
            if not hasattr(pt, name):
                return None
            if name in ("real", "numerator"):
                return o
            return Wrap("meth", o, name)
        if o.ty in ("match",):
            return Wrap("meth", o, name)
        if o.ty == "any":
            if not cx.cond(T("hasattr", (o, name), "bool")):
                return None
            return T("attr", (o, name), "any")
        if o.ty == "callable":
            return T("attr", (o, name), "any")
    return None


KINDT = {"list": list, "dict": dict, "set": set, "bytearray": bytearray, "ulist": list, "iter": iter([]).__class__, "udict": dict}


def obj_attr(cx, ref, o, name):
    t = KINDT.get(o.kind)
    if t is not None and hasattr(t, name):
        return Wrap("meth", ref, name)
    return None


def call_method(cx, o, name, args, kw):
    o = cx.force(o)
    args = [cx.force(a) for a in args]
    kw = {k: cx.force(v) for k, v in kw.items()}
    if isinstance(o, C):
        if all(isinstance(a, C) for a in args) and all(isinstance(a, C) for a in kw.values()) and \
                not isinstance(o.v, (_dt.datetime,)) or isinstance(o.v, _dt.datetime) and name in ("replace", "timestamp", "date", "time", "isoformat", "strftime", "total_seconds", "weekday", "toordinal", "utctimetuple", "timetz") and all(isinstance(a, C) for a in args) and all(isinstance(a, C) for a in kw.values()):
            if name == "format" and isinstance(o.v, str):
                pass
            try:
                r = getattr(o.v, name)(*[a.v for a in args], **{k: a.v for k, a in kw.items()})
            except Exception as e:  # constant folding: the method itself raises
                n = type(e).__name__
                cx.raise_(n if n in _interp().EXC_NAMES else "Exception", str(e))
            return cx.lift(r) if not hasattr(r, "__next__") else cx.st.alloc("iter", None, [cx.lift(x) for x in r])
    if S.isS(o):
        return str_method(cx, o, name, args, kw)
    if isinstance(o, Tup):
        if name == "index":
            for i, x in enumerate(o.items):
                r = equal(cx, x, args[0])
                if r is TRUE or r is not FALSE and cx.cond(r):
                    return C(i)
            cx.raise_("ValueError", "not in tuple")
        if name == "count":
            n = 0
            for x in o.items:
                r = equal(cx, x, args[0])
                if r is TRUE or r is not FALSE and cx.cond(r):
                    n += 1
            return C(n)
        return call_method(cx, cx.newlist(o.items), name, args, kw)
    if isinstance(o, Wrap):
        if o.kind == "instdict":
            return instdict_method(cx, o, name, args, kw)
        if o.kind in ("regex", "cmatch"):
            return dtm.re_method(cx, o, name, args, kw)
        if o.kind == "cached":
            if name == "cache_clear":
                cx.st.write(o.args[1].oid).data = {}
            return NONE
        if o.kind == "dictview":
            if name == "isdisjoint":
                unsupported("isdisjoint")
    if isinstance(o, Ref):
        ob = cx.st.get(o.oid)
        if ob.kind == "ext":
            return ob.extra.call(cx, o, name, args, kw)
        h = OBJM.get((ob.kind, name))
        if h is not None:
            if cx.st.isbase(o.oid) and name in MUTATORS:
                cx.st.event("gwrite", (o.oid, name), cx.it.where(cx))
            return h(cx, o, ob, args, kw)
        unsupported(f"method {ob.kind}.{name}")
    if isinstance(o, C) and isinstance(o.v, (_dt.datetime, _dt.timedelta, _dt.date, _dt.time)) or dtm.isdt(o):
        return dtm.method(cx, o, name, args, kw)
    if num.isnum(o):
        if name == "is_integer":
            if num.isint(o) or o.op == "tofloat":
                return TRUE
            return T("isintegral", (o,), "bool")
        if name == "bit_length":
            return T("bitlen", (o,), "int")
        if name == "to_bytes":
            return T("to_bytes", (o,) + tuple(args), "bytes")
        if name == "__round__":
            return round_(cx, o, args[0] if args else None)
        unsupported(f"number method {name}")
    if isinstance(o, T) and o.ty == "match":
        return dtm.match_method(cx, o, name, args, kw)
    if isinstance(o, C):
        unsupported(f"method {name} of constant {o.v!r}")
    unsupported(f"method {name}")


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse",
            "setdefault", "update", "popitem", "add", "discard"}


def instdict_method(cx, w, name, args, kw):
    ref = w.args[0]
    if name in ("items", "keys", "values"):
        return Wrap("dictview", w, name)
    if name == "get":
        r = contains(cx, w, args[0])
        if r is FALSE:
            return args[1] if len(args) > 1 else NONE
        return getitem(cx, w, args[0])
    if name == "update":
        its = dict_items(cx, args[0]) if args else []
        o = cx.st.write(ref.oid)
        for k, v in its:
            o.data[k.v if isinstance(k, C) else k] = v
        for k, v in kw.items():
            o.data[k] = v
        return NONE
    if name == "copy":
        return cx.newdict(dict(dict_items(cx, w)))
    if name in ("pop", "__delitem__"):
        k = args[0].v
        o = cx.st.get(ref.oid)
        if k in o.data:
            v = o.data[k]
            del cx.st.write(ref.oid).data[k]
            return v
        if len(args) > 1:
            return args[1]
        cx.raise_("KeyError", k)
    if name == "__setitem__":
        setitem(cx, w, args[0], args[1])
        return NONE
    if name == "clear":
        cx.st.write(ref.oid).data = {}
        return NONE
    if name == "setdefault":
        r = contains(cx, w, args[0])
        if r is FALSE:
            setitem(cx, w, args[0], args[1])
        return getitem(cx, w, args[0])
    unsupported(f"__dict__.{name}")


def str_method(cx, v, name, args, kw):
    byt = S.isbytes(v)

    def need_same(a):
        if isinstance(a, Ref):
            b = tobytes(cx, a)
            if b is not None:
                a = b
        if not S.isS(a) or S.isbytes(a) != byt:
            cx.raise_("TypeError", f"{name}: wrong argument type")
        return a
    if name in ("upper", "lower", "casefold"):
        return S.upper(v, name == "upper")
    if name in ("strip", "lstrip", "rstrip"):
        ch = args[0] if args else NONE
        if ch is not NONE:
            ch = need_same(ch)
            if not isinstance(ch, C):
                return T(name, (v, ch), v.ty)
        return S.strip(cx, v, None if ch is NONE else S.cs(ch), name != "rstrip", name != "lstrip")
    if name in ("split", "rsplit"):
        sep = args[0] if args else kw.get("sep", NONE)
        mx = args[1] if len(args) > 1 else kw.get("maxsplit", C(-1))
        if not isinstance(mx, C):
            unsupported("symbolic maxsplit")
        if sep is not NONE:
            sep = need_same(sep)
        r = S.split(cx, v, sep, mx.v, name == "rsplit")
        return splitlist(cx, r)
    if name in ("partition", "rpartition"):
        sep = need_same(args[0])
        r = S.split(cx, v, sep, 1, name == "rpartition")
        if any(isinstance(x, S.Unknown) for x in r):
            unsupported("partition")
        e = S.mk("", byt)
        if len(r) == 2:
            return Tup((r[0], sep, r[1]))
        return Tup((v, e, e)) if name == "partition" else Tup((e, e, v))
    if name in ("find", "index", "rfind", "rindex"):
        sub = args[0]
        if byt and num.isint(sub):
            sub = C(bytes([sub.v]))
        sub = need_same(sub)
        if len(args) > 1:
            st_ = args[1]
            if isinstance(st_, C) and len(args) == 2:
                t = S.slice_(cx, v, st_, None)
                r = str_method(cx, t, name, [sub], {})
                if isinstance(r, C):
                    return C(r.v + st_.v) if r.v >= 0 else r
            unsupported("find with start")
        if name in ("find", "index"):
            r = S.find(cx, v, sub)
        else:
            r = None
            if isinstance(sub, C) and len(sub.v) == 1 and not S.may_contain(v, S.cs(sub)):
                r = C(-1)
        if r is None:
            c = S.contains(cx, v, sub)
            if c is FALSE or c is not TRUE and cx.it.decide(cx.st, c) is False:
                r = C(-1)
            else:
                r = T(name.replace("index", "find"), (v, sub), "int")
                if name.endswith("find") and not isinstance(c, C) and cx.it.decide(cx.st, c) is True:
                    cx.it._setrng(cx.st, r, 0, None)
        if name in ("index", "rindex"):
            if isinstance(r, C):
                if r.v < 0:
                    cx.raise_("ValueError", "substring not found")
            else:
                c = S.contains(cx, v, sub)
                if c is not TRUE and not cx.cond(c):
                    cx.raise_("ValueError", "substring not found")
                cx.it._setrng(cx.st, r, 0, None)
        return r
    if name in ("startswith", "endswith"):
        a = args[0]
        if isinstance(a, Tup):
            for x in a.items:
                r = S.startswith(cx, v, need_same(x), name == "endswith")
                if r is TRUE or r is not FALSE and cx.cond(r):
                    return TRUE
            return FALSE
        return S.startswith(cx, v, need_same(a), name == "endswith")
    if name == "replace":
        a, b = need_same(args[0]), need_same(args[1])
        if isinstance(a, C) and isinstance(b, C):
            cnt = args[2].v if len(args) > 2 else -1
            return S.replace(cx, v, a, b, cnt)
        return T("replace*", (v, a, b), v.ty)
    if name == "join":
        items, tail = iterate2(cx, args[0])
        if tail is not None and items and isinstance(v, C) and not byt and tail.op == "split" and tail.args[2] == -1 and tail.args[1]:
            # j.join(w.split(s)) with the first piece split off is w.replace(s, j)
            w, sep = tail.args[0], tail.args[1]
            if len(items) == 1 and isinstance(items[0], T) and items[0].op == "before" and isinstance(w, T) and w.op == "after" \
                    and w.args == items[0].args and w.args[1] == sep:
                return S.replace(cx, w.args[0], C(sep), v)
        ps = []
        for i, x in enumerate(items):
            x = cx.force(x)
            if isinstance(x, T) and x.ty == "any":
                if not cx.cond(T("isinstance", (x, "str"), "bool")):
                    cx.raise_("TypeError", "sequence item: expected str instance")
                x = T("asstr", (x,), "str")
            b = tobytes(cx, x) if byt else x
            if b is None or not S.isS(b) or S.isbytes(b) != byt:
                cx.raise_("TypeError", "sequence item: expected str instance")
            if i:
                ps.append(v)
            ps.append(b)
        if tail is not None:
            if items:
                ps.append(v)
            if tail.op == "split" and isinstance(v, C) and tail.args[1] == S.cs(v) and tail.args[2] == -1:
                ps.append(tail.args[0])
            elif tail.op == "chars" and isinstance(v, C) and not v.v:
                ps.append(tail.args[0])
            else:
                ps.append(T("joined", (v, tail), "bytes" if byt else "str"))
        return S.cat(ps, byt)
    if name == "encode":
        err = args[1] if len(args) > 1 else kw.get("errors", C("strict"))
        cd = codec_name(cx, args, kw)
        if cd != "utf-8" and err is not C("strict") and not all(isinstance(p, C) or S.asciionly(p) for p in S.parts(v)):
            unsupported("encode with errors=")
        return S.encode(v, cd, cx, err is C("strict"))
    if name == "decode":
        err = args[1] if len(args) > 1 else kw.get("errors", C("strict"))
        cd = codec_name(cx, args, kw)
        if isinstance(err, C) and err.v != "strict":
            if S.asciionly(v):
                return S.decode(cx, v, cd)
            ps = []
            for p in S.parts(v):
                if isinstance(p, C):
                    ps.append(C(bytes(p.v).decode(cd, err.v)))
                elif p.op == "enc" and p.args[1] == cd:
                    ps.append(p.args[0])
                else:
                    ps.append(T("dec", (p, cd + "/" + err.v), "str"))
            return S.cat(ps)
        return S.decode(cx, v, cd)
    if name in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "isupper", "islower", "isspace", "isascii", "isidentifier", "isprintable"):
        return isclass(cx, v, name)
    if name == "zfill":
        if isinstance(args[0], C):
            return zfill(cx, v, args[0].v)
        return T("zfill*", (v, args[0]), "str")
    if name == "rjust" and isinstance(args[0], C) and len(args) > 1 and args[1] is C("0"):
        return zpad(cx, v, args[0].v)
    if name == "translate" and isinstance(args[0], Ref):
        out = translated(cx, v, args[0])
        if out is not None:
            return out
    if name in ("ljust", "rjust", "center", "title", "capitalize", "swapcase", "expandtabs", "translate"):
        if name in ("ljust", "rjust") and isinstance(args[0], C) and S.minlen(v) >= args[0].v:
            return v
        return T(name, (v,) + tuple(args), v.ty if isinstance(v, T) else "str")
    if name == "format":
        if isinstance(v, C):
            return str_format(cx, v.v, args, kw)
        unsupported("format on symbolic template")
    if name in ("removeprefix", "removesuffix"):
        a = need_same(args[0])
        r = S.startswith(cx, v, a, name == "removesuffix")
        if r is TRUE or r is not FALSE and cx.cond(r):
            if isinstance(a, C):
                n = len(a.v)
                if n == 0:
                    return v
                return S.slice_(cx, v, C(n), None) if name == "removeprefix" else S.slice_(cx, v, C(0), C(-n))
            unsupported(name)
        return v
    if name == "count":
        a = args[0]
        if isinstance(a, C) and S.isS(a) and len(a.v) == 1:
            n = 0
            und = {}
            for p in S.parts(v):
                if isinstance(p, C):
                    n += S.cs(p).count(S.cs(a))
                elif S.may_contain(p, S.cs(a)):
                    if S.is1(p):
                        if cx.cond(S.eq(cx, p, a)):
                            n += 1
                    else:
                        t = T("count", (p, S.cs(a)), "int")
                        und[t] = und.get(t, 0) + 1
            return num.mklin(n, und)
        return T("count", (v, a), "int")
    if name == "splitlines":
        return splitlist(cx, [S.Unknown(T("split", (v, "\n", -1), v.ty))])
    if name == "hex" and byt:
        ps = []
        ch = S.tochars(v)
        if ch is not None:
            for c in ch:
                ps.append(T("fmt", (byteval(c), "02x"), "str") if not isinstance(c, C) else C(c.v.hex()))
            return S.cat(ps)
        return T("byteshex", (v,), "str")
    if name in ("__len__",):
        return strlen(cx, v)
    if name == "__contains__":
        return S.contains(cx, v, args[0])
    if name == "__getitem__":
        return getitem(cx, v, args[0])
    if name in ("__add__",):
        return binop(cx, "+", v, args[0])
    if name in ("__eq__",):
        return equal(cx, v, args[0])
    unsupported(f"string method {name}")


def isclass(cx, v, name):
    if isinstance(v, C):
        return mkbool(getattr(v.v, name)())
    DIG = set("0123456789")
    ps = S.parts(v)
    if name in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum"):
        for p in ps:
            if isinstance(p, C) and not getattr(p.v, name)():
                return FALSE
        rest = [p for p in ps if not isinstance(p, C)]
        und = []
        for p in rest:
            if p.op == "atom" and p.props.incl is not None and all(getattr(c, name)() for c in p.props.incl) and S.minlen(p) >= 1:
                continue
            if p.op == "atom" and p.props.incl is not None and not any(getattr(c, name)() for c in p.props.incl) and S.minlen(p) >= 1:
                return FALSE
            if p.op in ("fmt", "str") and num.isint(p.args[0]) and name != "isalpha" and \
                    (p.op == "str" or _re.fullmatch(r"0?\d*d", p.args[1])) and (num.interval(p.args[0], cx.st)[0] or 0) >= 0 and num.interval(p.args[0], cx.st)[0] is not None:
                continue
            und.append(p)
        if not und:
            return TRUE
        if len(ps) > 1 and len(und) == len(ps):
            pass
    return T(name, (v,), "bool")


def splitlist(cx, r):
    known, tail = [], None
    for i, x in enumerate(r):
        if isinstance(x, S.Unknown):
            if i != len(r) - 1:
                unsupported("split with unknown middle")
            tail = x.term
        else:
            known.append(x)
    if tail is None:
        return cx.newlist(known)
    # a split always yields at least one more piece
    cx.it._setrng(cx.st, T("len", (tail,), "int"), 1, (tail.args[2] + 1) if isinstance(tail.args[2], int) and tail.args[2] >= 0 else None)
    return cx.st.alloc("ulist", None, known, tail)


# list methods -------------------------------------------------------------


def lm(kind, name):
    def deco(f):
        OBJM[(kind, name)] = f
        return f
    return deco


OBJM = {}


@lm("list", "append")
def _(cx, r, o, a, k):
    cx.st.write(r.oid).data.append(a[0])
    return NONE


@lm("ulist", "append")
def _(cx, r, o, a, k):
    w = cx.st.write(r.oid)
    w.extra = T("appended", (o.extra, a[0]), o.extra.ty)
    return NONE


@lm("list", "extend")
def _(cx, r, o, a, k):
    items, tail = iterate2(cx, a[0])
    w = cx.st.write(r.oid)
    w.data.extend(items)
    if tail is not None:
        w.kind, w.extra = "ulist", tail
    return NONE


@lm("list", "insert")
def _(cx, r, o, a, k):
    if not isinstance(a[0], C):
        unsupported("insert at symbolic index")
    cx.st.write(r.oid).data.insert(a[0].v, a[1])
    return NONE


@lm("list", "pop")
def _(cx, r, o, a, k):
    if not o.data:
        cx.raise_("IndexError", "pop from empty list")
    i = a[0] if a else C(-1)
    if not isinstance(i, C):
        unsupported("pop at symbolic index")
    n = norm_index(cx, i, len(o.data))
    return cx.st.write(r.oid).data.pop(n)


@lm("ulist", "pop")
def _(cx, r, o, a, k):
    if a and a[0] is C(0) and o.data:
        return cx.st.write(r.oid).data.pop(0)
    if a and a[0] is C(0):
        ln = T("len", (o.extra,), "int")
        if cx.cond(num.ltc(ln, C(1))):
            cx.raise_("IndexError", "pop from empty list")
        e = tail_elem(o.extra, C(0))
        cx.st.write(r.oid).extra = T("taildrop", (o.extra, 1), o.extra.ty)
        return e
    unsupported("pop from unknown list")


@lm("list", "remove")
def _(cx, r, o, a, k):
    for i, x in enumerate(o.data):
        e = equal(cx, x, a[0])
        if e is TRUE or e is not FALSE and cx.cond(e):
            del cx.st.write(r.oid).data[i]
            return NONE
    cx.raise_("ValueError", "list.remove(x): x not in list")


@lm("list", "clear")
def _(cx, r, o, a, k):
    cx.st.write(r.oid).data = []
    return NONE


@lm("list", "copy")
def _(cx, r, o, a, k):
    return cx.newlist(o.data)


@lm("ulist", "copy")
def _(cx, r, o, a, k):
    return cx.st.alloc("ulist", None, list(o.data), o.extra)


@lm("list", "index")
def _(cx, r, o, a, k):
    for i, x in enumerate(o.data):
        e = equal(cx, x, a[0])
        if e is TRUE or e is not FALSE and cx.cond(e):
            return C(i)
    cx.raise_("ValueError", "not in list")


@lm("list", "count")
def _(cx, r, o, a, k):
    n = 0
    for x in o.data:
        e = equal(cx, x, a[0])
        if e is TRUE or e is not FALSE and cx.cond(e):
            n += 1
    return C(n)


@lm("list", "reverse")
def _(cx, r, o, a, k):
    cx.st.write(r.oid).data.reverse()
    return NONE


@lm("list", "sort")
def _(cx, r, o, a, k):
    s = b_sorted(cx, [r], k)
    cx.st.write(r.oid).data = list(cx.st.get(s.oid).data)
    return NONE


@lm("list", "__len__")
def _(cx, r, o, a, k):
    return C(len(o.data))


@lm("list", "__setitem__")
@lm("dict", "__setitem__")
def _(cx, r, o, a, k):
    setitem(cx, r, a[0], a[1])
    return NONE


@lm("list", "__getitem__")
@lm("dict", "__getitem__")
def _(cx, r, o, a, k):
    return getitem(cx, r, a[0])


@lm("iter", "__next__")
def _(cx, r, o, a, k):
    return b_next(cx, [r], {})


# dict methods -------------------------------------------------------------


@lm("dict", "get")
def _(cx, r, o, a, k):
    return dict_get(cx, r, o, a[0], a[1] if len(a) > 1 else k.get("default", NONE))


for _n in ("items", "keys", "values"):
    def _mk(n):
        def h(cx, r, o, a, k):
            return Wrap("dictview", r, n)
        return h
    OBJM[("dict", _n)] = _mk(_n)


@lm("dict", "pop")
def _(cx, r, o, a, k):
    kk = hashkey(cx, a[0])
    if kk in o.data:
        v = o.data[kk]
        del cx.st.write(r.oid).data[kk]
        return v
    h = dict_has(cx, r, o, kk)
    if h is not FALSE:
        unsupported("pop of symbolic key")
    if len(a) > 1:
        return a[1]
    cx.raise_("KeyError", repr(kk))


@lm("dict", "setdefault")
def _(cx, r, o, a, k):
    kk = hashkey(cx, a[0])
    if kk in o.data:
        return o.data[kk]
    v = a[1] if len(a) > 1 else NONE
    cx.st.write(r.oid).data[kk] = v
    return v


@lm("dict", "update")
def _(cx, r, o, a, k):
    if a:
        dict_update(cx, r, a[0])
    w = cx.st.write(r.oid)
    for n, v in k.items():
        w.data[C(n)] = v
    return NONE


@lm("dict", "copy")
def _(cx, r, o, a, k):
    return cx.newdict(o.data)


@lm("dict", "clear")
def _(cx, r, o, a, k):
    cx.st.write(r.oid).data = {}
    return NONE


@lm("dict", "popitem")
def _(cx, r, o, a, k):
    if not o.data:
        cx.raise_("KeyError", "popitem")
    w = cx.st.write(r.oid)
    kk = list(w.data)[-1]
    return Tup((kk, w.data.pop(kk)))


@lm("set", "add")
def _(cx, r, o, a, k):
    cx.st.write(r.oid).data[hashkey(cx, a[0])] = NONE
    return NONE


@lm("set", "update")
def _(cx, r, o, a, k):
    for x in a:
        for i in iterate(cx, x):
            cx.st.write(r.oid).data[hashkey(cx, cx.force(i))] = NONE
    return NONE


@lm("set", "discard")
@lm("set", "remove")
def _(cx, r, o, a, k):
    cx.st.write(r.oid).data.pop(hashkey(cx, a[0]), None)
    return NONE


@lm("set", "union")
def _(cx, r, o, a, k):
    out = list(o.data)
    for x in a:
        out += iterate(cx, x)
    return cx.newset(out)


@lm("set", "issubset")
def _(cx, r, o, a, k):
    other = set(iterate(cx, a[0]))
    return mkbool(all(x in other for x in o.data))


@lm("set", "intersection")
def _(cx, r, o, a, k):
    other = set(iterate(cx, a[0]))
    return cx.newset([x for x in o.data if x in other])


@lm("set", "difference")
def _(cx, r, o, a, k):
    other = set(iterate(cx, a[0]))
    return cx.newset([x for x in o.data if x not in other])


@lm("set", "copy")
def _(cx, r, o, a, k):
    return cx.newset(o.data)


# bytearray methods ----------------------------------------------------------


@lm("bytearray", "extend")
def _(cx, r, o, a, k):
    b = tobytes(cx, a[0])
    if b is None:
        b = b_bytes(cx, [a[0]], {})
    w = cx.st.write(r.oid)
    w.data[0] = S.cat([cx.force(w.data[0]), b], True)
    return NONE


@lm("bytearray", "append")
def _(cx, r, o, a, k):
    w = cx.st.write(r.oid)
    w.data[0] = S.cat([cx.force(w.data[0]), b_bytes(cx, [Tup((a[0],))], {})], True)
    return NONE


@lm("bytearray", "clear")
def _(cx, r, o, a, k):
    cx.st.write(r.oid).data[0] = C(b"")
    return NONE


@lm("bytearray", "copy")
def _(cx, r, o, a, k):
    return cx.st.alloc("bytearray", None, [cx.force(o.data[0])])


@lm("bytearray", "pop")
def _(cx, r, o, a, k):
    ch = S.tochars(cx.force(o.data[0]))
    if ch is None:
        unsupported("pop from symbolic bytearray")
    if not ch:
        cx.raise_("IndexError", "pop from empty bytearray")
    i = a[0].v if a else -1
    c = ch.pop(i)
    cx.st.write(r.oid).data[0] = S.cat(ch, True)
    return byteval(c)


for _n in ("find", "index", "startswith", "endswith", "split", "partition", "decode", "strip", "lstrip", "rstrip",
           "rfind", "count", "hex", "upper", "lower", "join", "replace", "rpartition", "rsplit", "splitlines"):
    def _mk2(n):
        def h(cx, r, o, a, k):
            return call_method(cx, cx.force(o.data[0]), n, a, k)
        return h
    OBJM[("bytearray", _n)] = _mk2(_n)
