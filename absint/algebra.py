"""Normal form of numeric terms over the real numbers.

A term becomes a polynomial over atoms: unknown numbers, sines and cosines of
single angles (sums of angles are expanded), square roots, reciprocals, floors,
and rounding errors (bounded noise).  Two terms are equal over the reals when
their difference vanishes, and close when it consists of noise within a bound."""

from __future__ import annotations

import math
from fractions import Fraction

from . import num, strings as S
from .values import V, C, T, Tup, Phi

LIMIT = 6000


class NA(Exception):
    pass


_IDS = {}
_ATOM = []


def aid(key):
    i = _IDS.get(key)
    if i is None:
        i = _IDS[key] = len(_ATOM)
        _ATOM.append(key)
    return i


def const(c):
    if isinstance(c, bool) or not isinstance(c, (int, float)) or c != c or c in (math.inf, -math.inf):
        raise NA
    c = Fraction(c)
    return {(): c} if c else {}


def var(key):
    return {((aid(key), 1),): Fraction(1)}


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        x = r.get(m, 0) + k * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def scale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def mul(p, q):
    r = {}
    if len(p) * len(q) > LIMIT * 4:
        raise NA
    for m, c in p.items():
        for n, d in q.items():
            for mm, cc in mono(m, n).items():
                x = r.get(mm, 0) + c * d * cc
                if x:
                    r[mm] = x
                else:
                    r.pop(mm, None)
    if len(r) > LIMIT:
        raise NA
    return r


def mono(m, n):
    """product of two monomials, reduced"""
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    todo = None
    for a, e in d.items():
        k = _ATOM[a]
        if e >= 2 and k[0] in ("sin", "sqrt"):
            todo = a
            break
        if e >= 1 and k[0] == "inv" and False:
            todo = a
    if todo is None:
        return {tuple(sorted((a, e) for a, e in d.items() if e)): Fraction(1)}
    k = _ATOM[todo]
    d[todo] -= 2
    rest = {tuple(sorted((a, e) for a, e in d.items() if e)): Fraction(1)}
    if k[0] == "sqrt":
        return mul(rest, POLY[k])
    cos = aid(("cos",) + k[1:])
    return mul(rest, {(): Fraction(1), ((cos, 2),): Fraction(-1)})


POLY = {}


def key(p):
    """canonical hashable form, coefficients to ten digits"""
    if not p:
        return ()
    big = max(abs(c) for c in p.values())
    return tuple((m, f"{float(c):.9e}") for m, c in sorted(p.items()) if abs(c) > big * Fraction(1, 10 ** 13))


def lead(p):
    return p[min(p)]


def opaque(kind, p, *more):
    k = (kind, key(p)) + more
    POLY.setdefault(k, p)
    return var(k)


def sqrt(p):
    if not p:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(e % 2 == 0 for _, e in m) and not m:
            return const(math.sqrt(c))
    c = abs(lead(p))
    k = opaque("sqrt", scale(p, 1 / c))
    return scale(k, Fraction(math.sqrt(c)))


def inv(p):
    if not p:
        raise NA
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    c = lead(p)
    return scale(opaque("inv", scale(p, 1 / c)), 1 / c)


def trig(p):
    """(sin, cos) of an angle polynomial"""
    c0 = p.get((), 0)
    s, c = const(math.sin(c0)), const(math.cos(c0))
    if len(p) > 5:
        raise NA
    for m, k in sorted(p.items()):
        if m == ():
            continue
        kk = ("%.9e" % abs(float(k)), m)
        s1, c1 = var(("sin",) + kk), var(("cos",) + kk)
        if k < 0:
            s1 = scale(s1, -1)
        s, c = add(mul(s, c1), mul(c, s1)), add(mul(c, c1), mul(s, s1), -1)
    return s, c


def unclip(t):
    """argument of acos / asin without clipping to [-1, 1]"""
    while isinstance(t, T) and t.op in ("min", "max"):
        rest = [a for a in t.args if not (isinstance(a, C) and abs(a.v) == 1)]
        if len(rest) != 1:
            break
        t = rest[0]
    return t


def norm(t, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = memo[t] = _norm(t, memo)
    return r


def _norm(t, memo):
    if isinstance(t, C):
        return const(t.v)
    if not isinstance(t, T):
        raise NA
    o, a = t.op, t.args
    N = lambda x: norm(x, memo)  # noqa: E731
    if o == "lin":
        r = const(a[0])
        for x, c in a[1]:
            r = add(r, scale(N(x), c))
        return r
    if o in ("fadd", "iadd"):
        return add(N(a[0]), N(a[1]))
    if o == "fsub":
        return add(N(a[0]), N(a[1]), -1)
    if o == "neg":
        return scale(N(a[0]), -1)
    if o in ("fmul", "imul"):
        return mul(N(a[0]), N(a[1]))
    if o == "fdiv":
        return mul(N(a[0]), inv(N(a[1])))
    if o in ("tofloat",):
        return N(a[0])
    if o == "pow":
        n = a[1]
        if isinstance(n, C) and isinstance(n.v, int) and 0 <= n.v <= 6:
            r = const(1)
            for _ in range(n.v):
                r = mul(r, N(a[0]))
            return r
        if isinstance(n, C) and n.v == 0.5:
            return sqrt(N(a[0]))
        if isinstance(n, C) and n.v == -1:
            return inv(N(a[0]))
    if o == "abs":
        lo, hi = num.interval(a[0])
        p = N(a[0])
        if lo is not None and lo >= 0:
            return p
        if hi is not None and hi <= 0:
            return scale(p, -1)
        if not p:
            return p
        c = lead(p)
        return scale(opaque("abs", scale(p, 1 / c)), abs(c))
    if o == "math":
        f = a[0]
        if f in ("sin", "cos", "tan"):
            try:
                s, c = trig(N(a[1]))
            except NA:
                return opaque(f, N(a[1]))
            return s if f == "sin" else c if f == "cos" else mul(s, inv(c))
        if f == "radians":
            return scale(N(a[1]), Fraction(math.pi / 180))
        if f == "degrees":
            return scale(N(a[1]), Fraction(180 / math.pi))
        if f == "sqrt":
            return sqrt(N(a[1]))
        if f == "hypot" and len(a) == 3:
            x, y = N(a[1]), N(a[2])
            return sqrt(add(mul(x, x), mul(y, y)))
        if f in ("acos", "asin", "atan"):
            p = N(unclip(a[1]))
            if set(p) <= {()}:
                x = float(p.get((), 0))
                if f == "atan" or abs(x) <= 1:
                    return const(getattr(math, f)(x))
            return opaque(f, p)
        if f == "atan2":
            y, x = N(a[1]), N(a[2])
            c = abs(lead(y)) if y else abs(lead(x)) if x else 1
            return opaque("atan2", scale(y, 1 / c), key(scale(x, 1 / c)))
        if f == "pow" and isinstance(a[2], C):
            return norm(T("pow", (a[1], a[2]), "float"), memo)
        if f == "fabs":
            return norm(T("abs", (a[1],), "float"), memo)
    if o in ("fmod", "mod", "floordiv", "ffloordiv") and isinstance(a[1], C) and a[1].v:
        n = Fraction(a[1].v)
        p = full = N(a[0])
        rest = [(m, c) for m, c in p.items() if m]
        if n > 0 and n.denominator == 1 and len(rest) == 1 and rest[0][1] == 1 and len(rest[0][0]) == 1 and \
                rest[0][0][0][1] == 1 and p.get((), Fraction(0)).denominator == 1:
            k = _ATOM[rest[0][0][0][0]]
            if isinstance(k, tuple) and k[0] == "floor":  # floor((floor(y) + c) / n) = floor((y + c) / n)
                p = add(POLY[k], {(): p[()]} if () in p else {})
        c0 = p.get((), Fraction(0))
        k = c0 // n
        q = opaque("floor", scale(add(p, {(): k * n} if k else {}, -1), 1 / n))
        q = add(q, {(): k} if k else {})
        return q if "floordiv" in o else add(full, scale(q, n), -1)
    if o == "round" and (a[1] is None or isinstance(a[1], int)):
        p = N(a[0])
        n = a[1] or 0
        if n == 0 and integral(p):
            return p
        return add(p, opaque("noise", p, n))
    if o == "float":
        r = decimal(a[0], memo)
        if r is not None:
            return r
    if o == "int" and getattr(a[0], "ty", "") == "str":
        r = decimal(a[0], memo)
        if r is not None:
            return r
    return var(("base", t))


def integral(p):
    return all(c.denominator == 1 and all(_ATOM[a][0] == "floor" or _ATOM[a][0] == "base" and _ATOM[a][1].ty == "int"
                                          for a, e in m) and all(e > 0 for _, e in m) for m, c in p.items())


def decimal(v, memo):
    """the number a text of known layout stands for"""
    if isinstance(v, C):
        try:
            return const(float(v.v))
        except ValueError:
            return None
    ps = []
    for x in S.parts(v):
        if isinstance(x, C):
            ps += [C(c) for c in S.cs(x)]
        else:
            ps.append(x)
    sign = 1
    if ps and isinstance(ps[0], C) and ps[0].v in "+-":
        sign = -1 if ps[0].v == "-" else 1
        ps = ps[1:]
    dots = [i for i, x in enumerate(ps) if isinstance(x, C) and x.v == "."]
    if len(dots) > 1:
        return None
    d = dots[0] if dots else len(ps)
    whole, frac = ps[:d], ps[d + 1:]
    tot, e = {}, 0
    for x in reversed(whole):
        w = digits(x, memo, x is whole[0])
        if w is None:
            return None
        val, n = w
        tot = add(tot, scale(val, Fraction(10) ** e))
        if n is None:
            if x is not whole[0]:
                return None
            break
        e += n
    e = 0
    for i, x in enumerate(frac):
        if i == len(frac) - 1 and isinstance(x, T) and x.op == "rstrip" and x.args[1] == "0":
            x = x.args[0]
        w = digits(x, memo, False)
        if w is None or w[1] is None:
            return None
        e += w[1]
        tot = add(tot, scale(w[0], Fraction(1, 10 ** e)))
    return scale(tot, sign)


def digits(x, memo, first):
    """(value, number of digits) of a piece of text that consists of digits"""
    if isinstance(x, C):
        return (const(int(x.v)), 1) if x.v.isdigit() and x.v.isascii() else None
    if x.op == "str" and num.isint(x.args[0]):
        lo, hi = num.interval(x.args[0])
        if lo is not None and lo >= 0:
            return norm(x.args[0], memo), (1 if hi is not None and hi < 10 else None)
        return None
    if x.op == "fmt" and num.isint(x.args[0]):
        f = S.parse_spec(x.args[1])
        lo, hi = num.interval(x.args[0])
        if f and f["type"] in ("", "d") and (f["zero"] or not f["width"]) and lo is not None and lo >= 0:
            n = f["width"] or 1
            if hi is not None and hi < 10 ** n:
                return norm(x.args[0], memo), n
            if first:
                return norm(x.args[0], memo), None
        return None
    if x.op == "atom" and x.props.incl is not None and x.props.incl <= S.DIG and S.minlen(x) >= 1:
        n = x.props.maxlen if x.props.maxlen == S.minlen(x) else None
        return var(("base", T("int", (x, 10), "int"))), n
    return None


def bound(p, st=None):
    """upper bound of |p|, None when unbounded"""
    tot = 0.0
    for m, c in p.items():
        b = abs(float(c))
        for a, e in m:
            k = _ATOM[a]
            if e < 0:
                return None
            if k[0] == "noise":
                x = 0.5 * 10.0 ** -k[2]
            elif k[0] in ("sin", "cos"):
                x = 1.0
            elif k[0] == "base":
                lo, hi = num.interval(k[1], st)
                if lo is None or hi is None:
                    return None
                x = max(abs(lo), abs(hi))
            else:
                return None
            b *= x ** e
        tot += b
    return tot


def distance(a, b, st=None, known=None):
    """bound of |a - b| over the reals, None when not bounded; 0.0 when equal"""
    try:
        memo = {}
        p, q = norm(a, memo), norm(b, memo)
    except (NA, RecursionError, ZeroDivisionError, OverflowError):
        return None
    d = {}
    for m in set(p) | set(q):
        x, y = p.get(m, 0), q.get(m, 0)
        if abs(x - y) > (abs(x) + abs(y)) * Fraction(1, 10 ** 12):
            d[m] = x - y
    r = bound(d, st)
    if r != 0.0 and st is not None:
        for t, c in (known if known is not None else facts(st)):
            try:
                f = add(norm(t, memo), const(c.v), -1)
            except (NA, RecursionError, ZeroDivisionError, OverflowError):
                continue
            for m in f:
                if m in d:
                    d2 = {k: v for k, v in add(d, scale(f, d[m] / f[m]), -1).items() if abs(v) > Fraction(1, 10 ** 15)}
                    r2 = bound(d2, st)
                    if r2 is not None and (r is None or r2 < r):
                        d, r = d2, r2
    return r


def facts(st):
    """numeric terms whose value is known on this path"""
    return [(t, c) for t, c in st.eqc.items() if isinstance(t, T) and isinstance(c, C) and num.isnum(t)
            and isinstance(c.v, (int, float)) and not isinstance(c.v, bool)]


def ranges(st):
    """bounds of the polynomials compared on this path, over the reals; None when
    the comparisons contradict each other by more than rounding"""
    out = {}
    memo = {}
    for t, pol in st.flog:
        if t.op not in ("lt", "le") or num.isint(t.args[0]) and num.isint(t.args[1]):
            continue
        try:
            f = add(norm(t.args[1], memo), norm(t.args[0], memo), -1)
        except (NA, RecursionError, ZeroDivisionError, OverflowError):
            continue
        k, c, w = split(f)
        # pol: w*k + c > 0, else <= 0
        if k is None:
            if pol and c < -1e-9 or not pol and c > 1e-9:
                return None
            continue
        b = -c / w
        lo, hi = out.get(k, (-math.inf, math.inf))
        if pol == (w > 0):
            lo = max(lo, b)
        else:
            hi = min(hi, b)
        if lo > hi + 1e-9 * max(1.0, abs(lo), abs(hi)):
            return None
        out[k] = (lo, hi)
    return out


def split(p):
    """(key of the scaled polynomial without constant, constant, scale)"""
    c = float(p.get((), 0))
    rest = {m: v for m, v in p.items() if m}
    if not rest:
        return None, c, 0.0
    w = lead(rest)
    return key(scale(rest, 1 / w)), c, float(w)


def clipped(v, rng, memo=None):
    """min / max of a constant and a term whose bounds are known, resolved"""
    memo = {} if memo is None else memo
    if not isinstance(v, T) or not rng:
        return v
    if v in memo:
        return memo[v]
    args = tuple(clipped(a, rng, memo) for a in v.args)
    if v.op == "math":
        args = tuple(fixed(a, rng) for a in args)
    x = v if all(a is b for a, b in zip(args, v.args)) else T(v.op, args, v.ty)
    if x.op in ("min", "max") and len(x.args) == 2:
        if all(isinstance(a, C) for a in x.args):
            x = C((min if x.op == "min" else max)(a.v for a in x.args))
        else:
            for c, y in (x.args, x.args[::-1]):
                if isinstance(c, C) and isinstance(c.v, (int, float)):
                    ends = known(y, rng)
                    if ends is not None and ends[0] >= c.v - 1e-12:
                        x = c if x.op == "min" else y
                    elif ends is not None and ends[1] <= c.v + 1e-12:
                        x = y if x.op == "min" else c
                    break
    elif x is not v and x.op == "math" and all(isinstance(a, C) for a in x.args[1:]):
        try:
            x = C(getattr(math, x.args[0] if isinstance(x.args[0], str) else x.args[0].v)(*[a.v for a in x.args[1:]]))
        except (ValueError, OverflowError, AttributeError):
            pass
    memo[v] = x
    return x


def known(y, rng):
    """bounds of a term from those of its polynomial"""
    if not isinstance(y, T):
        return None
    try:
        k, c0, w = split(norm(y))
    except (NA, RecursionError, ZeroDivisionError, OverflowError):
        return None
    return sorted(w * e + c0 for e in rng[k]) if k in rng else None


def fixed(y, rng):
    """a term whose bounds meet"""
    ends = known(y, rng)
    return C(ends[1]) if ends is not None and abs(ends[1] - ends[0]) <= 1e-9 * max(1.0, abs(ends[1])) else y
