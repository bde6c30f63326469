"""Numeric domain: integer linear forms, xor sets, float terms with outward-rounded
intervals."""

from __future__ import annotations

import math

from .values import V, C, T, Tup, Props, TRUE, FALSE, mkbool

INF = math.inf


def ty(v):
    if isinstance(v, C):
        x = v.v
        if isinstance(x, bool):
            return "bool"
        if isinstance(x, int):
            return "int"
        if isinstance(x, float):
            return "float"
        return type(x).__name__
    if isinstance(v, T):
        return v.ty
    return None


def isnum(v):
    return ty(v) in ("int", "float", "bool", "num")


def isint(v):
    return ty(v) in ("int", "bool")


# ---- linear forms over int ------------------------------------------------


def lin(v):
    """-> (const, {term: coef})"""
    if isinstance(v, C):
        return int(v.v), {}
    if v.op == "lin":
        return v.args[0], dict(v.args[1])
    if v.ty == "bool":
        v = T("b2i", (v,), "int")
    return 0, {v: 1}


def common(r, n):
    """the largest divisor of n that divides every coefficient of r (its constant apart)"""
    g = n
    for w in lin(r)[1].values():
        g = math.gcd(g, w)
    return g


def reduced(r, g):
    """(r - (r's constant % g)) / g"""
    c, m = lin(r)
    return mklin(c // g, {t: w // g for t, w in m.items()})


def quot(x, n):
    """x // n for a positive constant, in canonical form"""
    c, m = lin(x)
    if len(m) == 1:
        (t, w), = m.items()
        if w == 1 and t.op == "floordiv" and isinstance(t.args[1], C) and t.args[1].v > 0:
            return quot(iadd(t.args[0], C(c * t.args[1].v)), n * t.args[1].v)
    qd = {t: w // n for t, w in m.items() if w % n == 0}
    rd = {t: w for t, w in m.items() if w % n}
    qc, rc = divmod(c, n)
    r = mklin(rc, rd)
    if isinstance(r, C):
        return mklin(qc + r.v // n, qd)
    g = common(r, n)
    if g > 1:
        return iadd(mklin(qc, qd), quot(reduced(r, g), n // g))
    return iadd(mklin(qc, qd), T("floordiv", (r, C(n)), "int"))


def mklin(const, d):
    d = {t: c for t, c in d.items() if c}
    if not d:
        return C(const)
    if const == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    # recombine  n*(x//n) + x%n  ->  x
    for t in list(d):
        if t.op == "mod" and isinstance(t.args[1], C) and t in d:
            x, n = t.args
            qc, qm = lin(quot(x, n.v))
            c = d[t]
            if len(qm) == 1:
                (q, w), = qm.items()
                if w == 1 and d.get(q) == c * n.v:
                    del d[t], d[q]
                    cc, dd = lin(x)
                    const += c * cc - c * n.v * qc
                    for k, w in dd.items():
                        d[k] = d.get(k, 0) + c * w
                    return mklin(const, d)
    # c*x - c*n*(x//n)  ->  c*(x%n)
    for t in list(d):
        if t.op != "floordiv" or not isinstance(t.args[1], C) or t.args[1].v < 2 or len(d) < 2:
            continue
        x, n = t.args
        cand = [(x, n.v)]
        for u in d:
            # n // a of the quotient u = z // a with x = z + j*a:  x // n = (u + j) // (n // a)
            if u.op == "floordiv" and u is not t and isinstance(u.args[1], C) and u.args[1].v > 0 and n.v % u.args[1].v == 0:
                z, a = u.args[0], u.args[1].v
                j = iadd(x, z, -1)
                if isinstance(j, C) and j.v % a == 0:
                    cand.append((mklin(j.v // a, {u: 1}), n.v // a))
        for y, k in cand:
            if k < 2 or d[t] % k:
                continue
            c = -d[t] // k
            cc, dd = lin(y)
            if dd and t not in dd and all(d.get(z) == c * w for z, w in dd.items()):
                for z in dd:
                    del d[z]
                del d[t]
                m = T("mod", (y, C(k)), "int")
                d[m] = d.get(m, 0) + c
                return mklin(const - c * cc, d)
    return T("lin", (const, tuple(sorted(d.items(), key=lambda kc: kc[0].n))), "int")


def iadd(a, b, sb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + sb * c
    return mklin(ca + sb * cb, da)


def iscale(a, k):
    ca, da = lin(a)
    return mklin(ca * k, {t: c * k for t, c in da.items()})


def xorset(v):
    if isinstance(v, C):
        return v.v, frozenset()
    if v.op == "xor":
        return v.args[0], frozenset(v.args[1])
    return 0, frozenset((v,))


def ixor(a, b):
    ca, sa = xorset(a)
    cb, sb = xorset(b)
    s = sa ^ sb
    c = ca ^ cb
    if not s:
        return C(c)
    if c == 0 and len(s) == 1:
        return next(iter(s))
    return T("xor", (c, tuple(sorted(s, key=lambda t: t.n))), "int")


def down(x):
    return x if x is None or math.isinf(x) else math.nextafter(x, -INF)


def up(x):
    return x if x is None or math.isinf(x) else math.nextafter(x, INF)


def _f(x):
    return x


def direction(m):
    """(D, sign): a linear combination without its constant, in canonical sign"""
    first = min(m, key=lambda t: t.n)
    sg = 1 if m[first] > 0 else -1
    return mklin(0, {t: w * sg for t, w in m.items()}), sg


def interval(v, st=None, depth=0):
    """(lo, hi), None = unbounded on that side."""
    if isinstance(v, C):
        if isinstance(v.v, (int, float)) and not (isinstance(v.v, float) and math.isnan(v.v)):
            return (v.v, v.v)
        return (None, None)
    from .values import Phi
    if isinstance(v, Phi):
        ivs = [interval(a, st, depth + 1) for _, a in v.alts]
        lo = None if any(i[0] is None for i in ivs) else min(i[0] for i in ivs)
        hi = None if any(i[1] is None for i in ivs) else max(i[1] for i in ivs)
        return (lo, hi)
    if not isinstance(v, T):
        return (None, None)
    if st is None or not st.rng:
        if v._iv is None:
            v._iv = _interval(v, None, depth)
        iv = v._iv
    else:
        iv = _interval(v, st, depth)
        r = st.rng.get(v)
        if r is None and v.op == "lin" and len(v.args[1]) > 1:
            D, sg = direction(dict(v.args[1]))
            r = st.rng.get(D)
            if r is not None:
                l, h = r if sg > 0 else (None if r[1] is None else -r[1], None if r[0] is None else -r[0])
                r = (None if l is None else l + v.args[0], None if h is None else h + v.args[0])
        if r is not None:
            lo = iv[0] if r[0] is None else r[0] if iv[0] is None else max(iv[0], r[0])
            hi = iv[1] if r[1] is None else r[1] if iv[1] is None else min(iv[1], r[1])
            iv = (lo, hi)
    return iv


def _n(x, inf):
    return inf if x is None else x


def _out(lo, hi, integer):
    lo = None if lo == -INF or lo != lo else lo
    hi = None if hi == INF or hi != hi else hi
    if not integer:
        return (down(lo), up(hi))
    return (lo, hi)


def _mul(x, y):
    if x == 0 or y == 0:
        return 0
    return x * y


def _interval(v, st, depth):
    if depth > 200:
        return (None, None)
    o, a = v.op, v.args
    iv = lambda x: interval(x, st, depth + 1)  # noqa: E731
    if o == "atom":
        p = v.props
        return (p.lo, p.hi)
    if o == "lin":
        lo = hi = a[0]
        for t, c in a[1]:
            l, h = iv(t)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return (lo, hi)
    if o == "b2i":
        return (0, 1)
    if o == "ord":
        return (0, 0x10FFFF) if a[0].ty != "bytes" else (0, 255)
    if o == "len":
        from .strings import isS, minlen, maxlen
        if isS(a[0]):
            x = a[0]
            if isinstance(x, T) and x.op == "str" and isint(x.args[0]):
                l, h = iv(x.args[0])
                if l is not None and l >= 0:
                    return (len(str(l)), None if h is None else len(str(h)))
            return (minlen(a[0]), maxlen(a[0]))
        return (0, None)
    if o in ("find", "rfind"):
        from .strings import parts, cs
        if isinstance(a[1], C) and any(isinstance(p, C) and cs(a[1]) in cs(p) for p in parts(a[0])):
            return (0, None)
        return (-1, None)
    if o == "xor":
        m = a[0].bit_length()
        for t in a[1]:
            l, h = iv(t)
            if l is None or h is None or l < 0:
                return (None, None)
            m = max(m, int(h).bit_length())
        return (0, (1 << m) - 1)
    if o in ("bitand", "bitor"):
        (l1, h1), (l2, h2) = iv(a[0]), iv(a[1])
        if o == "bitand":
            if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0:
                hs = [h for h in (h1, h2) if h is not None]
                return (0, min(hs) if hs else None)
            if l2 is not None and l2 >= 0:
                return (0, h2)
            if l1 is not None and l1 >= 0:
                return (0, h1)
            return (None, None)
        if None not in (l1, h1, l2, h2) and l1 >= 0 and l2 >= 0:
            return (max(l1, l2), (1 << max(int(h1).bit_length(), int(h2).bit_length())) - 1)
        return (None, None)
    if o == "neg":
        l, h = iv(a[0])
        return (None if h is None else -h, None if l is None else -l)
    if o == "abs":
        l, h = iv(a[0])
        if l is not None and l >= 0:
            return (l, h)
        if h is not None and h <= 0:
            return (-h, None if l is None else -l)
        return (0, None if l is None or h is None else max(-l, h))
    integer = v.ty == "int"
    if o in ("fadd", "fsub", "fmul", "imul", "iadd"):
        (l1, h1), (l2, h2) = iv(a[0]), iv(a[1])
        l1, h1, l2, h2 = _n(l1, -INF), _n(h1, INF), _n(l2, -INF), _n(h2, INF)
        if o == "fmul" and a[0] is a[1]:
            lo = 0 if l1 <= 0 <= h1 else min(_mul(l1, l1), _mul(h1, h1))
            r = _out(lo, max(_mul(l1, l1), _mul(h1, h1)), integer)
            return (max(0, r[0]) if r[0] is not None else 0, r[1])
        if o in ("fadd", "iadd"):
            r = _out(l1 + l2, h1 + h2, integer)
            if l1 + l2 >= 0 and r[0] is not None:   # rounding is monotone
                r = (max(r[0], 0), r[1])
            return r
        if o == "fsub":
            return _out(l1 - h2, h1 - l2, integer)
        p = [_mul(x, y) for x in (l1, h1) for y in (l2, h2)]
        r = _out(min(p), max(p), integer)
        if min(p) >= 0 and r[0] is not None:
            r = (max(r[0], 0), r[1])
        if max(p) <= 0 and r[1] is not None:
            r = (r[0], min(r[1], 0))
        return r
    if o == "fdiv":
        (l1, h1), (l2, h2) = iv(a[0]), iv(a[1])
        l2, h2 = _n(l2, -INF), _n(h2, INF)
        if l2 <= 0 <= h2:
            if l1 is not None and l1 >= 0 and l2 >= 0:
                return (0, None)
            return (None, None)
        l1, h1 = _n(l1, -INF), _n(h1, INF)
        p = []
        for x in (l1, h1):
            for y in (l2, h2):
                p.append(0 if math.isinf(y) else x / y if not math.isinf(x) else math.copysign(INF, x * y))
        r = _out(min(p), max(p), False)
        if min(p) >= 0 and r[0] is not None:
            r = (max(r[0], 0), r[1])
        return r
    if o in ("floordiv", "ffloordiv"):
        (l1, h1), (l2, h2) = iv(a[0]), iv(a[1])
        if l2 is not None and l2 > 0:
            h2 = _n(h2, INF)
            def fd(x, y):
                if math.isinf(y):
                    return -1 if x < 0 else 0
                return x // y
            c = []
            lo = None if l1 is None else min(fd(l1, l2), fd(l1, h2))
            hi = None if h1 is None else max(fd(h1, l2), fd(h1, h2))
            return (lo, hi)
        return (None, None)
    if o in ("mod", "fmod"):
        (l1, h1), (l2, h2) = iv(a[0]), iv(a[1])
        if l2 is not None and l2 > 0 and h2 is not None:
            if l1 is not None and h1 is not None and l1 >= 0 and h1 < l2:
                return (l1, h1)
            if o == "mod":
                if l1 is not None and h1 is not None and l2 == h2 and l1 // l2 == h1 // l2:
                    return (l1 % l2, h1 % l2)
                return (0, h2 - 1)
            # float modulo: python's result lies in [0, n), except that a tiny
            # negative operand rounds up to n itself
            if l1 is not None and l1 >= 0:
                return (0, math.nextafter(h2, -INF))
            return (0, h2)
        return (None, None)
    if o == "min" or o == "max":
        ivs = [iv(x) for x in a]
        f = min if o == "min" else max
        if o == "min":
            his = [i[1] for i in ivs if i[1] is not None]
            lo = None if any(i[0] is None for i in ivs) else min(i[0] for i in ivs)
            return (lo, min(his) if his else None)
        los = [i[0] for i in ivs if i[0] is not None]
        hi = None if any(i[1] is None for i in ivs) else max(i[1] for i in ivs)
        return (max(los) if los else None, hi)
    if o == "math":
        f = a[0]
        x = iv(a[1])
        if f in ("sin", "cos"):
            return _trig(f, x)
        if f == "acos":
            return _mono(math.acos, x, (-1, 1), True, (0.0, math.pi))
        if f == "asin":
            return _mono(math.asin, x, (-1, 1), False, (-math.pi / 2, math.pi / 2))
        if f == "atan":
            return _mono(math.atan, x, (-INF, INF), False, (-math.pi / 2, math.pi / 2))
        if f == "atan2":
            return (-math.pi, math.pi)
        if f == "sqrt":
            l, h = x
            l = 0 if l is None or l < 0 else l
            lo = max(0, down(math.sqrt(l)))
            return (lo, None if h is None else up(math.sqrt(max(h, 0))))
        if f == "radians":
            l, h = x
            return (None if l is None else down(math.radians(l)), None if h is None else up(math.radians(h)))
        if f == "degrees":
            l, h = x
            return (None if l is None else down(math.degrees(l)), None if h is None else up(math.degrees(h)))
        if f in ("fabs",):
            return interval(T("abs", (a[1],), "float"), st, depth + 1)
        if f == "hypot":
            return (0, None)
        return (None, None)
    if o in ("toint", "trunc"):
        l, h = iv(a[0])
        return (None if l is None else math.trunc(l), None if h is None else math.trunc(h))
    if o == "floor":
        l, h = iv(a[0])
        return (None if l is None else math.floor(l), None if h is None else math.floor(h))
    if o == "ceil":
        l, h = iv(a[0])
        return (None if l is None else math.ceil(l), None if h is None else math.ceil(h))
    if o == "round":
        l, h = iv(a[0])
        n = a[1]
        if n is None or isinstance(n, int):
            try:
                return (None if l is None else round(l, n), None if h is None else round(h, n))
            except (OverflowError, ValueError):
                return (None, None)
        return (None if l is None else l - 1, None if h is None else h + 1)
    if o == "tofloat":
        l, h = iv(a[0])
        return (None if l is None else down(float(l)) if abs(l) > 2**53 else float(l),
                None if h is None else up(float(h)) if abs(h) > 2**53 else float(h))
    if o == "pow":
        l, h = iv(a[0])
        n = a[1]
        if isinstance(n, C) and isinstance(n.v, int) and n.v >= 0 and l is not None and h is not None:
            c = [l ** n.v, h ** n.v]
            if n.v % 2 == 0 and l <= 0 <= h:
                c.append(0)
            r = _out(min(c), max(c), integer)
            if min(c) >= 0:
                r = (max(r[0], 0), r[1])
            return r
        if isinstance(n, C) and isinstance(n.v, int) and n.v % 2 == 0:
            return (0, None)
        return (None, None)
    if o == "dtf":
        from .dtm import DTF
        x = a[0]
        while isinstance(x, T) and x.op == "date" and isinstance(x.args[0], T):
            x = x.args[0]
        if a[1] == "year" and isinstance(x, T) and x.op == "atom" and x.ty == "date" and x.props.lo is not None:
            return x.props.lo, x.props.hi
        return DTF.get(a[1], (0, None))
    if o == "usec":
        p = a[0].props
        if p is not None and (p.lo is not None or p.hi is not None):
            return (p.lo, p.hi)
        if a[0].ty == "datetime":
            return (0, 315537897599999999)
        return (-999999999 * 86400000000, 999999999 * 86400000000)
    if o == "clockus":
        return (0, 315537897599999999)
    if o in ("float", "int") and len(a) and getattr(a[0], "ty", "") == "str" and (o == "float" or a[1:] in ((10,), ())):
        from .strings import excludes, maxlen
        if excludes(a[0], "-"):
            n = maxlen(a[0])
            return (0, 10 ** n if n is not None and n < 100 and excludes(a[0], "eEfF") else None)
        return (None, None)
    if o == "tdround":
        l, h = iv(a[0])
        return (None if l is None else math.floor(l * a[1]) - 1, None if h is None else math.ceil(h * a[1]) + 1)
    if o == "total_seconds":
        l, h = iv(a[0])
        return (None if l is None else down(l / 1e6), None if h is None else up(h / 1e6))
    return (None, None)


def _mono(f, x, dom, dec, full):
    l, h = x
    l = dom[0] if l is None else max(l, dom[0])
    h = dom[1] if h is None else min(h, dom[1])
    if l > h:
        return full
    lo, hi = (f(h), f(l)) if dec else (f(l), f(h))
    return (max(full[0], down(lo)), min(up(hi), math.nextafter(full[1], INF)))


def _trig(f, x):
    l, h = x
    if l is None or h is None or h - l >= 2 * math.pi or max(abs(l), abs(h)) > 1e6:
        return (-1.0, 1.0)
    g = math.sin if f == "sin" else math.cos
    off = math.pi / 2 if f == "sin" else 0.0
    lo = min(g(l), g(h))
    hi = max(g(l), g(h))
    eps = 1e-9
    # maxima at off + 2k pi, minima at off + pi + 2k pi
    k = math.ceil((l - eps - off) / (2 * math.pi))
    if off + 2 * math.pi * k <= h + eps:
        hi = 1.0
    k = math.ceil((l - eps - off - math.pi) / (2 * math.pi))
    if off + math.pi + 2 * math.pi * k <= h + eps:
        lo = -1.0
    return (max(-1.0, down(down(lo))), min(1.0, up(up(hi))))


# ---- arithmetic -----------------------------------------------------------


def neg(v):
    if isinstance(v, C):
        return C(-v.v)
    if isint(v):
        return iscale(v, -1)
    if v.op == "neg":
        return v.args[0]
    return T("neg", (v,), v.ty)


def abs_(v, st=None):
    if isinstance(v, C):
        return C(abs(v.v))
    if v.op == "neg":
        v = v.args[0]
    if v.op == "abs":
        return v
    l, h = interval(v, st)
    if l is not None and l >= 0:
        return v
    if h is not None and h <= 0:
        return neg(v)
    if v.op == "lin" and v.args[1] and v.args[1][0][1] < 0:
        v = iscale(v, -1)
    return T("abs", (v,), v.ty)


def nonan(v, depth=0):
    """is the number certainly not NaN"""
    if isinstance(v, C):
        return v.v == v.v
    if not isinstance(v, T) or depth > 20:
        return False
    if v.ty in ("int", "bool"):
        return True
    if v.op == "atom":
        return v.props is None or v.props.nonan is not False
    if v.op in ("abs", "neg", "tofloat", "round"):
        return nonan(v.args[0], depth + 1)
    if v.op in ("fadd", "fsub", "fmul"):
        return all(nonan(x, depth + 1) and None not in interval(x) for x in v.args)
    return False


def ltc(a, b):
    """term for a < b (numbers)"""
    return T("lt", (a, b), "bool")
