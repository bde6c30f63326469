"""Datetimes and regular expressions.

A datetime is a count of microseconds since 0001-01-01 (an integer linear form)
plus awareness; a timedelta is a count of microseconds.  Time zones are UTC and
fixed offsets: an aware time of another zone is its wall clock and the zone.  Calendar fields are opaque terms with their calendar range."""

from __future__ import annotations

import datetime as _dt

from . import num, regex, strings as S
from .values import atom, V, C, T, Tup, Ref, Wrap, Bi, NONE, TRUE, FALSE, EMPTY, mkbool

E1 = _dt.datetime(1, 1, 1)
MAXUS = (_dt.datetime.max - E1) // _dt.timedelta(microseconds=1)
US = _dt.timedelta(microseconds=1)
TDMAX = 999999999 * 86400 * 1000000
UTC = _dt.timezone.utc


def _uns(msg):
    from .interp import Unsupported
    raise Unsupported(msg)


def isdt(v):
    if isinstance(v, C):
        return isinstance(v.v, (_dt.datetime, _dt.date, _dt.time, _dt.timedelta))
    return isinstance(v, T) and v.ty in ("datetime", "date", "time", "timedelta")


def istd(v):
    if isinstance(v, C):
        return isinstance(v.v, _dt.timedelta)
    return isinstance(v, T) and v.ty == "timedelta"


def _ty(v):
    if isinstance(v, C):
        if isinstance(v.v, _dt.datetime):
            return "datetime"
        return type(v.v).__name__
    return v.ty


def mkdt(us, aware):
    if isinstance(us, C) and 0 <= us.v <= MAXUS:
        d = E1 + _dt.timedelta(microseconds=us.v)
        return C(d.replace(tzinfo=UTC) if aware else d)
    return T("dt", (us, C(aware)), "datetime")


def mkwall(us, tz):
    """the datetime whose wall clock is us, in the zone (None: naive)"""
    if tz is None or tz == UTC:
        return mkdt(us, tz is not None)
    if isinstance(us, C) and 0 <= us.v <= MAXUS:
        return C((E1 + _dt.timedelta(microseconds=us.v)).replace(tzinfo=tz))
    return T("dtz", (us, C(tz)), "datetime")


def wall(cx, v):
    """(wall clock in microseconds, zone or None)"""
    if isinstance(v, C):
        return C((v.v.replace(tzinfo=None) - E1) // US), v.v.tzinfo
    if v.op == "dtz":
        return v.args[0], v.args[1].v
    us, w = dtus(cx, v)
    return us, UTC if w else None


def offset(tz):
    o = tz.utcoffset(None)
    if o is None:
        _uns("a time zone without a fixed offset")
    return C(o // US)


def mktd(us):
    if isinstance(us, C):
        return C(_dt.timedelta(microseconds=us.v))
    return T("td", (us,), "timedelta")


def dtus(cx, v):
    """(microseconds, aware)"""
    if isinstance(v, C):
        d = v.v
        off = d.utcoffset()
        n = (d.replace(tzinfo=None) - E1) // US
        if off is None:
            return C(n), False
        return C(n - off // US), True
    if v.op == "dt":
        return v.args[0], v.args[1].v
    if v.op == "dtz":
        return num.iadd(v.args[0], offset(v.args[1].v), -1), True
    if v.op == "mkdt":
        return v.args[0], v.args[1].v
    aw = v.props.aware if v.props is not None else None
    if v.op == "strptime":
        aw = False
    if aw is None:
        aw = cx.cond(T("aware", (v,), "bool"))
    return T("usec", (v,), "int"), aw


def tdus(v):
    if isinstance(v, C):
        return C(v.v // US)
    if v.op == "td":
        return v.args[0]
    return T("usec", (v,), "int")


def checkdt(cx, us):
    lo, hi = num.interval(us, cx.st)
    if lo is not None and hi is not None and lo >= 0 and hi <= MAXUS:
        return us
    if not cx.cond(T("dtrange", (us,), "bool")):
        cx.raise_("OverflowError", "date value out of range")
    cx.st.rng[us] = (max(lo, 0) if lo is not None else 0, min(hi, MAXUS) if hi is not None else MAXUS)
    return us


def eq(cx, a, b):
    ta, tb = _ty(a), _ty(b)
    if ta != tb:
        return FALSE
    if ta == "timedelta":
        from .builtins_ import num_eq
        return num_eq(tdus(a), tdus(b))
    if ta == "datetime":
        ua, wa = dtus(cx, a)
        ub, wb = dtus(cx, b)
        if wa != wb:
            return FALSE
        from .builtins_ import num_eq
        return num_eq(ua, ub)
    if a.op == b.op in ("date", "time") if isinstance(a, T) and isinstance(b, T) else False:
        return T("eq", (a, b), "bool") if a.n < b.n else T("eq", (b, a), "bool")
    return S.mkeq(a, b)


def order(cx, n, a, b):
    ta, tb = _ty(a), _ty(b)
    if ta != tb:
        cx.raise_("TypeError", "'<' not supported")
    if ta == "timedelta":
        x, y = tdus(a), tdus(b)
    elif ta == "datetime":
        x, wa = dtus(cx, a)
        y, wb = dtus(cx, b)
        if wa != wb:
            cx.raise_("TypeError", "can't compare offset-naive and offset-aware datetimes")
    else:
        return T("lt" if n == "<" else "le", (a, b), "bool")
    d = num.iadd(x, y, -1)
    c0 = C(0)
    if isinstance(d, C):
        return mkbool(d.v < 0 if n == "<" else d.v <= 0)
    return num.ltc(d, c0) if n == "<" else cx.it.notv(num.ltc(c0, d))


def binop(cx, n, a, b):
    da, db = isdt(a), isdt(b)
    if da and db:
        ta, tb = _ty(a), _ty(b)
        if ta == "timedelta" and tb == "timedelta":
            x, y = tdus(a), tdus(b)
            if n in "+-" and len(n) == 1:
                return mktd(num.iadd(x, y, 1 if n == "+" else -1))
            from .builtins_ import binop as bop
            if n == "//":
                return bop(cx, "//", x, y)
            if n == "%":
                return mktd(bop(cx, "%", x, y))
            if n == "/":
                if isinstance(y, C) and y.v == 1000000:
                    return _total(x)
                return bop(cx, "/", x, y)
            return None
        if ta == "datetime" and tb == "timedelta" and n in ("+", "-"):
            x, w = wall(cx, a)
            r = num.iadd(x, tdus(b), 1 if n == "+" else -1)
            return mkwall(checkdt(cx, r), w)
        if ta == "timedelta" and tb == "datetime" and n == "+":
            x, w = wall(cx, b)
            return mkwall(checkdt(cx, num.iadd(x, tdus(a))), w)
        if ta == "datetime" and tb == "datetime" and n == "-":
            if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "dtz" and a.args[1] is b.args[1]:
                return mktd(num.iadd(a.args[0], b.args[0], -1))
            x, wa = dtus(cx, a)
            y, wb = dtus(cx, b)
            if wa != wb:
                cx.raise_("TypeError", "can't subtract offset-naive and offset-aware datetimes")
            return mktd(num.iadd(x, y, -1))
        if n in ("+", "-"):
            if "time" in (ta, tb):
                cx.raise_("TypeError", f"unsupported operand type(s) for {n}")
            _uns("date arithmetic")
        from .builtins_ import refuse, PYOP
        refuse(cx, PYOP[n], (a, b), f"unsupported operand type(s) for {n}")
    if da and istd(a) and num.isint(b) and n == "*" or db and istd(b) and num.isint(a) and n == "*":
        t, k = (a, b) if istd(a) else (b, a)
        x = tdus(t)
        if isinstance(x, C):
            return checktd(cx, num.iscale(k, x.v))
        if isinstance(k, C):
            return checktd(cx, num.iscale(x, k.v))
        _uns("timedelta multiplication")
    if da and istd(a) and num.isint(b) and n == "//":
        from .builtins_ import binop as bop
        return mktd(bop(cx, "//", tdus(a), b))
    if da and istd(a) and num.isnum(b) and n in ("*", "/"):
        _uns("timedelta scaling by a float")
    o = b if da else a
    if isinstance(o, T) and o.ty == "any":
        return None
    from .builtins_ import refuse, PYOP
    refuse(cx, PYOP[n], (a, b), f"unsupported operand type(s) for {n}")


def checktd(cx, us):
    lo, hi = num.interval(us, cx.st)
    if lo is None or hi is None or lo < -TDMAX or hi > TDMAX:
        if not cx.cond(T("tdrange", (us,), "bool")):
            cx.raise_("OverflowError", "days out of range")
        cx.st.rng[us] = (max(lo, -TDMAX) if lo is not None else -TDMAX,
                         min(hi, TDMAX) if hi is not None else TDMAX)
    return mktd(us)


def neg(v):
    return mktd(num.neg(tdus(v)))


def abs_td(cx, v):
    return mktd(num.abs_(tdus(v), cx.st))


def _total(us):
    if isinstance(us, C):
        return C(us.v / 10**6)
    return T("total_seconds", (us,), "float")


DTF = {"year": (1, 9999), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59),
       "second": (0, 59), "microsecond": (0, 999999), "yday": (1, 366), "wday": (0, 6)}


def field(x, name):
    """calendar field of a datetime / date / time value"""
    if isinstance(x, C):
        if name == "yday":
            return C(x.v.timetuple().tm_yday)
        return C(getattr(x.v, name))
    if x.op in ("date", "time") and isinstance(x.args[0], T):
        x = x.args[0]
    if x.op == "mk" + x.ty + "_":
        d = dict(x.args[0].items if isinstance(x.args[0], Tup) else x.args[0])
        if name in d:
            return d[name]
    if x.op == "dtz":
        x = mkdt(x.args[0], False)
    if x.op == "reread":
        d = dict(x.args[1])
        if name == "year" and "year2" in d:
            y = field(x.args[0], "year")
            lo, hi = num.interval(y)
            if lo is not None and hi is not None and lo >= 1969 and hi <= 2068:
                return y
        elif name in d:
            v = field(x.args[0], name)
            if d[name] == 1:
                return v
            return num.iscale(num.quot(v, d[name]), d[name])
        elif name in REST and "yday" not in d:
            return C(REST[name])
    if x.op == "strptime" and isinstance(x.args[1], C):
        ps = digit_layout(x.args[0], x.args[1].v)
        if ps is not None:
            if name in ps:
                return T("int", (ps[name], 10), "int") if not isinstance(ps[name], C) else C(int(ps[name].v))
            if name in REST and not (name == "year" and "year2" in ps):
                return C(REST[name])
    return T("dtf", (x, name), "int")


REST = {"year": 1900, "month": 1, "day": 1, "hour": 0, "minute": 0, "second": 0, "microsecond": 0}


def digits_of(x):
    """layout of the two-digit-year text a date was read from"""
    while isinstance(x, T) and x.op == "date" and isinstance(x.args[0], T):
        x = x.args[0]
    if isinstance(x, T) and x.op == "strptime" and isinstance(x.args[1], C):
        ps = digit_layout(x.args[0], x.args[1].v)
        if ps is not None and "year2" in ps:
            return ps
    return None


def digit_layout(s, fmt):
    """a text of single ASCII digits and separators whose length forces the
    width of each directive: {field: digits}, else None"""
    ps = []
    for p in S.parts(s):
        if isinstance(p, C):
            ps += [C(c) for c in S.cs(p)]
        elif S.minlen(p) == 1 and S.maxlen(p) == 1 and p.op == "atom" and p.props.incl is not None and p.props.incl <= S.DIG:
            ps.append(p)
        else:
            return None
    out = {}
    i = k = 0
    while i < len(fmt):
        if fmt[i] != "%":
            if k >= len(ps) or ps[k] is not C(fmt[i]):
                return None
            i, k = i + 1, k + 1
            continue
        d = fmt[i + 1]
        i += 2
        w = 4 if d == "Y" else 2 if d == "y" else SIMPLE[d][1] if d in SIMPLE else None
        if w is None:
            return None
        take = ps[k:k + w]
        if d == "f":
            take = [q for q in take]
            while take and isinstance(take[-1], C) and not take[-1].v.isdigit():
                return None
            if not take or i < len(fmt):
                return None
        elif len(take) < w:
            return None
        if any(isinstance(q, C) and not (q.v.isdigit() and q.v.isascii()) for q in take):
            return None
        k += len(take)
        out[{"Y": "year", "y": "year2"}.get(d) or SIMPLE[d][0]] = S.cat(take + [C("0" * (w - len(take)))], False)
    return out if k == len(ps) else None


SIMPLE = {"d": ("day", 2), "m": ("month", 2), "H": ("hour", 2), "M": ("minute", 2), "S": ("second", 2),
          "f": ("microsecond", 6)}
TIMEF = {"hour", "minute", "second", "microsecond"}


def strftime(cx, x, fmt):
    if isinstance(fmt, C):
        fmt = fmt.v
    elif not isinstance(fmt, str):
        return T("strftime", (x, fmt), "str")
    if fmt == "":
        return T("str", (x,), "str")
    from .builtins_ import format_
    parts = []
    i = 0
    ty = _ty(x)
    while i < len(fmt):
        c = fmt[i]
        if c != "%" or i + 1 >= len(fmt):
            parts.append(C(c))
            i += 1
            continue
        d = fmt[i + 1]
        i += 2
        if d == "%":
            parts.append(C("%"))
            continue
        if d in SIMPLE:
            nm, w = SIMPLE[d]
            if ty == "date" and nm in TIMEF:
                parts.append(C("0" * w))
            elif ty == "time" and nm not in TIMEF:
                parts.append(C("01"))
            else:
                parts.append(format_(cx, field(x, nm), C(f"0{w}d")))
        elif d in ("y", "Y", "C"):
            y = C(1900) if ty == "time" else field(x, "year")
            lay = digits_of(x) if d == "y" else None
            if lay:
                z = lay["year2"]
                parts.append(format_(cx, C(int(z.v)) if isinstance(z, C) else T("int", (z, 10), "int"), C("02d")))
            elif d == "y":
                from .builtins_ import binop as bop
                parts.append(format_(cx, bop(cx, "%", y, C(100)), C("02d")))
            elif d == "Y":
                from .builtins_ import str_
                parts.append(str_(cx, y))
            else:
                parts.append(T("strftime", (x, "%" + d), "str"))
        else:
            parts.append(T("strftime", (x, "%" + d), "str"))
    return S.cat(parts, False)


def attr(cx, o, name):
    ty = _ty(o)
    if ty == "timedelta":
        from .builtins_ import binop as bop
        us = tdus(o)
        if name == "days":
            return bop(cx, "//", us, C(86400000000))
        if name == "seconds":
            return bop(cx, "//", bop(cx, "%", us, C(86400000000)), C(1000000))
        if name == "microseconds":
            return bop(cx, "%", us, C(1000000))
        if name in ("total_seconds",):
            return Wrap("meth", o, name)
        return Wrap("meth", o, name) if hasattr(_dt.timedelta, name) else None
    if name == "tzinfo":
        if ty == "datetime":
            _, tz = wall(cx, o)
            return C(tz) if tz is not None else NONE
        if ty == "time":
            return NONE
    cls = {"datetime": _dt.datetime, "date": _dt.date, "time": _dt.time}[ty]
    if not hasattr(cls, name):
        return None
    if name in DTF:
        return field(o, name)
    return Wrap("meth", o, name)


def method(cx, o, name, args, kw):
    ty = _ty(o)
    if name == "total_seconds":
        return _total(tdus(o))
    if name == "strftime":
        f = args[0] if args else kw.get("format")
        if f is None:
            cx.raise_("TypeError", "strftime() missing argument")
        if not S.isstr(f):
            cx.raise_("TypeError", "strftime() argument 1 must be str")
        return strftime(cx, o, f)
    if name in ("date", "time", "timetz") and ty == "datetime":
        r = "date" if name == "date" else "time"
        if isinstance(o, C):
            return C(getattr(o.v, name)())
        return T(r, (o,), r)
    if name == "utcoffset":
        _, tz = wall(cx, o)
        return mktd(offset(tz)) if tz is not None else NONE
    if name == "replace" and ty == "datetime":
        us, w = wall(cx, o)
        ks = dict(kw)
        tz = ks.pop("tzinfo", None)
        if tz is not None:
            if tz is NONE:
                w = None
            elif isinstance(tz, C) and isinstance(tz.v, _dt.timezone):
                w = tz.v
            else:
                _uns("time zone")
        if args:
            _uns("replace with positional arguments")
        if "microsecond" in ks and len(ks) == 1 and isinstance(ks["microsecond"], (C, T)) and num.isint(ks["microsecond"]):
            from .builtins_ import binop as bop
            us = num.iadd(num.iadd(us, bop(cx, "%", us, C(1000000)), -1), ks.pop("microsecond"))
        if ks:
            _uns("replace of calendar fields")
        return mkwall(us, w)
    if name == "replace" and ty in ("date", "time"):
        order = ("year", "month", "day") if ty == "date" else ("hour", "minute", "second", "microsecond")
        if len(args) > len(order) or "tzinfo" in kw or "fold" in kw:
            _uns("replace")
        d = {k: field(o, k) for k in order}
        d.update(zip(order, args))
        d.update(kw)
        return call(cx, "datetime." + ty, [], d)
    if name == "astimezone":
        us, w = dtus(cx, o)
        tz = args[0] if args else kw.get("tz")
        if w and isinstance(tz, C) and isinstance(tz.v, _dt.timezone):
            return mkwall(checkdt(cx, num.iadd(us, offset(tz.v))), tz.v)
        if not w and isinstance(tz, C) and tz.v is UTC:
            # read as local time, whose offset is unknown
            return mkdt(num.iadd(us, atom("local offset", "int", lo=-14 * 3600, hi=12 * 3600), 10 ** 6), True)
        _uns("astimezone")
    if name == "timestamp":
        us, w = dtus(cx, o)
        if w:
            return _total(num.iadd(us, C((_dt.datetime(1970, 1, 1) - E1) // US), -1))
        _uns("timestamp of a naive datetime")
    if name == "isoformat":
        return T("isoformat", (o,) + tuple(args), "str")
    if name in ("weekday", "isoweekday", "toordinal"):
        return T("dtf", (o, name), "int")
    if name in ("__sub__", "__add__"):
        return binop(cx, "-" if name == "__sub__" else "+", o, args[0])
    if name in ("__str__",):
        return T("str", (o,), "str")
    _uns(f"method {ty}.{name}")


TDK = {"days": 86400000000, "seconds": 1000000, "microseconds": 1, "milliseconds": 1000,
       "minutes": 60000000, "hours": 3600000000, "weeks": 604800000000}


def call(cx, name, args, kw):
    args = [cx.force(a) for a in args]
    kw = {k: cx.force(v) for k, v in kw.items()}
    if name == "datetime.timedelta":
        d = dict(zip(("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"), args))
        d.update(kw)
        tot = C(0)
        for k, v in d.items():
            if k not in TDK:
                cx.raise_("TypeError", "timedelta() argument")
            if not num.isnum(v):
                if isinstance(v, T) and v.ty == "any":
                    _uns("timedelta of unknown")
                cx.raise_("TypeError", "unsupported type for timedelta component")
            if num.isint(v):
                t = num.iscale(num.iadd(v, C(0)), TDK[k])
            elif isinstance(v, C):
                t = C(_dt.timedelta(**{k: v.v}) // US)
            else:
                t = T("tdround", (v, TDK[k]), "int")
            tot = num.iadd(tot, t)
        return checktd(cx, tot)
    if name in ("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today"):
        cx.st.event("clock", (name,), cx.it.where(cx))
        tz = args[0] if args else kw.get("tz", NONE)
        if "date.today" in name:
            if cx.it.clock is not None:
                return T("date", (T("dt", (cx.it.clock, FALSE), "datetime"),), "date")
            return T("date", (T("now", cx.st.fresh(), "datetime"),), "date")
        us = cx.it.clock if cx.it.clock is not None else T("clockus", cx.st.fresh(), "int")
        return T("dt", (us, C(tz is not NONE and "now" in name)), "datetime")
    if name in ("datetime.datetime.strptime",):
        if len(args) != 2 or not S.isstr(args[0]) or not S.isstr(args[1]):
            if any(isinstance(a, T) and a.ty == "any" for a in args):
                _uns("strptime of unknown")
            cx.raise_("TypeError", "strptime() argument must be str")
        return strptime(cx, args[0], args[1])
    if name in ("datetime.datetime", "datetime.date", "datetime.time"):
        ty = name.split(".")[1]
        names = {"datetime": ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"),
                 "date": ("year", "month", "day"),
                 "time": ("hour", "minute", "second", "microsecond", "tzinfo")}[ty]
        d = dict(zip(names, args))
        d.update(kw)
        tz = d.pop("tzinfo", NONE)
        for k, v in d.items():
            if not num.isint(v):
                cx.raise_("TypeError", "an integer is required")
            lo, hi = num.interval(v, cx.st)
            l, h = DTF[k]
            if k == "day":
                h = 28
            if lo is None or hi is None or lo < l or hi > h:
                if not cx.cond(T("fieldok", (ty,) + tuple(sorted(d.items())), "bool")):
                    cx.raise_("ValueError", f"{k} is out of range")
                break
        for k in ("hour", "minute", "second", "microsecond"):
            if ty != "date":
                d.setdefault(k, C(0))
        t = T("mk" + ty + "_", (tuple(sorted(d.items())), C(tz is not NONE)), ty)
        return t
    if name in ("datetime.datetime.combine",):
        return T("combine", tuple(args), "datetime")
    if name in ("datetime.datetime.fromtimestamp", "datetime.datetime.utcfromtimestamp"):
        _uns(name)
    if name in ("datetime.datetime.fromisoformat", "datetime.date.fromisoformat", "datetime.time.fromisoformat"):
        if not cx.cond(T("isook", (args[0],), "bool")):
            cx.raise_("ValueError", "Invalid isoformat string")
        return T("fromiso", (args[0],), name.split(".")[1])
    if name.startswith(("datetime.datetime.", "datetime.timedelta.", "datetime.date.", "datetime.time.")) and args:
        return method(cx, args[0], name.split(".")[2], args[1:], kw)
    if name == "datetime.timezone":
        if args and isinstance(args[0], C):
            return C(_dt.timezone(args[0].v))
    _uns(f"call {name}")


WIDTH = {"d": 2, "m": 2, "y": 2, "Y": 4, "H": 2, "M": 2, "S": 2, "f": 6}


def strptime(cx, s, fmt):
    if isinstance(fmt, C):
        r = _aligned(cx, s, fmt.v)
        if r is not None:
            return r
        if isinstance(s, T) and s.op == "cat" and isinstance(s.args[-1], C) and fmt.v.endswith(".%f") and \
                s.args[-1].v in (".0", ".00", ".000", ".000000"):
            # a fraction that is written out as zero
            s, fmt = S.cat(list(s.args[:-1])), C(fmt.v[:-3])
    if not cx.cond(T("strptimeok", (s, fmt), "bool")):
        cx.raise_("ValueError", "time data does not match format")
    return T("strptime", (s, fmt), "datetime")


def _k(x):
    return x.v if isinstance(x, C) else x


def _aligned(cx, s, fmt):
    """strptime of a concatenation of formatted calendar fields of one datetime
    whose pieces line up with the directives: the greedy patterns of strptime
    match each full-width piece exactly, so each field is read back."""
    parts = list(s.args) if isinstance(s, T) and s.op == "cat" else [s]
    got = {}
    src = None
    pos = 0
    i = 0
    lit = ""
    while i < len(fmt):
        if fmt[i] != "%":
            if not lit:
                if pos >= len(parts) or not isinstance(parts[pos], C):
                    return None
                lit = parts[pos].v
                pos += 1
            if not lit.startswith(fmt[i]):
                return None
            lit = lit[1:]
            i += 1
            continue
        d = fmt[i + 1]
        i += 2
        if lit or pos >= len(parts):
            return None
        p = parts[pos]
        pos += 1
        if not isinstance(p, T):
            return None
        if d in SIMPLE:
            nm, w = SIMPLE[d]
            x = None
            keep = w
            if p.op == "fmt" and p.args[1] == f"0{w}d":
                x = p.args[0]
            elif d == "f" and p.op == "slice" and isinstance(p.args[0], T) and p.args[0].op == "fmt" and \
                    p.args[0].args[1] == f"0{w}d" and _k(p.args[1]) in (0, None) and isinstance(_k(p.args[2]), int) and \
                    0 < _k(p.args[2]) <= w:
                x, keep = p.args[0].args[0], _k(p.args[2])
            if x is None or not (isinstance(x, T) and x.op == "dtf" and x.args[1] == nm):
                return None
            got[nm] = (x.args[0], 10 ** (w - keep))
        elif d == "y":
            if p.op != "fmt" or p.args[1] != "02d":
                return None
            x = p.args[0]
            if x.op != "mod" or x.args[1] is not C(100) or x.args[0].op != "dtf" or x.args[0].args[1] != "year":
                return None
            got["year2"] = (x.args[0].args[0], 1)
        elif d == "Y":
            if p.op not in ("str", "fmt") or not isinstance(p.args[0], T) or p.args[0].op != "dtf" or \
                    p.args[0].args[1] != "year" or p.op == "fmt" and p.args[1] != "04d":
                return None
            x = p.args[0]
            lo, hi = num.interval(x, cx.st)
            if p.op == "str" and (lo is None or lo < 1000):
                return None
            got["year"] = (x.args[0], 1)
        else:
            return None
    if pos != len(parts) or lit or not got:
        return None
    srcs = {x for x, _ in got.values()}
    if len(srcs) != 1:
        return None
    src = srcs.pop()
    # a day of a real date: always valid, except 29 February in a century year read as yy
    return T("reread", (src, tuple(sorted((k, u) for k, (_, u) in got.items()))), "datetime")


# --------------------------------------------------------------------------
# regular expressions
# --------------------------------------------------------------------------


def re_call(cx, name, args, kw):
    args = [cx.force(a) for a in args]
    if name in ("match", "search", "fullmatch"):
        if not S.isS(args[1]):
            if isinstance(args[1], T) and args[1].ty == "any":
                _uns("re on unknown")
            cx.raise_("TypeError", "expected string or bytes-like object")
        if isinstance(args[0], C) and len(args) == 2 and not kw:
            d = regex.decide(name, args[0].v, args[1])
            if d is not None:
                return T("match", (name, args[0], args[1]), "match") if d else NONE
        if cx.cond(T("rematch", (name, args[0], args[1]), "bool")):
            return T("match", (name, args[0], args[1]), "match")
        return NONE
    if name in ("split", "findall"):
        ty = "bytes" if S.isbytes(args[1]) else "str"
        ms = kw.get("maxsplit", args[2] if len(args) > 2 else C(0))
        if name == "split" and isinstance(args[0], C) and isinstance(ms, C) and S.isS(args[1]):
            ps = regex.split(args[0].v, args[1], ms.v)
            if ps is not None:
                return cx.newlist(ps)
        tail = T("re" + name, (args[0], args[1]) + tuple(sorted(kw.items())), ty)
        if name == "split":
            return cx.st.alloc("ulist", None, [], tail)
        return cx.st.alloc("ulist", None, [], tail)
    if name == "sub":
        return T("resub", tuple(args), "str" if S.isstr(args[2]) else "bytes")
    if name == "compile":
        return Wrap("regex", args[0])
    if name == "escape":
        return T("reescape", tuple(args), "str")
    _uns(f"re.{name}")


def re_method(cx, o, name, args, kw):
    if o.kind == "regex":
        from .builtins_ import call_builtin
        return call_builtin(cx, "re." + name, [o.args[0]] + args, kw)
    # a match of constants
    import re
    m = getattr(re, o.args[2].v)(o.args[0].v, o.args[1].v)
    try:
        r = getattr(m, name)(*[a.v for a in args])
    except IndexError as e:
        cx.raise_("IndexError", str(e))
    return cx.lift(r)


def match_group(cx, o, k):
    ty = "bytes" if S.isbytes(o.args[2]) else "str"
    return T("group", (o, k), ty)


def match_method(cx, o, name, args, kw):
    if name == "group":
        return match_group(cx, o, args[0] if args else C(0))
    if name in ("start", "end"):
        return T("m" + name, (o,) + tuple(args), "int")
    _uns(f"match.{name}")
