import re, functools, operator, itertools, bisect, string
from collections import namedtuple, deque, OrderedDict, defaultdict, Counter, ChainMap
from dataclasses import dataclass, field
from enum import Enum, IntEnum
from functools import partial, lru_cache, reduce, wraps, cached_property
from contextlib import contextmanager, suppress
from datetime import datetime, timedelta, timezone, time, date
from math import *
from typing import NamedTuple

Pair = namedtuple("Pair", "a b")
class NT(NamedTuple):
    x: str
    y: int = 3
@dataclass(frozen=True)
class FD:
    a: str
    b: int = 1
@dataclass
class DC:
    a: str
    b: int = 2
    c: list = field(default_factory=list)
class En(Enum):
    A = "x"
    B = "y"
class IE(IntEnum):
    ONE = 1
    TWO = 2
class Base:
    kind = "base"
    def __init__(self, w): self.w = w
    def name(self): return "b" + self.w
    def __len__(self): return 2
    def __eq__(self, o): return isinstance(o, Base) and o.w == self.w
    def __hash__(self): return 1
    def __getitem__(self, i): return (self.w, "z")[i]
    def __contains__(self, v): return v == self.w
    def __iter__(self):
        yield self.w
        yield "q"
    def __call__(self, v): return self.w + v
    def __bool__(self): return self.w != ""
    def __str__(self): return "S" + self.w
    def __repr__(self): return f"Base({self.w!r})"
class Derived(Base):
    kind = "derived"
    def name(self): return "d" + super().name()
class Err(Exception):
    def __init__(self, m, code=0):
        super().__init__(m)
        self.code = code
class Slots:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
class Lazy:
    def __init__(self, w): self.w = w
    @cached_property
    def up(self): return self.w + "?"
    def __getattr__(self, n):
        if n == "zz":
            return self.w
        raise AttributeError(n)
@contextmanager
def _cm(l, v):
    l.append(v)
    try:
        yield v
    finally:
        l.append("end")
def _deco(f):
    @wraps(f)
    def g(*a, **k):
        return (f(*a, **k), "deco")
    return g
@_deco
def _decorated(w): return w
@lru_cache(maxsize=None)
def _cached(w): return w + "c"
def _rec(n): return 0 if n <= 0 else 1 + _rec(n - 1)
_TABLE = {"N": lambda v: v, "S": lambda v: -v}
_G = {"k": 0}

def c1(w): return Pair(w, 1).a, Pair(a=w, b=2)._replace(b=3).b
def c1b(w): return tuple(Pair(w, 1)), Pair(w, 1)[0], Pair(w,1) == (w,1), FD(w).a, FD(w) == FD(w, 2), En['B'].value, [e.name for e in En][0]
def c2(w):
    a, b = NT(w)
    return a, b, NT(w, 4).y
def c3(w): return DC(w).a, DC(w, 3).b, len(DC(w).c), DC(w) == DC(w)
def c4(s): return s == En.A.value, En.B.name, En("x") is En.A
def c5(u): return u == IE.TWO, IE.ONE + 1
def c6(w): return Derived(w).name(), Derived.kind, len(Derived(w)), Base(w) == Derived(w)
def c7(w): return Base(w)[0], "q" in Base(w), tuple(Base(w)), Base(w)("x"), bool(Base(w)), str(Base(w)), f"{Base(w)}", isinstance(Derived(w), Base)
def c8(s):
    try:
        if s == "":
            raise Err("bad", 7)
        return "ok"
    except Err as e:
        return e.code, str(e), e.args[0]
def c9(w): return Slots(w).v
def c10(w): return Lazy(w).up, Lazy(w).zz, getattr(Lazy(w), "no", 5)
def c11(w):
    l = []
    with _cm(l, w) as v:
        l.append(v)
    return tuple(l)
def c12(w): return _decorated(w)
def c13(w): return _cached(w), _cached(w)
def c14(): return _rec(4)
def c15(s, n):
    f = _TABLE.get(s)
    return None if f is None else f(n)
def c16(w): return partial(lambda a, b: a + b, w)("x"), operator.itemgetter(1)([1, w]), operator.attrgetter("w")(Base(w))
def c17(w):
    d = deque([w, "a"], maxlen=2)
    d.append("b")
    d.appendleft("c")
    return tuple(d)
def c18(w):
    d = defaultdict(list)
    d["a"].append(w)
    return tuple(d["a"]), tuple(d["b"])
def c19(w):
    d = OrderedDict()
    d["x"] = w
    d["y"] = 1
    return tuple(d), tuple(d.values()), next(iter(d))
def c20(u): return bisect.bisect([1, 5, 10], u)
def c21(w): return tuple(itertools.zip_longest(["a"], [w, "c"], fillvalue="-"))
def c22(w): return tuple(itertools.takewhile(lambda v: v != "N", [w, "N", "x"]))
def c23(w): return tuple(itertools.product([w], "ab"))
def c24(w): return tuple(itertools.accumulate([1, 2, 3])), tuple(itertools.repeat(w, 2)), tuple(itertools.compress([w, "b"], [0, 1]))
def c25(w): return tuple(functools.reduce(lambda a, b: a + [b], [w, "b"], []))
def c26(s): return string.digits.find(s[:1]), s[:1] in string.ascii_uppercase
def c27(w):
    d = {"a": w, "b": 2}
    return tuple(sorted(d)), tuple(k for k, v in d.items() if v == 2), "a" in d, list(d) == ["a", "b"], {**d}["a"], d | {"c": 1} == d
def c28(w):
    d = dict(a=w)
    for k in list(d):
        d[k + "x"] = d.pop(k)
    return tuple(d.items())
def c29(w, w2):
    out = []
    for i, (a, b) in enumerate(zip((w, w2), ("p", "q"))):
        out.append(f"{i}{a}{b}")
    return ",".join(out)
def c30(w, w2):
    i, out = 0, []
    xs = [w, w2, "z"]
    while i < len(xs):
        x = xs[i]
        i += 1
        if not x:
            continue
        out.append(x)
        if len(out) == 2:
            break
    else:
        out.append("!")
    return tuple(out)
def c31(w):
    _G["k"] = w
    return _G["k"]
def c32(n):
    global _CNT
    _CNT = n
    return _CNT + 1
def c33(w, *, k="d"): return w + k
def c34(w):
    def outer():
        x = w
        def inner():
            return x + "i"
        return inner
    return outer()()
def c35(w): return (lambda *a, **k: (a, tuple(k.items())))(w, 1, z=w)
def c36(s):
    try:
        try:
            return int(s)
        except ValueError as e:
            raise KeyError("k") from e
        finally:
            _G["fin"] = 1
    except KeyError as e:
        return type(e.__cause__).__name__, e.__class__.__name__
def c37(s):
    for i in range(2):
        try:
            v = int(s)
        except ValueError:
            continue
        finally:
            _G["q"] = i
        return v + i
    return "none"
def c38(w, w2): return [w, w2] == [w2, w], (w, 1) < (w, 2), [w] + [w2] == [w, w2], [w] * 2
def c39(w): return [[w, i] for i in range(2) if i], {i: w for i in range(2)}[1], {w for _ in range(2)} == {w}
def c40(w):
    m = re.match(r"(\d+)\.(\d+)", "12.5" + w)
    return m.group(1), m[2], m.groups()
def c41(w): return re.sub(r"[:-]", "", "12:30-" + "x"), re.split(r"[,*]", "a,b*c"), re.findall(r"\d", "a1b2")
def c42(w): return "%-5s|%3d|%05.1f" % (w, 5, 2.25), "{0}{1}{0}".format(w, 2), "{a:>4}".format(a="x"), f"{w:<1}|{5:^5}|{w!s}"
def c43(w): return ",".join(map(str, [w, 1, 2.5, None])), str([1, "a"]), str({"a": 1}), str((1,)), repr("a'b")
def c44(u): return divmod(u, 16), u.bit_count() if False else u % 2, (u >> 4, u & 15), (u << 2) // 4 == u, int(f"{u}"), int(str(u), 10) + 1
def c45(f): return isnan(f), isinf(f), f.is_integer(), fabs(f), abs(-f), max(f, 0.0), float(str(f)) == f
def c46(p): return floor(p), p - floor(p), int(p * 60) % 60, modf(p)[1], trunc(p)
def c47(w, w2): return not w and not w2, w and w2, w or w2, (w if w else w2), bool(w) != bool(w2)
def c48(w):
    it = iter([w, "b"])
    a = next(it)
    rest = list(it)
    return a, tuple(rest)
def c49(w):
    def g():
        x = yield w
        yield x
    k = g()
    return next(k), k.send("s")
def c50(w):
    def g():
        yield from [w, "b"]
        return
    return tuple(g())
def c51(n, n2):
    assert True
    return n if n == n2 else (n2 if n < n2 else n), n is n2 if False else 0
def c52(w):
    x = y = [w]
    y += ["a"]
    z = x[:]
    z.append("b")
    return tuple(x), tuple(z), x is y
def c53(w): return type(w).__name__, type(w) is str, isinstance(w, (bytes, str)), callable(len), issubclass(Derived, Base)
def c54(w):
    a = Base(w)
    a.extra = 1
    del a.extra
    return vars(a) == {"w": w}, hasattr(a, "extra"), a.__class__.__name__, a.__dict__["w"]
def c55(s): return s.split(",", 2)[:2], s.rstrip("0").rstrip("."), s.partition(".")[2][:3].ljust(3, "0")
def c56(s): return s[::-1], s[::2] if False else "", "".join(reversed(s[:0]))
def c57(d, d2): return "".join([d, d2]), (d + d2).zfill(4), int(d2 + d), [int(c) for c in d + d2], sum(int(c) for c in d + d2)
def c58(ti): return ti.isoformat() == "x", time(ti.hour, ti.minute), ti < time(12), ti.tzinfo
def c59(da): return da.isoformat(), da.weekday() < 7, da.toordinal() - date(1970, 1, 1).toordinal(), da + timedelta(days=1), da - date(1980, 1, 6)
def c60(dt): return dt.timestamp() >= 0, dt.isoweekday() > 0, dt.date().year, dt.time().hour, (dt + timedelta(hours=1) - dt).seconds, dt.astimezone(timezone.utc) == dt
def c61(dt): return datetime.combine(dt.date(), dt.time(), timezone.utc) == dt, dt.timetz().hour, dt.replace(hour=0, minute=0)
def c62(u):
    td = timedelta(milliseconds=u)
    return td.days, td.seconds, td / timedelta(seconds=1), td // timedelta(seconds=2), td % timedelta(seconds=3), -td, abs(-td) == td, td > timedelta(0), td * 2
def c63(b): return b[:1] == b"$", b.startswith(b"$"), b.find(b"*", 1), b[1:3] + b"x", len(b), bytes([65]) + b, b.replace(b"\r", b""), b.upper()
def c64(b): return b.endswith((b"\n", b"\r")), b.split(b"\n")[0], b.lstrip(b"$"), bytearray(b)[:1], b.isdigit(), int(b[:1].isdigit())
def c65(n): return float(n) / 3, n / 2 * 2 == n, -n // 2, abs(n) % 5, n ** 2 if abs(n) < 100 else 0, round(n / 7, 2), int(n / 3)
def c66(n): return f"{n:5d}|{n:<5}|{n:x}" if n >= 0 else "neg", f"{n:_}", str(-n), str(abs(n)).zfill(7)
def c67(f): return f"{f:e}"[:1], f"{f:.0f}", f"{f:g}" == "1", f"{f:+.2f}", str(round(f, 2)), f"{round(f, 3):.5f}"
def c68(x):
    if isinstance(x, bytes):
        return "b"
    elif isinstance(x, str):
        return "s" + x
    elif x is None:
        return None
    return "o"
def c69(x):
    match x:
        case str(): return "s"
        case int() | float(): return "n"
        case None: return "none"
        case _: return "o"
def c70(x):
    try:
        return x.strip()
    except AttributeError:
        return "attr"
def c71(x):
    try:
        return f"{x:.2f}"
    except (ValueError, TypeError):
        return "bad"
def c72(x):
    try:
        return x.strftime("%d")
    except (AttributeError, TypeError):
        return ""
def c73(x):
    try:
        return abs(x)
    except TypeError:
        return "t"
def c74(x): return x == 1, x != "", x in ("", None), not x
def c75(x):
    try:
        return x[0:2]
    except TypeError:
        return "t"
def c76(x):
    try:
        return round(x, 2)
    except TypeError:
        return "t"
def c77(x):
    try:
        return x * 2
    except TypeError:
        return "t"
def c78(x):
    try:
        return ",".join(x)
    except TypeError:
        return "t"
def c79(x):
    try:
        return "a" + x
    except TypeError:
        return "t"
def c80(x):
    try:
        return {1: "one"}[x]
    except (KeyError, TypeError):
        return "k"
