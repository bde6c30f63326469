"""Separating valuations of terms.

Two different normal forms may still denote the same function.  Before a
difference between an expected and an inferred term is reported, a valuation of
the atoms is searched that satisfies the facts of the abstract path and gives
the two terms different values.  Only terms are evaluated here - library
operations applied to sample values; no code of the repository is run."""

from __future__ import annotations

import datetime as _dt
import math
import random
import re

from .values import V, C, T, Tup, Ref, Phi, Fn, Bound, Bi, Cls, Wrap, atoms_of


class Undef(Exception):
    pass


class Nosep(Undef):
    """part of a text at a separator that it has not"""


class Err(Exception):
    """the operation itself raises"""


E1 = _dt.datetime(1, 1, 1)
US = _dt.timedelta(microseconds=1)

STR_POOL = ["", "0", "1", "2", "3", "4", "7", "9", "10", "12", "01", "08", "13", "25", "31", "60", "99", "100", "180", "360",
            "-1", "-5", "+3", "0.0", "1.5", "3.75", "-2.25", "12.0", "1e3", "A", "B", "N", "S", "E", "W", "V",
            "M", "R", "K", "T", "n", "s", "w", "OK", "ERROR", "ok", "4404.14036", "12118.85961", "0000.00000", "5327.12345",
            "00256.776689", "17959.99999", "9000.00", "-4404.14036", "404.1", "123", "1234", "12345.6",
            "092751.00", "092751", "235959.99", "092751.123", "120735", "311299", "290224", "12072035", "FF", "0x1F",
            "GP", "GN", "abc", "é", " 5", "1_0", "nan", "inf", "00", "05", "006", "X", "[5", "7]", "[a]", "z9", "Q!", "3F", "ab", "1.123456789012345",
            "0.000000000123", "123456789012.5", "98765432109876543210", "0.12345678901234567", "7.0000000000000009", "00-5.0", "000-5.50", "-00200.5", "½", "٣"]


ANY_POOL = [None, True, False, 0, 1, -7, 1.5, "", "7", "text", b"7", b""]


def _ok(s, p):
    if len(s) < p.minlen or p.maxlen is not None and len(s) > p.maxlen:
        return False
    if p.incl is not None and any(c not in p.incl for c in s):
        return False
    if any(c in p.excl for c in s):
        return False
    if p.extra == "ascii" and any(ord(c) > 127 for c in s):
        return False
    return True


def sample(atom, rng, hints):
    p = atom.props
    ty = atom.ty
    if ty in ("str", "bytes"):
        for _ in range(60):
            r = rng.random()
            if r < 0.35 and hints:
                s = rng.choice(hints)
                if isinstance(s, str) and len(s) == 1 and not s.isalnum() and rng.random() < 0.3:  # a long list
                    s = s.join(rng.choice(("", "a", "7", "1.5")) for _ in range(rng.randint(2, 24)))
                k = rng.random()
                if k < 0.15:
                    s = s + "".join(rng.choice("bX4709.") for _ in range(rng.randint(1, 4)))
                elif k < 0.45:   # the texts asked about inside other text
                    for _ in range(rng.randint(1, 3)):
                        s = rng.choice(("", "a", "7", "x1", rng.choice(hints))) + s + rng.choice(("", "b", "4", rng.choice(hints)))
            elif r < 0.8 and (p.minlen <= 1 or p.maxlen is None or p.maxlen > 1):
                s = rng.choice(STR_POOL)
                if p.maxlen is not None:
                    s = s[:p.maxlen]
            else:
                n = rng.randint(p.minlen, p.maxlen if p.maxlen is not None else p.minlen + 6)
                al = sorted(p.incl) if p.incl is not None else \
                    [chr(c) for c in range(32, 127) if chr(c) not in p.excl] + ([] if ty == "bytes" else list("é߀\x00\t\xa0€\U0001f6f0"))
                al = [c for c in al if ord(c) < 256 or ty == "str"]
                if not al:
                    continue
                s = "".join(rng.choice(al) for _ in range(n))
            if isinstance(s, bytes):
                s = s.decode("latin1")
            if _ok(s, p):
                if ty == "str":
                    return s
                b = s.encode("latin1") if all(ord(c) < 256 for c in s) else s.encode()
                if _ok(b.decode("latin1"), p):
                    return b
        raise Undef("no sample for " + repr(atom))
    if ty == "int":
        lo = p.lo if p.lo is not None else -10**6
        hi = p.hi if p.hi is not None else 10**6
        hs = [h for h in hints if isinstance(h, int) and lo <= h <= hi]
        if hs and rng.random() < 0.4:
            return rng.choice(hs)
        r = rng.random()
        if r < 0.2:
            return rng.choice([lo, hi])
        if r < 0.4:
            return max(lo, min(hi, rng.randint(-3, 20)))
        return rng.randint(int(lo), int(hi))
    if ty == "float":
        lo = p.lo if p.lo is not None else -1e6
        hi = p.hi if p.hi is not None else 1e6
        hs = [h for h in hints if isinstance(h, (int, float)) and lo <= h <= hi]
        r = rng.random()
        if hs and r < 0.3:
            return float(rng.choice(hs))
        if r < 0.45:
            return float(rng.choice([lo, hi, max(lo, min(hi, 0.0))]))
        if r < 0.6:
            return float(max(lo, min(hi, round(rng.uniform(lo, hi)))))
        return rng.uniform(lo, hi)
    if ty == "bool":
        return rng.random() < 0.5
    if ty == "datetime":
        lo = p.lo if p.lo is not None else (_dt.datetime(1980, 1, 6) - E1) // US
        hi = p.hi if p.hi is not None else (_dt.datetime(2040, 1, 1) - E1) // US
        n = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo, hi) // 1000000 * 1000000,
                        rng.randint(lo, hi) // 1000 * 1000])
        d = E1 + _dt.timedelta(microseconds=max(lo, min(hi, n)))
        return d.replace(tzinfo=_dt.timezone.utc) if p.aware or p.aware is None and rng.random() < 0.3 else d
    if ty == "date":
        return _dt.date(rng.randint(p.lo or 1970, p.hi or 2067), rng.randint(1, 12), rng.randint(1, 28))
    if ty == "time":
        return _dt.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 10000, 123456, 990000, 999999]),
                        tzinfo=_dt.timezone.utc if p.aware is None and rng.random() < 0.3 else None)
    if ty == "any":
        return rng.choice(ANY_POOL + [h for h in hints if isinstance(h, (int, float, str))])
    raise Undef("atom of type " + ty)


def ev(v, val, memo):
    if isinstance(v, C):
        return v.v
    if isinstance(v, Tup):
        return tuple(ev(x, val, memo) for x in v.items)
    if isinstance(v, Phi):
        raise Undef("phi")
    if not isinstance(v, T):
        if isinstance(v, (Bi, Cls, Fn, Wrap)):
            return ("obj", v)
        raise Undef(type(v).__name__)
    r = memo.get(v)
    if r is None:
        try:
            r = (0, _ev(v, val, memo))
        except (Undef, Err) as e:
            r = (1, e)
        except RecursionError:
            r = (1, Undef("deep"))
        except Exception as e:  # a library operation outside its domain
            r = (1, Err(type(e).__name__))
        memo[v] = r
    if r[0]:
        raise r[1]
    return r[1]


def _s(x):
    return x


def _chk(x, *tys):
    if not isinstance(x, tys):
        raise Undef("type")
    return x


def _ev(v, val, memo):
    o, a = v.op, v.args
    e = lambda x: ev(x, val, memo) if isinstance(x, V) else x  # noqa: E731
    if o == "atom":
        if v not in val:
            raise Undef("atom")
        return val[v]
    if o in ("inkeys", "inset*"):
        return e(a[0]) in [e(k) for k in a[1].items]
    if o == "or":
        for d in a:
            try:
                if all(bool(e(t)) == p for t, p in d if t.op not in SKIP):
                    return True
            except Err:
                pass
        return False
    if o == "fold":
        seq, acc = e(a[0]), e(a[1])
        for x in seq:
            m = {T("foldacc", (t,), t): (0, acc) for t in ("int", "str", "bytes", "float", "bool")}
            m.update({T("foldelem", (t,), t): (0, x) for t in ("int", "str", "bytes")})
            acc = ev(a[2], val, m)
        return acc
    if o == "cat":
        ps = [e(x) for x in a]
        return b"".join(ps) if v.ty == "bytes" else "".join(ps)
    if o == "not":
        return not e(a[0])
    if o == "eq":
        return e(a[0]) == e(a[1])
    if o == "lt" or o == "slt":
        return e(a[0]) < e(a[1])
    if o == "le" or o == "sle":
        return e(a[0]) <= e(a[1])
    if o == "lin":
        return a[0] + sum(c * e(t) for t, c in a[1])
    if o == "b2i":
        return int(e(a[0]))
    if o == "xor":
        r = a[0]
        for t in a[1]:
            r ^= e(t)
        return r
    if o in ("iadd", "fadd"):
        return e(a[0]) + e(a[1])
    if o == "fsub":
        return e(a[0]) - e(a[1])
    if o in ("fmul", "imul"):
        return e(a[0]) * e(a[1])
    if o == "fdiv":
        return e(a[0]) / e(a[1])
    if o in ("floordiv", "ffloordiv"):
        return e(a[0]) // e(a[1])
    if o in ("mod", "fmod"):
        return e(a[0]) % e(a[1])
    if o == "pow":
        return e(a[0]) ** e(a[1])
    if o == "bitand":
        return e(a[0]) & e(a[1])
    if o == "bitor":
        return e(a[0]) | e(a[1])
    if o == "shl":
        return e(a[0]) << e(a[1])
    if o == "shr":
        return e(a[0]) >> e(a[1])
    if o == "neg":
        return -e(a[0])
    if o == "abs":
        return abs(e(a[0]))
    if o == "min":
        return min(e(x) for x in a)
    if o == "max":
        return max(e(x) for x in a)
    if o == "round":
        x = e(a[0])
        n = e(a[1]) if len(a) > 1 else None
        return round(x) if n is None else round(x, n)
    if o in ("toint", "trunc"):
        return int(e(a[0]))
    if o == "floor":
        return math.floor(e(a[0]))
    if o == "ceil":
        return math.ceil(e(a[0]))
    if o == "tofloat":
        return float(e(a[0]))
    if o == "math":
        return getattr(math, a[0])(*[e(x) for x in a[1:]])
    if o == "float":
        return float(e(a[0]))
    if o == "int":
        return int(e(a[0]), *[e(x) for x in a[1:]]) if isinstance(e(a[0]), (str, bytes)) else int(e(a[0]))
    if o == "intok":
        try:
            int(e(a[0]), *a[1:])
            return True
        except (ValueError, TypeError, OverflowError):
            return False
    if o == "floatok":
        try:
            float(e(a[0]))
            return True
        except (ValueError, TypeError, OverflowError):
            return False
    if o == "finite":
        return math.isfinite(e(a[0]))
    if o == "str":
        return str(e(a[0]))
    if o == "repr":
        return repr(e(a[0]))
    if o == "fmt":
        return format(e(a[0]), e(a[1]))
    if o == "ord":
        x = e(a[0])
        return ord(x) if len(x) == 1 else _err()
    if o == "chr":
        return chr(e(a[0]))
    if o == "byte":
        return bytes([e(a[0])])
    if o == "len":
        x = e(a[0])
        return len(x)
    if o == "chars":
        return e(a[0])
    if o == "charat":
        s, i = e(a[0]), e(a[1])
        return s[i:i + 1] if -len(s) <= i < len(s) and i >= 0 else s[i:][:1]
    if o == "slice":
        return e(a[0])[slice(e(a[1]), e(a[2]))]
    if o == "slice3":
        return e(a[0])[slice(e(a[1]), e(a[2]), e(a[3]))]
    if o == "upper":
        return e(a[0]).upper()
    if o == "lower":
        return e(a[0]).lower()
    if o in ("strip", "lstrip", "rstrip"):
        x = e(a[0])
        ch = e(a[1]) if len(a) > 1 else None
        if isinstance(x, bytes) and isinstance(ch, str):
            ch = ch.encode("latin1")
        return getattr(x, o)(ch)
    if o == "replace":
        x = e(a[0])
        p = [e(y) for y in a[1:]]
        if isinstance(x, bytes):
            p = [y.encode("latin1") if isinstance(y, str) else y for y in p]
        return x.replace(*p)
    if o == "split":
        x, y = e(a[0]), a[1] if isinstance(a[1], (str, type(None))) else e(a[1])
        if isinstance(x, bytes) and isinstance(y, str):
            y = y.encode("latin1")
        return x.split(y, a[2])
    if o == "find":
        x, y = e(a[0]), e(a[1])
        if isinstance(x, bytes) and isinstance(y, str):
            y = y.encode("latin1")
        return x.find(y)
    if o in ("contains", "startswith", "endswith"):
        x, y = e(a[0]), e(a[1])
        if isinstance(x, bytes) and isinstance(y, str):
            y = y.encode("latin1")
        return y in x if o == "contains" else getattr(x, o)(y)
    if o == "inset":
        x = e(a[0])
        if isinstance(x, bytes):
            x = x.decode("latin1")
        return len(x) == 1 and x in a[1]
    if o in ("before", "after", "rbefore", "rafter"):
        x, y = e(a[0]), e(a[1])
        if isinstance(x, bytes) and isinstance(y, str):
            y = y.encode("latin1")
        if y not in x:
            raise Nosep("separator")
        return {"before": lambda: x.split(y, 1)[0], "after": lambda: x.split(y, 1)[1],
                "rbefore": lambda: x.rsplit(y, 1)[0], "rafter": lambda: x.rsplit(y, 1)[1]}[o]()
    if o == "enc":
        return e(a[0]).encode(a[1])
    if o == "dec":
        return e(a[0]).decode(a[1])
    if o == "rfind":
        x, y = e(a[0]), e(a[1])
        return x.rfind(y.encode("latin1") if isinstance(x, bytes) and isinstance(y, str) else y)
    if o == "count" and len(a) == 2:
        x, y = e(a[0]), e(a[1])
        return x.count(y.encode("latin1") if isinstance(x, bytes) and isinstance(y, str) else y)
    if o == "rematch":
        x, y = e(a[1]), e(a[2])
        return getattr(re, e(a[0]))(x, y) is not None
    if o == "isinstance" and a[1] in KINDS:
        return isinstance(e(a[0]), KINDS[a[1]])
    if o == "truth":
        return bool(e(a[0]))
    if o == "sized":
        return hasattr(e(a[0]), "__len__")
    if o == "isnum":
        return isinstance(e(a[0]), (int, float))
    if o == "hasattr":
        return hasattr(e(a[0]), a[1])
    if o == "fmtok":
        try:
            format(e(a[0]), e(a[1]))
            return True
        except (ValueError, TypeError):
            return False
    if o == "cmpok":
        try:
            e(a[0]) < e(a[1])
            return True
        except TypeError:
            return False
    if o in ("cmp<", "cmp<="):
        try:
            return e(a[0]) < e(a[1]) if o == "cmp<" else e(a[0]) <= e(a[1])
        except TypeError:
            _err()
    if o == "bitlen":
        return e(a[0]).bit_length()
    if o == "byteshex":
        return e(a[0]).hex()
    if o in ("ljust", "rjust", "center"):
        return getattr(e(a[0]), o)(*[e(y) for y in a[1:]])
    if o == "encodable":
        try:
            e(a[0]).encode(a[1])
            return True
        except UnicodeEncodeError:
            return False
    if o == "decodable":
        try:
            e(a[0]).decode(a[1])
            return True
        except UnicodeDecodeError:
            return False
    if o in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "isupper", "islower", "isspace", "isascii"):
        return getattr(e(a[0]), o)()
    if o == "zfill":
        return e(a[0]).zfill(e(a[1]))
    if o == "strptimeok":
        try:
            _dt.datetime.strptime(e(a[0]), e(a[1]))
            return True
        except ValueError:
            return False
    if o == "strptime":
        return _dt.datetime.strptime(e(a[0]), e(a[1]))
    if o == "date":
        return e(a[0]).date()
    if o == "time":
        return e(a[0]).time()
    if o == "dt":
        d = E1 + _dt.timedelta(microseconds=e(a[0]))
        return d.replace(tzinfo=_dt.timezone.utc) if a[1].v else d
    if o == "dtz":
        return (E1 + _dt.timedelta(microseconds=e(a[0]))).replace(tzinfo=a[1].v)
    if o == "td":
        return _dt.timedelta(microseconds=e(a[0]))
    if o == "usec":
        x = e(a[0])
        if isinstance(x, _dt.timedelta):
            return x // US
        return (x.replace(tzinfo=None) - (x.utcoffset() or _dt.timedelta(0)) - E1) // US
    if o == "total_seconds":
        return e(a[0]) / 10**6
    if o in ("mktime_", "mkdate_", "mkdatetime_"):
        return getattr(_dt, o[2:-1])(**{k: e(x) for k, x in a[0]}, **({"tzinfo": _dt.timezone.utc} if a[1] is C(True) else {}))
    if o == "fieldok":
        try:
            getattr(_dt, a[0])(**{k: e(x) for k, x in a[1:]})
            return True
        except (ValueError, OverflowError):
            return False
    if o == "dtf":
        r = getattr(e(a[0]), a[1])
        return r() if callable(r) else r
    if o == "dtrange":
        return 0 <= e(a[0]) <= 315537897599999999
    if o == "aware":
        return e(a[0]).tzinfo is not None
    if o == "strftime":
        return e(a[0]).strftime(a[1])
    if o == "reread":
        x = e(a[0])
        d = dict(a[1])
        g = {"year": 1900, "month": 1, "day": 1, "hour": 0, "minute": 0, "second": 0, "microsecond": 0}
        for k, u in d.items():
            if k == "year2":
                y = x.year % 100
                g["year"] = y + (1900 if y >= 69 else 2000)
            else:
                g[k] = getattr(x, k) // u * u
        return _dt.datetime(**g)
    if o == "isintegral":
        return float(e(a[0])).is_integer()
    if o == "finite":
        return math.isfinite(e(a[0]))
    if o == "splititem":
        raise Undef(o)
    if o == "hexs":
        return hex(e(a[0]))
    if o == "isinstance":
        raise Undef(o)
    raise Undef(o)


def _err():
    raise Err("domain")


SKIP = {"nd", "logenabled", "truth"}


KINDS = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes, "list": list, "tuple": tuple, "dict": dict, "bytearray": bytearray,
         "complex": complex, "set": set, "object": object}


def hold(flog, val, memo):
    """do the facts hold under the valuation?  Undef when a fact can't be evaluated"""
    for t, p in flog:
        if t.op == "truth":
            try:
                if bool(ev(t.args[0], val, memo)) != p:
                    return False
            except (Undef, Err):
                pass
            continue
        if t.op in SKIP:
            continue
        try:
            r = bool(ev(t, val, memo))
        except (Err, Nosep):
            return False
        if r != p:
            return False
    return True


def hints_of(terms):
    h = []
    strong = []   # texts compared with, as against keys of tables
    for t in terms:
        st = [t]
        n = 0
        while st and n < 4000:
            x = st.pop()
            n += 1
            if isinstance(x, C):
                if isinstance(x.v, (str, bytes)) and len(x.v) < 40:
                    h.append(x.v if isinstance(x.v, str) else x.v.decode("latin1"))
                elif isinstance(x.v, (int, float)) and not isinstance(x.v, bool):
                    h.append(x.v)
                    h.append(x.v + 1)
                    h.append(x.v - 1)
                    h.append(str(x.v))
            elif isinstance(x, T):
                st.extend(y for y in x.args if isinstance(y, V))
                if x.op == "eq":
                    strong.extend(y.v for y in x.args if isinstance(y, C) and isinstance(y.v, str) and 0 < len(y.v) < 40)
                if x.op == "or":
                    st.extend(t for d in x.args for t, _ in d)
                if x.op == "lin":
                    st.extend(y for y, _ in x.args[1])
                if x.op in ("replace", "strip", "lstrip", "rstrip", "before", "after", "split"):
                    for y in x.args[1:]:
                        if isinstance(y, str):
                            h.append(y)
                            h.extend(y)
                if x.op == "inset":
                    h.extend(x.args[1])
            elif isinstance(x, Tup):
                st.extend(x.items)
            elif isinstance(x, Phi):
                for g, y in x.alts:
                    st.append(y)
                    st.extend(t for t, _ in g)
    h = list(dict.fromkeys(h))
    strong = list(dict.fromkeys(strong))[:40]
    return h + strong * (len(h) // (2 * len(strong)) if strong else 0)


def lin_atoms(v, acc):
    return atoms_of2([v], acc)


def atoms_of2(vs, acc=None):
    acc = set() if acc is None else acc
    st = list(vs)
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, T):
            if x.op == "atom":
                acc.add(x)
            else:
                st.extend(y for y in x.args if isinstance(y, (V, tuple)))
        elif isinstance(x, Tup):
            st.extend(x.items)
        elif isinstance(x, Phi):
            for g, y in x.alts:
                st.append(y)
                st.extend(t for t, _ in g)
    return acc


def values(v, val, memo):
    """possible values of v under a valuation (several if guards overlap)"""
    if isinstance(v, Phi):
        out = []
        for g, y in v.alts:
            if all(bool(ev(t, val, memo)) == p for t, p in g if t.op not in SKIP):
                out.extend(values(y, val, memo))
        return out
    return [ev(v, val, memo)]


def differ(x, y):
    if isinstance(x, bool) != isinstance(y, bool):
        return True
    if type(x) is not type(y) and not (isinstance(x, (int, float)) and isinstance(y, (int, float))):
        return True
    if isinstance(x, (int, float)) and type(x) is not type(y):
        return True
    if isinstance(x, float):
        if x != x and y != y:
            return False
        return not (x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y)))
    if isinstance(x, tuple):
        return len(x) != len(y) or any(differ(p, q) for p, q in zip(x, y))
    return x != y


def reads(v):
    """is the value a number read back from a text of another, without arithmetic that rounds?"""
    while isinstance(v, T) and v.op in ("float", "str", "fmt", "strip", "repr", "round"):
        if v.op == "float":
            n = v.args[0]
            while isinstance(n, T) and n.op in ("float", "str", "fmt", "strip", "repr", "round"):
                n = n.args[0]
            return isinstance(n, T) and n.op in ("atom", "int")
        v = v.args[0]
    return False


def exactly(a, b):
    """how to tell the values apart: numbers copied through texts must be the same to the last bit"""
    if isinstance(a, T) and isinstance(b, T) and (a.op == "atom" and reads(b) or b.op == "atom" and reads(a) or
                                                  b.op == "float" and b.args[0].op == "atom" and reads(a)):
        return lambda x, y: differ(x, y) or isinstance(x, float) and isinstance(y, float) and x == x and x != y
    return differ


def nudge(at, fs, val, rng, hints):
    """move a number or time to where the equations about it hold, following the slope of their terms"""
    p = at.props
    if at.ty not in ("int", "datetime") or p.lo is None or p.hi is None:
        return False
    eqs = [t for t, pol in fs if pol and t.op == "eq" and isinstance(t.args[0], T) and isinstance(t.args[1], C) and type(t.args[1].v) is int]
    if not eqs:
        return False

    def put(x):
        if at.ty == "int":
            return x
        d = E1 + _dt.timedelta(microseconds=x)
        return d.replace(tzinfo=_dt.timezone.utc) if p.aware or p.aware is None and rng.random() < 0.3 else d

    def f(t, x):
        return ev(t, {at: put(x)}, {})
    for _ in range(40):
        x = rng.randint(p.lo, p.hi)
        for t in eqs * 3:
            y, c, m = t.args[0], t.args[1].v, 0
            if y.op == "mod" and isinstance(y.args[1], C):
                y, m = y.args[0], y.args[1].v
            try:
                d = max(1, (p.hi - p.lo) // 7)
                x2 = x + d if x + d <= p.hi else x - d
                y1, y2 = f(y, x), f(y, x2)
                if not isinstance(y1, int) or not isinstance(y2, int) or y1 == y2:
                    continue
                k = c - y1
                if m:
                    k %= m
                    k = rng.choice([k, k - m])
                if k == 0:
                    continue
                x = x + k * (x2 - x) // (y2 - y1)
            except Undef:
                return False
            except Exception:
                break
            x = max(p.lo, min(p.hi, x))
        try:
            if hold(fs, {at: put(x)}, {}):
                val[at] = put(x)
                return True
        except Undef:
            return False
        except Exception:
            continue
    return False


def solve(flog, tries=1500, seed=1, extra=(), want=None):
    """a valuation satisfying the facts (and `want(val, memo)`), or None;
    raises Undef when it can't be evaluated"""
    rng = random.Random(seed)
    terms = [t for t, _ in flog] + list(extra)
    ats = sorted(atoms_of2(terms), key=lambda t: t.n)
    hints = hints_of(terms)
    sh = [h for h in hints if isinstance(h, str)]
    nh = [h for h in hints if not isinstance(h, str)]
    # facts about one atom only can be met atom by atom
    single = {}
    multi = []
    for t, p in flog:
        if t.op in SKIP:
            continue
        s = atoms_of2([t])
        if len(s) == 1:
            single.setdefault(next(iter(s)), []).append((t, p))
        else:
            multi.append((t, p))
    last = None
    undef = 0
    for _ in range(tries):
        val = {}
        bad = False
        for at in ats:
            fs = single.get(at)
            for k in range(400 if fs else 1):
                val[at] = sample(at, rng, sh if at.ty in ("str", "bytes") else nh)
                if not fs:
                    break
                try:
                    if hold(fs, {at: val[at]}, {}):
                        break
                except Undef:
                    undef += 1
                    if undef > 50:
                        raise
            else:
                if not nudge(at, fs, val, rng, nh):
                    bad = True
                    break
        if bad:
            return None
        memo = {}
        if multi and not hold(multi, val, memo):
            continue
        if want is None or want(val, memo):
            return val
    return None


def separate(flog, a, b, tries=600, seed=1, extra=(), differ=differ):
    """a valuation under which the facts hold and a, b differ, or None"""
    def want(val, memo):
        try:
            x = values(a, val, memo)
        except Err:
            x = [("raises",)]
        except Nosep:
            return False
        try:
            y = values(b, val, memo)
        except Err:
            y = [("raises",)]
        except Nosep:
            return False
        if not x or not y:
            return False
        return all(differ(p, q) for p in x for q in y)
    try:
        return solve(flog, tries, seed, (a, b) + tuple(extra), want)
    except Undef:
        return None


def show(val):
    return ", ".join(f"{k.args[0]}={v!r}" for k, v in sorted(val.items(), key=lambda kv: kv[0].n))
