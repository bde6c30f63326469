import re
import struct
import itertools
import operator
from functools import reduce
from datetime import datetime, date, time, timedelta, timezone
from math import floor, trunc, pi, fabs, modf, fmod, hypot, degrees, radians, copysign, isnan, ceil, sqrt


# ---- text
def s_upper(s): return s.upper()
def s_split(s): return tuple(s.split(","))
def s_split1(s): return tuple(s.split("*", 1))
def s_rsplit1(s): return tuple(s.rsplit("*", 1))
def s_part(s): return s.partition("*")
def s_rpart(s): return s.rpartition("*")
def s_strip(s): return s.strip("$\r\n")
def s_strip0(s): return s.strip()
def s_lstrip(s): return s.lstrip("0")
def s_rstrip(s): return s.rstrip("\r\n")
def s_find(s): return s.find(".")
def s_rfind(s): return s.rfind(".")
def s_index(s):
    try:
        return s.index("*")
    except ValueError:
        return -5
def s_count(s): return s.count(",")
def s_slice(s): return s[2:5]
def s_slice2(s): return s[:-2]
def s_slice3(s): return s[-3:]
def s_slice4(s): return s[1:-1]
def s_slice5(s): return s[-4:-1]
def s_slice6(s, u): return s[u:]
def s_slice7(s, u): return s[:u]
def s_first(s):
    try:
        return s[0]
    except IndexError:
        return None
def s_last(s):
    try:
        return s[-1]
    except IndexError:
        return None
def s_third(s):
    try:
        return s[2]
    except IndexError:
        return "none"
def s_starts(s): return s.startswith("P")
def s_starts2(s): return s.startswith(("$G", "$P"))
def s_ends(s): return s.endswith("\r\n")
def s_in(s): return "*" in s
def s_in2(s): return s in ("A", "B", "GN")
def s_in3(s): return s in "NSEW"
def s_eq(s): return s == "GN"
def s_len(s): return len(s)
def s_empty(s): return not s
def s_or(s): return s or "none"
def s_replace(s): return s.replace(":", "")
def s_replace1(s): return s.replace(",", ";", 1)
def s_zfill(s): return s.zfill(3)
def s_fmt(s): return f"<{s}>"
def s_fmtr(s): return f"{s!r}"
def s_pct(s): return "%s-%s" % (s, "a")
def s_format(s): return "{}:{}".format(s, 1)
def s_join(s): return ",".join(["a", s, "b"])
def s_join2(s): return "".join(ch for ch in "abc" + s[:1])
def s_mul(s): return s * 2
def s_isdigit(s): return s.isdigit()
def s_isdec(s): return s.isdecimal()
def s_casefold(s): return s.casefold() == "n"
def s_cmp(s): return s < "M"
def s_unpack(s):
    a, b = s.split(",") if s.count(",") == 1 else ("x", "y")
    return a, b
def s_star(s):
    hdr, *rest = s.split(",")
    return hdr, tuple(rest)
def s_star2(s):
    *a, b = s.split("*")
    return tuple(a), b
def s_rep(s): return repr(s)
def s_tup(s): return tuple(s[:2])
def s_int(s):
    try:
        return int(s)
    except ValueError:
        return None
def s_int16(s):
    try:
        return int(s, 16)
    except ValueError:
        return None
def s_float(s):
    try:
        return float(s)
    except ValueError:
        return None
def s_dmm(s):
    try:
        dp = s.index(".")
        return float(s[: dp - 2]), float(s[dp - 2:])
    except ValueError:
        return ""
def s_dmm2(s):
    d, dot, f = s.partition(".")
    if len(d) < 4 or not dot:
        return ""
    return d[:-2], d[-2:] + dot + f
def s_enc(s): return s.encode("utf-8", "surrogatepass")
def s_encl(s):
    try:
        return s.encode("ascii")
    except UnicodeEncodeError:
        return b"?"
def s_xor(s): return reduce(operator.xor, s[:3].encode(), 0)
def s_xor2(s):
    r = 0
    for c in s[:2]:
        r ^= ord(c)
    return r
def s_hex(s): return f"{sum(s[:2].encode()) & 255:02X}"
def s_hex2(s): return "%02X" % (sum(s[:2].encode()) % 256)
def s_hex3(s): return format(sum(s[:1].encode()), "02x").upper()
def s_while(s):
    i = 0
    while i < 3 and s[i:i + 1] == "0":
        i += 1
    return i
def s_any(s): return any(c in s for c in "*,")
def s_all(s): return all(c.isdigit() for c in s[:3])
def s_dict(s): return {"N": 1, "S": -1}.get(s, 0)
def s_dict2(s):
    try:
        return {"N": 1, "S": -1}[s]
    except KeyError:
        return None
def s_match(s):
    match s:
        case "N" | "E":
            return 1
        case "S" | "W":
            return -1
        case "":
            return None
        case _:
            return 0
def s_match2(s):
    match s.split(","):
        case [a]:
            return a
        case [a, b]:
            return b
        case [a, *r]:
            return len(r)
def s_walrus(s):
    if (i := s.find("*")) > 0:
        return s[:i]
    return s
def s_re(s): return re.match(r"^\d{2}\.\d+$", s) is not None
def s_re2(s): return bool(re.fullmatch(r"[A-Z]{2}\d", s))
def s_rem(s):
    return s.removeprefix("$").removesuffix("\n")
def s_title(s): return s[:1].upper() + s[1:].lower()
def s_cond(s): return "P" if s[:1] == "P" else s[:2]
def s_bool(s): return bool(s)
def s_sorted(s): return tuple(sorted(["b", "a", s]))[0] <= "b"
def s_max(s): return max(len(s), 3)
def s_chain(s): return s.strip("\r\n").lstrip("$").split("*")[0]
def s_splitl(s): return s.splitlines()[:1] == ["a"]
def s_expandtabs(s): return s.center(5) if len(s) == 1 else s.ljust(2, "x")
def s_iter(s):
    it = iter(s.split(","))
    return next(it), next(it, "none")
def s_zip(s): return tuple((a, b) for a, b in zip("ab", s.split(",")))
def s_enum(s): return tuple(f"{i}{x}" for i, x in enumerate(s.split(",")[:2], 1))
def s_try(s):
    try:
        v = int(s)
    except ValueError:
        v = 0
    else:
        v += 1
    finally:
        v = (v, 1) if False else v
    return v
def s_time(s):
    try:
        return datetime.strptime(s, "%H%M%S.%f").time()
    except ValueError:
        return ""
def s_date(s):
    try:
        return datetime.strptime(s, "%d%m%y").date()
    except ValueError:
        return ""
def s_cat(s, w): return s + "," + w == w + "," + s
def s_two(s, w): return (s + "*" + w).partition("*")
def s_two2(s, w): return (s + "*" + w).rsplit("*", 1)[1]
def s_two3(s, w): return len((s + "," + w).split(","))
def s_two4(w, w2): return tuple(f"{w},{w2}".split(","))
def s_two5(w, w2): return tuple(("$" + w + "*" + w2 + "\r\n").strip("$\r\n").split("*"))
def s_two6(w, d, d2): return f"{w}{d}{d2}"[-2:]
def s_two7(w, w2): return f"{w},{w2}".index(",") == len(w)
def s_dig(d, d2): return int(d + d2)
def s_dig2(d, d2): return float(d + "." + d2)
def s_dig3(d, d2): return (d + d2).lstrip("0")
def s_dig4(d, d2): return f"{int(d + d2):03d}"
def s_dig5(d, d2): return int(d) * 10 + int(d2) == int(d + d2)
def s_dig6(d): return chr(ord(d) + 1)
def s_dig7(d): return ord(d) - 48
# ---- bytes
def b_find(b): return b.find(b"\n")
def b_split(b): return tuple(b.split(b"*", 1))
def b_first(b): return b[0:1]
def b_idx(b): return b[0] if b else None
def b_dec(b):
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return None
def b_ends(b): return b[-2:] == b"\r\n"
def b_in(b): return b in (b"$", b"!")
def b_cat(b): return b"$" + b
def b_list(b): return sum(b[:2])
def b_hex(b): return b.hex()
def b_int(b): return int.from_bytes(b[:1], "big")
def b_strip(b): return b.rstrip(b"\r\n")
def b_part(b): return b.partition(b"\n")
def b_eq(b): return b == b""
def b_bytearray(b):
    x = bytearray(b)
    x += b"ab"
    x.append(65)
    del x[0]
    return bytes(x)
def b_view(b): return bytes(memoryview(b)[1:3])
def _b_while(b):
    out = b""
    while b and len(out) < 2:
        out, b = out + b[:1], b[1:]
    return out
# ---- numbers
def n_add(n): return n + 1
def n_mul(n, n2): return n * n2
def n_div(n): return n / 4
def n_fdiv(n): return n // 7
def n_mod(n): return n % 7
def n_divmod(n): return divmod(n, 60)
def n_negmod(n): return -n % 60
def n_round(n): return round(n, -2)
def n_float(n): return float(n)
def n_str(n): return str(n)
def n_fmt(n): return f"{n:02d}"
def n_fmt2(u): return f"{u:03}"
def n_fmt3(u): return f"{u:x}".upper()
def n_fmt4(u): return f"{u:>6}"
def n_fmt5(n): return f"{n:+d}"
def n_fmt6(u): return hex(u)[2:].zfill(4)
def n_fmt7(u): return "%04X" % u
def n_abs(n): return abs(n)
def n_sign(n): return -1 if n < 0 else 1
def n_sign2(n): return (n > 0) - (n < 0)
def n_cmp(n): return 0 <= n <= 10
def n_minmax(n): return max(0, min(n, 10))
def n_bits(u): return (u >> 3) & 0xF, u & 1, u | 8, u ^ 5
def n_inv(n): return ~n
def n_bool(n): return bool(n)
def n_truth(n): return n or 5
def n_pow(u): return u ** 2
def n_pow2(n): return 10 ** 3 * n
def n_range(u): return sum(range(3)) + u
def n_loop(u):
    t = 0
    for i in range(3):
        t += u * i
    return t
def n_isinst(n): return isinstance(n, (int, float))
def n_list(n): return tuple([n, n + 1][::-1])
def n_chain(n): return n == 3 or n == 4
def n_in(n): return n in (1, 2, 3)
def n_dict(n): return {1: "a", 2: "b"}.get(n)
def n_chr(u): return chr(u % 26 + 65)
def n_match(n):
    match n:
        case 0: return "z"
        case int() if n > 5: return "big"
        case _: return "other"
def n_tern(n): return "a" if n > 3 else "b" if n > 1 else "c"
def n_comp(n): return not (n > 3 and n < 6)
def n_div0(n):
    try:
        return 10 // n
    except ZeroDivisionError:
        return None
def n_tostr(u): return str(u).rjust(4, "0")
def n_tostr2(u): return f"{u:,}"
def n_tdelta(u): return timedelta(seconds=u).total_seconds()
def n_isclose(n): return n * 0.5
def n_hash(n): return n.bit_length()
def f_abs(f): return abs(f)
def f_neg(f): return -f
def f_round(f): return round(f, 3)
def f_roundi(f): return round(f)
def f_int(f): return int(f)
def f_floor(f): return floor(f)
def f_ceil(f): return ceil(f)
def f_trunc(f): return trunc(f)
def f_modf(p): return int(p), p - int(p)
def f_divmod(p):
    d, m = divmod(p * 60, 60)
    return int(d), m
def f_fdiv(p): return p // 1, p % 1
def f_cmp(f): return f < 0
def f_fmt(f): return f"{f:.3f}"
def f_fmt2(f): return f"{f:08.5f}"
def f_fmt3(f): return "%.2f" % f
def f_fmt4(p): return f"{int(p):03d}"
def f_str(f): return str(f)
def f_repr(f): return f"{f}"
def f_sign(f): return "-" if f < 0 else "+"
def f_mul(f): return f * 1.852001
def f_sq(f): return sqrt(f * f)
def f_isint(f): return f == int(f)
def f_max(f): return max(min(f, 90.0), -90.0)
def f_cs(f): return copysign(1, f)
def f_pow(f): return f ** 2
def f_rad(f): return f * pi / 180
def f_dms(p):
    m, s = divmod(round(p * 3600 * 100000), 60 * 100000)
    d, m = divmod(m, 60)
    return d, m, s
def f_int2(f): return int(f * 1000) / 1000
def f_sum(f): return sum((f, 1.0, 2))
def f_any(f): return any((f < 0, f > 10))
def f_lambda(f): return (lambda v: v + 1)(f)
def f_map(f): return tuple(map(lambda c: c * 2, (f, 1.0)))
def f_bool(bo): return not bo
def f_bool2(bo): return 1 + bo
def f_bool3(bo, n): return n if bo else -n
# ---- dates
def t_str(ti): return ti.strftime("%H%M%S.%f")[0:9]
def t_str2(ti): return f"{ti.hour:02d}{ti.minute:02d}{ti.second:02d}.{ti.microsecond // 10000:02d}"
def t_str3(ti): return f"{ti:%H%M%S}"
def t_iso(ti): return ti.strftime("%H:%M:%S")
def t_repl(ti): return ti.replace(microsecond=0)
def t_repl2(ti): return ti.replace(hour=0).hour
def t_cmp(ti): return ti.hour < 12
def t_fld(ti): return ti.hour * 3600 + ti.minute * 60 + ti.second
def d_str(da): return da.strftime("%d%m%y")
def d_str2(da): return f"{da.day:02d}{da.month:02d}{da.year % 100:02d}"
def d_str3(da): return f"{da.day:02}{da.month:02}{da.year:04}"
def d_str4(da): return f"{da:%m%d%y}"
def d_fld(da): return da.year, da.month, da.day
def d_new(da): return date(da.year, da.month, 1)
def d_new2(da): return datetime(da.year, da.month, da.day)
def d_repl(da): return da.replace(day=1)
def d_back(da): return datetime.strptime(da.strftime("%d%m%Y"), "%d%m%Y").date()
def dt_date(dt): return dt.date()
def dt_time(dt): return dt.time()
def dt_add(dt): return dt + timedelta(days=1)
def dt_sub(dt): return (dt - datetime(1980, 1, 6, tzinfo=timezone.utc)).total_seconds()
def dt_days(dt):
    d = dt - datetime(1980, 1, 6, tzinfo=timezone.utc)
    return d.days, d.seconds, d.microseconds
def dt_div(dt): return (dt - datetime(1980, 1, 6, tzinfo=timezone.utc)) // timedelta(weeks=1)
def dt_divmod(dt):
    w, r = divmod(dt - datetime(1980, 1, 6, tzinfo=timezone.utc), timedelta(days=7))
    return w, r // timedelta(milliseconds=1)
def dt_mod(dt): return (dt - datetime(1980, 1, 6, tzinfo=timezone.utc)) % timedelta(days=7)
def dt_cmp(dt): return dt > datetime(2017, 1, 1, tzinfo=timezone.utc)
def dt_naive(nd): return nd.tzinfo is None
def dt_repl(nd): return nd.replace(tzinfo=timezone.utc)
def dt_repl2(dt): return dt.replace(tzinfo=None)
def dt_str(dt): return dt.strftime("%H%M%S.%f")
def dt_ts(u): return datetime(2020, 1, 1) + timedelta(milliseconds=u)
def dt_ts2(u): return timedelta(seconds=u) / timedelta(minutes=1)
def dt_neg(u): return -timedelta(seconds=u)
def dt_tow(dt): return int((dt - datetime(1980, 1, 6, tzinfo=timezone.utc)).total_seconds() * 1000) % 604800000
def dt_fld(dt): return dt.year, dt.hour, dt.microsecond
# ---- containers, control flow
def _gen(v):
    yield v
    yield v + 1
def g_gen(n): return tuple(_gen(n))
def g_sum(n): return sum(_gen(n))
def g_next(n):
    g = _gen(n)
    return next(g), next(g)
def l_comp(s): return tuple(x for x in s.split(",") if x)
def l_comp2(w, w2): return tuple(x for x in (w, w2) if x)
def l_comp3(w, w2): return [x for x in (w, w2) if x != ""] == []
def l_dict(w, n):
    d = {"a": w}
    d["b"] = n
    d.update(c=1)
    d.pop("c")
    return tuple(d.items())
def l_set(w): return {w, "a"} == {"a"}
def l_first(w, w2): return next((x for x in (w, w2) if x), None)
def l_for(w, w2):
    for x in (w, w2):
        if x == "":
            continue
        if x == "N":
            break
    else:
        return "no"
    return "yes"
def l_del(w, w2):
    x = [w, w2, "z"]
    del x[1]
    x.insert(0, "q")
    x.extend(("r",))
    return tuple(x)
def l_pop(w, w2):
    x = [w, w2]
    return x.pop(), x.pop(0), len(x)
def l_rev(w, w2): return tuple(reversed([w, w2]))
def l_idx(w, w2):
    try:
        return [w, w2].index("N")
    except ValueError:
        return -1
def l_in(w, w2): return "N" in [w, w2]
def l_cnt(w, w2): return (w, w2).count("N")
def l_nest(w, w2): return {w: 1}.get(w2, 0)
def l_setdef(w):
    d = {}
    d.setdefault("a", []).append(w)
    return tuple(d["a"])
def l_chain(w, w2): return tuple(itertools.chain([w], [w2]))
def l_isl(w): return tuple(itertools.islice([w, "a", "b"], 1, None))
def l_zip(w, w2): return dict(zip(("a", "b"), (w, w2)))["b"]
def l_sort(n, n2): return tuple(sorted((n, n2)))
def l_sort2(n, n2): return max((n, n2), key=lambda v: -v)
def l_unp(w, w2): return [*[w], *(w2,)] == [w2, w]
def l_unp2(w, n): return {**{"a": w}, "b": n}["a"]
def l_swap(w, w2):
    w, w2 = w2, w
    return w, w2
def l_nonl(w):
    c = []
    def add(v):
        c.append(v)
        return len(c)
    return add(w), add("x"), tuple(c)
def l_nonl2(n):
    t = 0
    def add(v):
        nonlocal t
        t += v
    add(n)
    add(2)
    return t
def l_cls(w):
    class A:
        z = 3
        def __init__(self, v):
            self.v = v
        @property
        def up(self):
            return self.v + "!"
        @staticmethod
        def two(): return 2
        @classmethod
        def mk(cls, v): return cls(v)
    a = A.mk(w)
    return a.up, a.two(), a.z
def l_getattr(w):
    class A:
        pass
    a = A()
    setattr(a, "k", w)
    return getattr(a, "k"), hasattr(a, "q"), getattr(a, "q", None)
def l_default(w, w2):
    def f(a, b="z", *c, **d): return a + b + "".join(c) + "".join(d)
    return f(w), f(w, w2), f(w, w2, "c", e=1)
def l_raise(s):
    try:
        if s == "":
            raise ValueError("empty")
        return len(s)
    except (KeyError, ValueError) as e:
        return str(e)
def l_raise2(s):
    try:
        return [1, 2, 3][len(s)]
    except IndexError:
        return None
def l_with(s):
    from contextlib import suppress
    with suppress(ValueError):
        return int(s)
    return None
def l_isn(x): return x is None
def l_isin(x): return isinstance(x, str)
def l_isin2(x): return isinstance(x, (int, float)) and not isinstance(x, bool)
def l_ty(x):
    try:
        return len(x)
    except TypeError:
        return -1
def l_str(x): return str(x) == "a"
def l_eqx(x): return x == "N"
def l_fmtx(x):
    try:
        return f"{x:02d}"
    except (TypeError, ValueError):
        return ""
def l_intx(x):
    try:
        return int(x)
    except (TypeError, ValueError, OverflowError):
        return None
def l_addx(x):
    try:
        return x + 1
    except TypeError:
        return None
def l_cmpx(x):
    try:
        return x < 0
    except TypeError:
        return None
def l_truthx(x): return bool(x)
def l_upx(x):
    try:
        return x.upper()
    except AttributeError:
        return None


def pb1(s1, n1):
    return b"$%b*%s%%%d" % (s1.encode("utf-8", "surrogatepass"), b"ab", n1)


def pb2(dt1):
    return "%s|%d" % (dt1.date(), 4)


def pb3(s1):
    try:
        return "%s" % (s1, s1)
    except TypeError:
        return "T"
