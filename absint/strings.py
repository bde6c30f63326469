"""The structured-string domain.

A string (or bytes) value is a constant or a concatenation of constants and
terms.  Each term carries what is known by construction: length bounds and the
characters it can contain.  Operations are exact where that suffices, fork on a
named condition where one bit of information is missing, and otherwise return
an opaque term.
"""

from __future__ import annotations

from .values import V, C, T, Tup, Props, EMPTY, TRUE, FALSE, mkbool

HEXU = frozenset("0123456789ABCDEF")
HEXL = frozenset("0123456789abcdef")
DIG = frozenset("0123456789")
FLT = frozenset("0123456789.e+-naif")

EB = C(b"")


def isbytes(v):
    return isinstance(v, C) and isinstance(v.v, (bytes, bytearray)) or isinstance(v, T) and v.ty == "bytes"


def isstr(v):
    return isinstance(v, C) and isinstance(v.v, str) or isinstance(v, T) and v.ty == "str"


def isS(v):
    return isstr(v) or isbytes(v)


def cs(v):
    """constant text of a str/bytes constant as str"""
    return v.v if isinstance(v.v, str) else bytes(v.v).decode("latin-1")


def mk(s, b):
    return C(s.encode("latin-1")) if b else C(s)


def parts(v):
    if isinstance(v, C):
        return (v,) if len(v.v) else ()
    if v.op == "cat":
        return v.args
    return (v,)


def cat(vals, b=False):
    out = []
    for v in vals:
        for p in parts(v):
            if isinstance(p, C) and out and isinstance(out[-1], C):
                out[-1] = C(out[-1].v + p.v)
            else:
                out.append(p)
    # slice(x,0,i)+slice(x,i,None) -> x
    changed = True
    while changed:
        changed = False
        for i in range(len(out) - 1):
            a, c = out[i], out[i + 1]
            if (isinstance(a, T) and isinstance(c, T) and a.op == "slice" and c.op == "slice"
                    and a.args[0] is c.args[0] and a.args[2] is c.args[1] and a.args[2] is not None):
                x, lo, hi = a.args[0], a.args[1], c.args[2]
                new = x if lo in (None, C(0)) and (hi is None or isinstance(hi, C) and maxlen(x) is not None and hi.v >= maxlen(x)) \
                    else T("slice", (x, lo, hi), x.ty)
                out[i:i + 2] = list(parts(new))
                changed = True
                break
    if not out:
        return EB if b else EMPTY
    if len(out) == 1:
        return out[0]
    ty = "bytes" if b or any(isbytes(p) for p in out) else "str"
    return T("cat", tuple(out), ty)


def minlen(v):
    if isinstance(v, C):
        return len(v.v)
    o = v.op
    if o == "atom":
        return v.props.minlen
    if o == "cat":
        return sum(minlen(p) for p in v.args)
    if o in ("upper", "lower", "enc", "rev", "quote"):
        return minlen(v.args[0])
    if o == "fmt":
        return fmt_len(v)[0]
    if o in ("str", "chr", "hexdig", "byte", "repr", "charat"):
        return 1
    if o == "zfill":
        return max(v.args[1], minlen(v.args[0]))
    if o == "slice":
        x, i, j = v.args
        i = 0 if i is None else i.v if isinstance(i, C) else -1
        if i >= 0 and (j is None or isinstance(j, C) and j.v >= 0):
            return max(0, (minlen(x) if j is None else min(minlen(x), j.v)) - i)
    if o == "strftime":
        n = strftime_len(v.args[1])
        return n if n is not None else 0
    return 0


def maxlen(v):
    if isinstance(v, C):
        return len(v.v)
    o = v.op
    if o == "atom":
        return v.props.maxlen
    if o == "cat":
        n = 0
        for p in v.args:
            m = maxlen(p)
            if m is None:
                return None
            n += m
        return n
    if o in ("strip", "lstrip", "rstrip", "before", "after", "item", "dec", "rev"):
        return maxlen(v.args[0]) if isinstance(v.args[0], V) else None
    if o in ("enc", "upper", "lower"):
        m = maxlen(v.args[0])
        return m if m is not None and asciionly(v.args[0]) else None
    if o in ("chr", "hexdig", "byte", "charat"):
        return 1
    if o == "str" and getattr(v.args[0], "ty", "") == "int":
        from .num import interval
        lo, hi = interval(v.args[0])
        return None if lo is None or hi is None else max(len(str(lo)), len(str(hi)))
    if o == "fmt":
        return fmt_len(v)[1]
    if o == "slice":
        x, i, j = v.args
        m = maxlen(x)
        i0 = i.v if isinstance(i, C) else (0 if i is None else None)
        if isinstance(j, C) and i0 is not None and (j.v >= 0) == (i0 >= 0):
            d = max(0, j.v - i0)
            return d if m is None else min(m, d)
        return m
    if o == "strftime":
        return strftime_len(v.args[1])
    return None


def strftime_len(f):
    W = {"d": 2, "m": 2, "y": 2, "Y": 4, "H": 2, "M": 2, "S": 2, "f": 6, "j": 3, "%": 1}
    n = 0
    i = 0
    while i < len(f):
        if f[i] == "%":
            if i + 1 >= len(f) or f[i + 1] not in W:
                return None
            n += W[f[i + 1]]
            i += 2
        else:
            n += 1
            i += 1
    return n


def fmt_len(v):
    """length bounds of a numeric format term fmt(x, spec)"""
    from .num import interval
    spec = v.args[1]
    f = parse_spec(spec)
    if f is None:
        return (0, None)
    w = f["width"] or 0
    lo, hi = interval(v.args[0])
    m = None
    if f["type"] in ("X", "x", "d", "") and lo is not None and hi is not None and getattr(v.args[0], "ty", "int") == "int":
        base = 16 if f["type"] in ("X", "x") else 10

        def dl(n):
            n = int(n)
            s = format(n, "x" if base == 16 else "d")
            return len(s)
        m = max(dl(lo), dl(hi))
        mn = 1 if lo <= 0 <= hi else min(dl(lo), dl(hi))
        return (max(w, mn), max(w, m))
    if f["type"] == "f" and lo is not None and hi is not None and abs(hi) < 1e15 and abs(lo) < 1e15:
        p = f["prec"] if f["prec"] is not None else 6
        m = max(len(f"{lo:.{p}f}"), len(f"{hi:.{p}f}"))
        return (max(w, 1), max(w, m))
    return (max(w, 1), None)


def parse_spec(spec):
    import re
    if not isinstance(spec, str):
        return None
    m = re.match(r"^(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%]?)$", spec)
    if not m:
        return None
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    return {"fill": fill, "align": align, "sign": sign, "alt": alt, "zero": bool(zero),
            "width": int(width) if width else None, "comma": comma,
            "prec": int(prec) if prec is not None else None, "type": typ}


def norm_spec(spec):
    """canonical spelling of equivalent integer format specs (0>2X == 02X)"""
    f = parse_spec(spec)
    if f is None:
        return spec
    w = f["width"]
    zero = f["zero"]
    if f["fill"] == "0" and f["align"] in (">", "="):
        zero, f["align"], f["fill"] = True, None, None
    if f["align"] or f["fill"] or f["alt"] or f["comma"] or f["sign"] not in ("", "-"):
        return spec
    t = f["type"]
    if f["prec"] is not None:
        if w is None:
            return f".{f['prec']}{t}"
        return f"{'0' if zero else ''}{w}.{f['prec']}{t}"
    if w is None or (w <= 1 and t in ("X", "x", "d")):
        return "" if t in ("", "d") else t
    if t in ("", "d"):
        return f"{'0' if zero else ''}{w}" + "d"
    return f"{'0' if zero else ''}{w}{t}"


def asciionly(v):
    if isinstance(v, C):
        return all(ord(c) < 128 for c in cs(v))
    if v.op == "cat":
        return all(asciionly(p) for p in v.args)
    if v.op == "atom":
        return bool(v.props.incl is not None and all(ord(c) < 128 for c in v.props.incl)) or v.props.extra == "ascii"
    if v.op in ("fmt", "hexdig", "strftime"):
        return True
    if v.op == "str":
        return getattr(v.args[0], "ty", "") in ("int", "float")
    if v.op in ("upper", "lower", "strip", "lstrip", "rstrip", "slice", "before", "after",
                "enc", "dec", "rev", "zfill", "replace", "item"):
        return isinstance(v.args[0], V) and isS(v.args[0]) and asciionly(v.args[0])
    return False


def nonneg(x):
    from .num import interval
    lo = interval(x)[0]
    return lo is not None and lo >= 0


def may_contain(v, ch):
    if isinstance(v, C):
        return ch in cs(v)
    o = v.op
    if o == "atom":
        p = v.props
        if p.incl is not None:
            return ch in p.incl
        return ch not in p.excl and not (p.extra == "ascii" and ord(ch) > 127)
    if o == "cat":
        return any(may_contain(p, ch) for p in v.args)
    if o in ("strip", "lstrip", "rstrip", "slice", "enc", "dec", "rev", "item", "charat"):
        return may_contain(v.args[0], ch) if isS(v.args[0]) else True
    if o in ("before", "splititem"):
        if v.args[1] == ch:
            return False
        return may_contain(v.args[0], ch)
    if o == "after":
        return may_contain(v.args[0], ch)
    if o == "zfill":
        return ch == "0" or may_contain(v.args[0], ch)
    if o == "upper":
        if ch.islower():
            return False
        return may_contain(v.args[0], ch) or may_contain(v.args[0], ch.lower())
    if o == "lower":
        if ch.isupper():
            return False
        return may_contain(v.args[0], ch) or may_contain(v.args[0], ch.upper())
    if o == "replace":
        x, a, b = v.args[:3]
        if ch in b:
            return True
        if ch == a and len(v.args) == 3:
            return False
        return may_contain(x, ch)
    if o == "fmt":
        f = parse_spec(v.args[1])
        if f is None:
            return True
        t = f["type"]
        if ch == "-" and nonneg(v.args[0]):
            return False
        if ch == " " and (f["fill"] not in (None, " ") or f["zero"] and not f["align"]):
            return False
        if ch == (f["fill"] or " ") and not f["width"] and t in ("", "d", "x", "X"):
            return ch in DIG or t in ("x", "X") and ch in HEXU | HEXL
        al = HEXU if t == "X" else HEXL if t == "x" else DIG if getattr(v.args[0], "ty", "") == "int" and t in ("", "d") else FLT
        return ch in al or ch == "-" or (f["fill"] or " ") == ch or ch == " "
    if o == "str":
        ty = getattr(v.args[0], "ty", "")
        if ty == "int":
            return ch in DIG or ch == "-" and not nonneg(v.args[0])
        if ty == "float":
            return ch in FLT
        return True
    if o == "strftime":
        return ch in DIG or ch in v.args[1].replace("%", "")
    return True


def excludes(v, chars):
    return not any(may_contain(v, c) for c in chars)


def is1(v):
    return minlen(v) == 1 and maxlen(v) == 1


# ---------------------------------------------------------------------------


def contains(cx, s, sub):
    """truth value (V) of `sub in s`"""
    if isinstance(s, C) and isinstance(sub, C):
        return mkbool(sub.v in s.v)
    if isinstance(sub, C):
        t = cs(sub)
        if t == "":
            return TRUE
        ps = parts(s)
        if any(isinstance(p, C) and t in cs(p) for p in ps):
            return TRUE
        if len(t) == 1:
            rest = [p for p in ps if not isinstance(p, C) and may_contain(p, t)]
            if not rest:
                return FALSE
            if len(rest) == 1:
                if is1(rest[0]):
                    return eq(cx, rest[0], mk(t, isbytes(s)))
                return T("contains", (rest[0], t), "bool")
            for p in rest:
                q = contains(cx, p, sub)
                if q is TRUE or q is not FALSE and cx.cond(q):
                    return TRUE
            return FALSE
        # multi-char: impossible if some char of it cannot occur at all
        if any(not may_contain(s, c) for c in t):
            return FALSE
        mx = maxlen(s)
        if mx is not None and mx < len(t):
            return FALSE
    if isinstance(s, C) and s.v in ("", b""):
        return eq(cx, sub, s)
    if isinstance(s, C) and isinstance(sub, T) and is1(sub):
        # single symbolic char in constant string: one of its characters
        al = sorted(set(cs(s)))
        al = [c for c in al if may_contain(sub, c)]
        if not al:
            return FALSE
        if sub.op == "atom" and sub.props.incl is not None and sub.props.incl <= set(al):
            return TRUE
        return T("inset", (sub, "".join(al)), "bool")
    if sub is s:
        return TRUE
    return T("contains", (s, sub), "bool")


def eq(cx, a, b):
    """truth value (V) of a == b for strings of the same kind"""
    if a is b:
        return TRUE
    if isinstance(a, C) and isinstance(b, C):
        return mkbool(a.v == b.v)
    byt = isbytes(a) or isbytes(b)
    pa, pb = list(parts(a)), list(parts(b))
    # strip common prefix
    for rev in (False, True):
        while pa and pb:
            i = -1 if rev else 0
            x, y = pa[i], pb[i]
            if x is y:
                pa.pop(i)
                pb.pop(i)
                continue
            if isinstance(x, C) and isinstance(y, C):
                sx, sy = cs(x), cs(y)
                n = min(len(sx), len(sy))
                if rev:
                    if sx[-n:] != sy[-n:]:
                        return FALSE
                    pa[i:] = [mk(sx[:-n], byt)] if len(sx) > n else []
                    pb[i:] = [mk(sy[:-n], byt)] if len(sy) > n else []
                else:
                    if sx[:n] != sy[:n]:
                        return FALSE
                    pa[0:1] = [mk(sx[n:], byt)] if len(sx) > n else []
                    pb[0:1] = [mk(sy[n:], byt)] if len(sy) > n else []
                continue
            if isinstance(x, C) != isinstance(y, C):
                c, t = (x, y) if isinstance(x, C) else (y, x)
                ch = cs(c)[-1 if rev else 0]
                if minlen(t) >= 1 and not may_contain(t, ch):
                    return FALSE
            break
    if not pa and not pb:
        return TRUE
    a2, b2 = cat(pa, byt), cat(pb, byt)
    if a2 is b2:
        return TRUE
    mna, mxa, mnb, mxb = minlen(a2), maxlen(a2), minlen(b2), maxlen(b2)
    if (mxb is not None and mna > mxb) or (mxa is not None and mnb > mxa):
        return FALSE
    for x, y in ((a2, b2), (b2, a2)):
        if isinstance(x, C) and len(x.v) == 0 and isinstance(y, T) and y.op == "rstrip" and y.args[1] == "0":
            from . import num
            z = y.args[0]
            if isinstance(z, T) and z.op == "fmt" and num.isint(z.args[0]):
                f = parse_spec(z.args[1])
                lo, _ = num.interval(z.args[0], cx.st if cx is not None else None)
                if f and f["type"] in ("", "d") and f["zero"] and lo is not None and lo >= 0:
                    from .builtins_ import num_eq
                    return num_eq(z.args[0], C(0))
        if isinstance(x, C):
            if any(not may_contain(y, c) for c in cs(x)):
                return FALSE
            if len(x.v) and isinstance(y, T) and y.op == "cat":
                # literal piece of y must occur in x
                for p in y.args:
                    if isinstance(p, C) and cs(p) not in cs(x):
                        return FALSE
            if len(x.v) == 0 and isinstance(y, T) and y.op == "cat":
                # all parts empty
                for p in y.args:
                    if cx is None:
                        break
                    if not cx.cond(eq(cx, p, x)):
                        return FALSE
                else:
                    return TRUE
            if isinstance(y, T) and y.op == "atom" and y.props.incl is not None and \
                    len(y.props.incl) == 1 and is1(y) and x.v:
                return mkbool(cs(x) in y.props.incl)
    # enc(a) == enc(b)  <=>  a == b
    def unenc(v):
        if isinstance(v, T) and v.op == "enc":
            return v.args[0]
        return v
    if isinstance(a2, T) and a2.op == "enc" and isinstance(b2, T) and b2.op == "enc" and a2.args[1] == b2.args[1]:
        return eq(cx, a2.args[0], b2.args[0])
    if isinstance(a2, T) and a2.op == "enc" and isinstance(b2, C) and asciionly(b2):
        return eq(cx, a2.args[0], C(cs(b2)))
    if isinstance(b2, T) and b2.op == "enc" and isinstance(a2, C) and asciionly(a2):
        return eq(cx, b2.args[0], C(cs(a2)))
    return mkeq(a2, b2)


def mkeq(a, b):
    if isinstance(a, C) and not isinstance(b, C):
        a, b = b, a
    elif not isinstance(b, C) and isinstance(a, T) and isinstance(b, T) and a.n > b.n:
        a, b = b, a
    return T("eq", (a, b), "bool")


def upper(v, up=True):
    ps = []
    for p in parts(v):
        if isinstance(p, C):
            ps.append(C(p.v.upper() if up else p.v.lower()))
        elif p.op in ("upper", "lower"):
            ps.append(T("upper" if up else "lower", (p.args[0],), p.ty))
        elif p.op == "fmt" and (f := parse_spec(p.args[1])) and f["type"] in ("x", "X"):
            ps.append(T("fmt", (p.args[0], p.args[1][:-1] + ("X" if up else "x")), "str"))
        elif p.op == "atom" and p.props.incl is not None and all(
                (c.upper() if up else c.lower()) == c for c in p.props.incl):
            ps.append(p)
        elif p.op == "str" and getattr(p.args[0], "ty", "") == "int":
            ps.append(p)
        elif p.op == "strftime" and strftime_len(p.args[1]) is not None and p.args[1].upper() == p.args[1] if False else False:
            ps.append(p)
        else:
            ps.append(T("upper" if up else "lower", (p,), p.ty))
    return cat(ps, isbytes(v))


def encode(v, codec="utf-8", cx=None, strict=True):
    """encode; raises through cx when there may be characters the codec has not (UTF-8: texts with lone surrogates, where it.lone)"""
    ps = []
    for p in parts(v):
        if isinstance(p, C):
            try:
                ps.append(C(p.v.encode(codec)))
            except UnicodeEncodeError as e:
                if codec == "utf-8" and not (cx is not None and strict and cx.it.lone):
                    ps.append(C(p.v.encode(codec, "surrogatepass")))
                else:
                    cx.raise_("UnicodeEncodeError", str(e))
        elif p.op == "dec" and p.args[1] == codec:
            ps.append(p.args[0])
        elif asciionly(p):
            ps.append(T("enc", (p, "utf-8"), "bytes"))
        else:
            if (codec != "utf-8" or cx is not None and strict and cx.it.lone) and not cx.cond(T("encodable", (p, codec), "bool")):
                cx.raise_("UnicodeEncodeError", "character outside the code")
            ps.append(T("enc", (p, codec), "bytes"))
    return cat(ps, True)


def decode(cx, v, codec="utf-8"):
    """decode; raises through cx when undecodable bytes are possible"""
    ps = []
    for p in parts(v):
        if isinstance(p, C):
            try:
                ps.append(C(bytes(p.v).decode(codec)))
            except UnicodeDecodeError as e:
                cx.raise_("UnicodeDecodeError", str(e))
        elif p.op == "enc" and (p.args[1] == codec or asciionly(p.args[0])):
            ps.append(p.args[0])
        elif asciionly(p):
            ps.append(T("dec", (p, "utf-8"), "str", None))
        elif codec in ("latin-1", "latin1", "iso-8859-1"):
            ps.append(T("dec", (p, codec), "str"))
        else:
            if not cx.cond(T("decodable", (p, codec), "bool")):
                cx.raise_("UnicodeDecodeError", "undecodable")
            ps.append(T("dec", (p, codec), "str"))
    return cat(ps, False)


def strip(cx, v, chars, left=True, right=True):
    """chars: str or None (whitespace)"""
    byt = isbytes(v)
    name = {(True, True): "strip", (True, False): "lstrip", (False, True): "rstrip"}[(left, right)]
    wschars = " \t\n\r\x0b\x0c" if chars is None else chars
    ps = list(parts(v))
    for rev in ([False] if left else []) + ([True] if right else []):
        while ps:
            i = -1 if rev else 0
            p = ps[i]
            if isinstance(p, C):
                s = cs(p)
                n = s.rstrip(wschars if chars is not None else None) if rev else s.lstrip(wschars if chars is not None else None)
                if n:
                    ps[i] = mk(n, byt)
                    break
                ps.pop(i)
                continue
            if excludes(p, wschars):
                if minlen(p) >= 1:
                    break
                # possibly empty: whatever follows becomes the edge
                if len(ps) == 1:
                    break
                q = ps[-2 if rev else 1]
                if isinstance(q, C) and cs(q)[-1 if rev else 0] not in wschars:
                    break
                if cx.cond(eq(cx, p, mk("", byt))):
                    ps.pop(i)
                    continue
                break
            if is1(p):
                c = contains(cx, C(wschars), p if not byt else p)
                if c is TRUE or (c is not FALSE and cx.cond(c)):
                    ps.pop(i)
                    continue
                break
            # opaque edge
            op = "rstrip" if rev else "lstrip"
            if len(ps) == 1:
                base = p
                if base.op == op and base.args[1] == chars:
                    break
                ps[i] = T(op, (base, chars), p.ty)
                break
            whole = cat(ps, byt)
            ps = [T(op, (whole, chars), p.ty)]
            break
    return cat(ps, byt)


class Unknown:
    """an unknown number of further pieces"""

    def __init__(self, term):
        self.term = term


def split(cx, v, sep, maxsplit=-1, right=False):
    """-> list of V, possibly ending (or starting, for right) in Unknown"""
    byt = isbytes(v)
    if isinstance(v, C):
        f = v.v.rsplit if right else v.v.split
        return [C(x) for x in f(sep.v if isinstance(sep, C) else sep, maxsplit)]
    if not isinstance(sep, C):
        return [Unknown(T("split", (v, sep, maxsplit), v.ty))]
    s = cs(sep) if sep.v is not None else None
    if s is None:
        return [Unknown(T("split", (v, None, maxsplit), v.ty))]
    if s == "":
        cx.raise_("ValueError", "empty separator")
    ps = list(parts(v))
    out = []
    cur = []
    n = 0
    if right:
        ps.reverse()
    k = 0
    while k < len(ps):
        p = ps[k]
        if maxsplit >= 0 and n >= maxsplit:
            cur.extend(ps[k:])
            break
        if isinstance(p, C):
            t = cs(p)
            left = maxsplit - n if maxsplit >= 0 else -1
            bits = t.rsplit(s, left) if right else t.split(s, left)
            if right:
                bits.reverse()
            for j, bit in enumerate(bits):
                if j > 0:
                    out.append(cur)
                    cur = []
                    n += 1
                if bit:
                    cur.append(mk(bit, byt))
            k += 1
            continue
        if not may_contain(p, s[0]) or not may_contain(p, s[-1]):
            cur.append(p)
            k += 1
            continue
        if len(s) == 1 and is1(p):
            if cx.cond(eq(cx, p, mk(s, byt))):
                out.append(cur)
                cur = []
                n += 1
            else:
                cur.append(p)
            k += 1
            continue
        if len(s) == 1 and not right:
            c = contains(cx, p, sep)
            if c is FALSE or c is not TRUE and not cx.cond(c):
                cur.append(p)
                k += 1
                continue
            cur.append(T("before", (p, s), p.ty))
            out.append(cur)
            cur = []
            n += 1
            rest = T("after", (p, s), p.ty)
            if maxsplit >= 0 and n >= maxsplit:
                cur.append(rest)
                cur.extend(ps[k + 1:])
                break
            rest = cat([rest] + ps[k + 1:], byt)
            res = [cat(x, byt) for x in out]
            return res + [Unknown(T("split", (rest, s, maxsplit - n if maxsplit >= 0 else -1), v.ty))]
        if len(s) == 1 and right:
            c = contains(cx, p, sep)
            if c is FALSE or c is not TRUE and not cx.cond(c):
                cur.append(p)
                k += 1
                continue
            cur.append(T("rafter", (p, s), p.ty))
            out.append(cur)
            n += 1
            rest = [T("rbefore", (p, s), p.ty)] + ps[k + 1:]
            if maxsplit >= 0 and n >= maxsplit:
                cur = rest
                break
            res = [cat(list(reversed(x)), byt) for x in out]
            whole = cat(list(reversed(rest)), byt)
            return [Unknown(T("split", (whole, s, -1), v.ty))] + list(reversed(res))
        return [Unknown(T("split", (v, s, maxsplit), v.ty))]
    out.append(cur)
    if right:
        return [cat(list(reversed(x)), byt) for x in reversed(out)]
    return [cat(x, byt) for x in out]


def replace(cx, v, a, b, count=-1):
    byt = isbytes(v)
    if isinstance(v, C):
        return C(v.v.replace(a.v, b.v, count))
    sa, sb = cs(a), cs(b)
    if count > 0 and len(sa) == 1:
        ps = list(parts(v))
        out = []
        while ps and count:
            p = ps[0]
            if isinstance(p, C):
                out.append(C(p.v.replace(a.v, b.v, count)))
                count -= min(count, p.v.count(a.v))
            elif not may_contain(p, sa):
                out.append(p)
            elif is1(p):
                hit = cx.cond(eq(cx, p, a))
                out.append(b if hit else p)
                count -= bool(hit)
            else:
                rest = cat(ps, byt)
                return cat(out + [T("replace", (rest, sa, sb, count), v.ty)], byt)
            ps.pop(0)
        return cat(out + ps, byt)
    if count != -1 or len(sa) != 1:
        if sa and all(not may_contain(v, ch) for ch in sa[:1]):
            return v
        return T("replace", (v, sa, sb) + ((count,) if count != -1 else ()), v.ty)
    ps = []
    for p in parts(v):
        if isinstance(p, C):
            ps.append(C(p.v.replace(a.v, b.v)))
        elif not may_contain(p, sa):
            ps.append(p)
        elif is1(p):
            ps.append(b if cx.cond(eq(cx, p, a)) else p)
        elif p.op == "replace" and len(p.args) == 3 and not sb and not p.args[2] and len(p.args[1]) == 1 and sa < p.args[1]:
            # deletions of single characters commute: keep them in order
            ps.append(T("replace", (T("replace", (p.args[0], sa, sb), p.ty), p.args[1], p.args[2]), p.ty))
        else:
            ps.append(T("replace", (p, sa, sb), p.ty))
    return cat(ps, byt)


def startswith(cx, v, pre, end=False):
    if isinstance(v, C) and isinstance(pre, C):
        return mkbool(v.v.endswith(pre.v) if end else v.v.startswith(pre.v))
    if isinstance(pre, C):
        byt = isbytes(v)
        t = cs(pre)
        ps = list(parts(v))
        if end:
            ps.reverse()
        while t and ps:
            p = ps.pop(0)
            if isinstance(p, C):
                s = cs(p)
                n = min(len(s), len(t))
                if end:
                    if s[-n:] != t[-n:]:
                        return FALSE
                    t = t[:-n]
                else:
                    if s[:n] != t[:n]:
                        return FALSE
                    t = t[n:]
                continue
            ch = t[-1] if end else t[0]
            if is1(p):
                c = eq(cx, p, mk(ch, byt))
                if c is FALSE or c is not TRUE and not cx.cond(c):
                    return FALSE
                t = t[:-1] if end else t[1:]
                continue
            if not may_contain(p, ch):
                if minlen(p) >= 1 or not any(may_contain(q, ch) for q in ps):
                    return FALSE
                if cx.cond(eq(cx, p, mk("", byt))):
                    continue
                return FALSE
            rest = cat([p] + ps if not end else list(reversed([p] + ps)), byt)
            return T("endswith" if end else "startswith", (rest, t), "bool")
        return mkbool(not t)
    return T("endswith" if end else "startswith", (v, pre), "bool")


def find(cx, v, sub):
    """position of first occurrence, or None if undecidable structurally"""
    if isinstance(v, C) and isinstance(sub, C):
        return C(v.v.find(sub.v))
    if isinstance(sub, C) and len(sub.v) == 1:
        t = cs(sub)
        pos = 0
        for p in parts(v):
            if isinstance(p, C):
                i = cs(p).find(t)
                if i >= 0:
                    return C(pos + i)
                pos += len(p.v)
                continue
            if may_contain(p, t):
                if is1(p):
                    if cx.cond(eq(cx, p, mk(t, isbytes(v)))):
                        return C(pos)
                else:
                    return None
            if minlen(p) != maxlen(p):
                return None
            pos += minlen(p)
        return C(-1)
    if isinstance(sub, C) and len(sub.v) > 1:
        for i, e in windows(cx, v, sub) or ():
            if e is TRUE or cx.cond(e):
                return C(i)
        if windows(cx, v, sub) is not None:
            return C(-1)
    return None


def windows(cx, v, sub):
    """where a constant of several characters may stand in a text of known characters, None for other texts"""
    ch = tochars(v)
    k = len(sub.v)
    if ch is None:
        return None
    out = []
    for i in range(len(ch) - k + 1):
        if all(not isinstance(c, C) and may_contain(c, cs(sub)[j]) or isinstance(c, C) and cs(c) == cs(sub)[j]
               for j, c in enumerate(ch[i:i + k])):
            e = eq(cx, cat(ch[i:i + k], isbytes(v)), sub)
            if e is not FALSE:
                out.append((i, e))
    return out if len(out) <= 16 else None


def tochars(v):
    """list of single characters (V), or None when some part has unknown length"""
    out = []
    for p in parts(v):
        if isinstance(p, C):
            s = p.v
            for i in range(len(s)):
                out.append(C(s[i:i + 1]))
        elif is1(p):
            out.append(p)
        else:
            return None
    return out


def subslice(p, s, e):
    """p[s:e] for constants within the length of p"""
    if isinstance(p, T) and p.op == "slice" and isinstance(p.args[1], C) and p.args[1].v >= 0:
        a = p.args[1].v
        return T("slice", (p.args[0], C(a + s), C(a + e)), p.ty)
    return T("slice", (p, C(s), C(e)), p.ty)


def slice_(cx, v, i, j, step=None):
    """i, j: V int or None"""
    byt = isbytes(v)
    if isinstance(v, C) and all(x is None or isinstance(x, C) for x in (i, j, step)):
        return C(v.v[slice(*(x.v if x is not None else None for x in (i, j, step)))])
    if step is not None and not (isinstance(step, C) and step.v == 1):
        ch = tochars(v)
        if ch is not None and all(x is None or isinstance(x, C) for x in (i, j, step)):
            return cat(ch[slice(*(x.v if x is not None else None for x in (i, j, step)))], byt)
        return T("slice3", (v, i, j, step), v.ty)
    if all(x is None or isinstance(x, C) for x in (i, j)):
        a = i.v if i is not None else 0
        b = j.v if j is not None else None
        a = 0 if a is None else a
        ch = tochars(v)
        if ch is not None:
            return cat(ch[a:b], byt)
        if a == 0 and b is None:
            return v
        mn, mx = minlen(v), maxlen(v)
        if a >= 0 and mx is not None and a >= mx:
            return mk("", byt)
        if a == 0 and b is not None and b >= 0 and mx is not None and mx <= b:
            return v
        # take from the front
        if a >= 0 and (b is None or b >= 0):
            if isinstance(v, T) and v.op == "slice" and all(x is None or isinstance(x, C) and (x.v is None or x.v >= 0) for x in v.args[1:]):
                lo, hi = (x.v if x is not None else None for x in v.args[1:])
                lo = lo or 0
                ends = [lo + b] if b is not None else []
                ends += [hi] if hi is not None else []
                if ends and minlen(v.args[0]) != maxlen(v.args[0]):
                    return slice_(cx, v.args[0], C(lo + a), C(min(ends)))
            ps = list(parts(v))
            pos = 0
            out = []
            ok = True
            while ps:
                p = ps[0]
                if b is not None and pos >= b:
                    return cat(out, byt)
                if isinstance(p, C) or minlen(p) == maxlen(p):
                    L = len(p.v) if isinstance(p, C) else minlen(p)
                    s, e = max(a - pos, 0), L if b is None else min(L, b - pos)
                    if e > s:
                        if isinstance(p, C):
                            out.append(C(p.v[s:e]))
                        elif s == 0 and e == L:
                            out.append(p)
                        else:
                            out.append(subslice(p, s, e))
                    pos += L
                    ps.pop(0)
                    continue
                # a part whose length is known on this path
                k = cx.st.eqc.get(T("len", (p,), "int")) if cx is not None else None
                if isinstance(k, C) and isinstance(k.v, int) and (a <= pos or a >= pos + k.v) and (b is None or b >= pos + k.v):
                    if a <= pos:
                        out.append(p)
                    pos += k.v
                    ps.pop(0)
                    continue
                # variable-length part
                if a <= pos and b is None:
                    return cat(out + ps, byt)
                if b is not None and len(ps) >= 1 and minlen(p) >= b - pos:
                    s = max(a - pos, 0)
                    out.append(T("slice", (p, C(s), C(b - pos)), p.ty))
                    return cat(out, byt)
                if b is None and minlen(p) >= a - pos:
                    out.append(T("slice", (p, C(a - pos), None), p.ty))
                    return cat(out + ps[1:], byt)
                ok = False
                break
            if ok:
                return cat(out, byt)
            rest = cat(ps, byt)
            s = C(max(a - pos, 0))
            e = None if b is None else C(b - pos)
            tail = T("slice", (rest, s, e), v.ty)
            return cat(out + [tail], byt)
        # take from / drop at the end
        if a >= 0 and b is not None and b < 0:
            ps = list(parts(slice_(cx, v, C(a), None)))
            n = -b
            while ps and n:
                p = ps[-1]
                if isinstance(p, C):
                    k = min(n, len(p.v))
                    ps[-1:] = [C(p.v[:-k])] if len(p.v) > k else []
                    n -= k
                elif minlen(p) == maxlen(p):
                    L = minlen(p)
                    if L <= n:
                        ps.pop()
                        n -= L
                    else:
                        ps[-1] = T("slice", (p, C(0), C(L - n)), p.ty)
                        n = 0
                else:
                    rest = cat(ps, byt)
                    return T("slice", (rest, C(0), C(-n)), v.ty)
            return cat(ps, byt)
        if a < 0 and b is None:
            ps = list(parts(v))
            n = -a
            out = []
            while ps and n:
                p = ps.pop()
                if isinstance(p, C):
                    k = min(n, len(p.v))
                    out.insert(0, C(p.v[-k:]))
                    n -= k
                elif minlen(p) == maxlen(p):
                    L = minlen(p)
                    if L <= n:
                        out.insert(0, p)
                        n -= L
                    else:
                        out.insert(0, T("slice", (p, C(L - n), C(L)), p.ty))
                        n = 0
                else:
                    rest = cat(ps + [p], byt)
                    out.insert(0, T("slice", (rest, C(-n), None), v.ty))
                    return cat(out, byt)
            return cat(out, byt)
    i = None if i is C(0) else i
    mx = maxlen(v)
    if mx is not None:
        from .num import interval
        for x in (i, j):
            lo = interval(x, cx.st)[0] if x is not None and not isinstance(x, C) else None
            if lo is not None and lo >= mx:
                if x is i:
                    return mk("", byt)
                if i is None:
                    return v
    return T("slice", (v, i if i is not None else C(0), j), "bytes" if byt else "str")
