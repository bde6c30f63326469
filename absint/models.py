"""Models of external objects: loggers, byte streams over known content, locks."""

from __future__ import annotations

from . import num, strings as S
from .values import V, C, T, Tup, Ref, Wrap, NONE, TRUE, FALSE, mkbool


class Model:
    types = ()

    def __repr__(self):
        return type(self).__name__

    def __eq__(self, o):
        return type(self) is type(o)

    def __hash__(self):
        return hash(type(self).__name__)


class Neutral(Model):
    """an object whose calls have no effect of interest (locks, ...)"""

    def call(self, cx, ref, name, args, kw):
        return NONE


class Logger(Model):
    def call(self, cx, ref, name, args, kw):
        if name in ("error", "warning", "warn", "critical", "exception", "fatal", "log"):
            cx.st.event("log", (name, tuple(args)), cx.it.where(cx))
        elif name in ("isEnabledFor",):
            return cx.it.truthv(cx, T("logenabled", tuple(args), "bool"))
        return NONE


class BytesIOModel(Model):
    """data[0]: the bytes not yet read"""

    def call(self, cx, ref, name, args, kw):
        from . import builtins_ as B
        w = cx.st.write(ref.oid)
        buf = cx.force(w.data[0])
        w = cx.st.write(ref.oid)
        if name == "read":
            n = args[0] if args else kw.get("size", C(-1))
            if n is NONE or isinstance(n, C) and n.v < 0:
                w.data[0] = C(b"")
                return buf
            n = concrete(cx, n, buf)
            r = S.slice_(cx, buf, None, n)
            w = cx.st.write(ref.oid)
            w.data[0] = S.slice_(cx, buf, n, None)
            return r
        if name == "readline" and (args or kw) and (args or list(kw.values()))[0] is not NONE:
            n = (args or list(kw.values()))[0]
            line = self.call(cx, ref, "readline", [], {})
            lo, hi = num.interval(n, cx.st)
            if hi is not None and hi < 0 or line == C(b""):
                return line
            size = B.order(cx, "<=", B.len_(cx, line), n)
            if not isinstance(size, C):
                B.unsupported("a line of unknown length read with a limit")
            if size.v:
                return line
            rest = cx.st.get(ref.oid).data[0]
            w = cx.st.write(ref.oid)
            w.data[0] = S.cat([S.slice_(cx, line, n, None), rest], True)
            return S.slice_(cx, line, None, n)
        if name == "readline":
            r = first_line(cx, buf)
            if r is not None:
                w = cx.st.write(ref.oid)
                w.data[0] = r[1]
                return r[0]
            if nested(buf, "after") > 2:
                B.unsupported("lines of opaque content")
            r = S.split(cx, buf, C(b"\n"), 1)
            w = cx.st.write(ref.oid)
            if any(isinstance(x, S.Unknown) for x in r):
                B.unsupported("readline on opaque content")
            if len(r) == 1:
                w.data[0] = C(b"")
                return buf
            w.data[0] = r[1]
            return S.cat([r[0], C(b"\n")], True)
        if name == "close":
            return NONE
        if name in ("getvalue",):
            return buf
        if name == "tell":
            return T("tell", (buf,), "int")
        B.unsupported(f"BytesIO.{name}")


def nested(v, op):
    n = 0
    while isinstance(v, T):
        n += v.op == op
        v = v.args[0] if v.args else None
    return n


def concrete(cx, n, buf):
    """decide a number of bytes case by case when the content has a small known length"""
    from . import builtins_ as B
    L = S.maxlen(buf)
    if isinstance(n, C) or L is None or S.minlen(buf) != L or L > 64:
        return n
    lo, hi = num.interval(n, cx.st)
    if lo is None or lo < 0:
        return n
    for k in range(int(lo), L):
        if hi is not None and k >= hi:
            return C(k)
        if cx.cond(B.equal(cx, n, C(k))):
            return C(k)
    return C(L)


def first_line(cx, buf):
    """(line, rest) when the first line end is in known content, bytes of
    unknown value before it being decided one by one; None when a part of
    unknown length comes first"""
    ps = list(S.parts(buf))
    for i, p in enumerate(ps):
        if isinstance(p, C):
            k = p.v.find(b"\n")
            if k >= 0:
                return (S.cat(ps[:i] + [C(p.v[:k + 1])], True), S.cat([C(p.v[k + 1:])] + ps[i + 1:], True))
        elif S.minlen(p) == S.maxlen(p) == 1:
            if cx.cond(S.eq(cx, p, C(b"\n"))):
                return S.cat(ps[:i + 1], True), S.cat(ps[i + 1:], True)
        elif not S.excludes(p, "\n"):
            return None
    return buf, C(b"")


class SocketModel(Model):
    """a connected socket: data[0] lists what the next calls of recv give
    (bytes, or the name of an exception, nothing left: end of stream); recv and
    send are recorded as events.  A segment longer than asked for is cut."""

    types = ("socket.socket", "object")

    def call(self, cx, ref, name, args, kw):
        from . import builtins_ as B
        if name == "recv":
            n = args[0] if args else kw.get("bufsize", C(4096))
            w = cx.st.write(ref.oid)
            script = w.data[0]
            if not script:
                cx.st.event("recv", (n, C(b"")), cx.it.where(cx))
                return C(b"")
            x = script[0]
            if isinstance(x, str):
                w.data[0] = script[1:]
                cx.st.event("recv", (n, C(x)), cx.it.where(cx))
                cx.raise_(x, x)
            L = S.maxlen(x)
            if isinstance(n, C) and L is not None and S.minlen(x) == L and L > n.v:
                x, rest = S.slice_(cx, x, None, n), S.slice_(cx, x, n, None)
                w = cx.st.write(ref.oid)
                w.data[0] = (rest,) + script[1:]
            else:
                w.data[0] = script[1:]
            cx.st.event("recv", (n, x), cx.it.where(cx))
            return x
        if name in ("send", "sendall"):
            cx.st.event("send", (name, args[0]) + tuple(args[1:]) + tuple((k, v) for k, v in kw.items()), cx.it.where(cx))
            return T("sent", (args[0],), "int") if name == "send" else NONE
        if name in ("settimeout", "setblocking", "shutdown", "close"):
            return NONE
        if name == "gettimeout":
            return NONE
        B.unsupported(f"socket.{name}")
