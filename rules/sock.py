"""Socket streams: buffering, chunked and compressed transfer encodings (C32-C35)."""

from __future__ import annotations

import itertools

from absint.models import BytesIOModel, SocketModel
from .common import (C, T, Tup, NONE, S, num, AbsRaise, engine, entry, compare, bad, excname, atom, witness, path)
from .msgs import with_lits
from .parsing import method
from .reader import tokens, snapshot, it_explore, B_items, describe, classes

FAILURES = ("TimeoutError", "OSError", "ConnectionResetError", "socket.timeout")
CHUNKED, GZIP, COMPRESS, DEFLATE = 1, 2, 4, 8


def seg(name, n=None):
    return atom(name, "bytes", minlen=1 if n is None else n, maxlen=n)


def bytes_of(name, n):
    return [atom(f"{name}{i}", "bytes", minlen=1, maxlen=1) for i in range(n)]


def wrapper(cx, script, encoding=None, bufsize=None):
    """(wrapper, socket) over a socket that delivers the script"""
    sock = cx.st.alloc("ext", None, [tuple(script)], SocketModel())
    kw = {}
    if encoding is not None:
        kw["encoding"] = C(encoding)
    if bufsize is not None:
        kw["bufsize"] = C(bufsize)
    return cx.force(cx.call(entry("socketwrapper.SocketWrapper"), [sock], kw)), sock


def content(cx, v):
    """a bytes or bytearray value as a term"""
    from absint.builtins_ import tobytes
    return tobytes(cx, cx.force(v))


def received(st):
    """what the socket has delivered so far: [(size asked for, item)]"""
    return [e.data for e in st.trace if e.kind == "recv"]


# ---- C34 buffering: one step from an arbitrary state ----------------------------------


def case_step(r, k, how):
    """any buffered bytes, any number asked for, up to k segments of any bytes, then
    the given end: nothing is lost or reordered, and the result has the length asked for"""
    it = engine()
    segs = [seg(f"s{i}") for i in range(k + 1)]
    script = list(segs) + ([] if how == "end" else [how])
    n = atom("n", "int", lo=0)
    ob = f"read({k} segments, {how})"

    def client(cx):
        w, sock = wrapper(cx, script)
        try:
            v = cx.force(method(cx, w, "read", n))
        except AbsRaise as e:
            cx.it._last = ("exc", e.exc, e.where)
            return
        v = content(cx, v)
        got = received(cx.st)
        left = content(cx, it.getattr(cx, w, "buffer"))
        whole = S.cat([v, left], True)
        wait = cx.force(method(cx, w, "in_waiting"))
        cx.it._last = ("ret", (v, got, whole, left, wait), None)
    for o in it_explore(it, client, it.newstate()):
        kind, x, where = o.val if o.kind != "exc" else ("exc", o.val, o.where)
        if kind == "exc":
            bad(r, ob, o.st, where, f"reading {ob} raises {sorted(classes(it, o.st, x)) if x is not None else x}")
            continue
        v, got, whole, left, wait = x
        items = [d for _, d in got]
        data = [d for d in items if not (isinstance(d, C) and (d.v == b"" or isinstance(d.v, str)))]
        failed = len(data) < len(items)
        every = S.cat(data, True) if data else C(b"")
        compare(r, ob + " conservation", o.st, whole, every, "SocketWrapper.read", "the bytes returned and still buffered")
        compare(r, ob + " in_waiting", o.st, wait, length(o.st, left), "SocketWrapper.in_waiting", "in_waiting")
        for lits, enough in ((
                [(num.ltc(length(o.st, every), n), False)], True), ([(num.ltc(length(o.st, every), n), True)], False)):
            st = with_lits(o.st, lits)
            if st is None:
                continue
            if enough:
                exp = it.do(lambda cx: S.slice_(cx, every, None, n), st.fork())[0].val
                compare(r, ob + " length", st, v, exp, "SocketWrapper.read", "the bytes returned")
            elif not failed:
                bad(r, ob, st, "SocketWrapper.read", f"{ob}: fewer bytes than asked for, and the socket has more: {v!r}")
            else:
                compare(r, ob + " short", st, v, C(b""), "SocketWrapper.read", "the bytes returned when there are not enough")


def length(st, v):
    from absint.builtins_ import b_len
    return engine().do(lambda cx: b_len(cx, [v], {}), st.fork())[0].val


# ---- C34 histories of concrete shape with arbitrary bytes -----------------------------


class RefSocket:
    """the reference: a buffer of byte pieces, topped up only when needed"""

    def __init__(self, script):
        self.script, self.buf = list(script), []
        self.recv()

    def recv(self):
        if not self.script:
            return False
        x = self.script.pop(0)
        if isinstance(x, str):
            return False
        self.buf += x
        return True

    def read(self, n):
        while len(self.buf) < n:
            if not self.recv():
                return []
        v, self.buf = self.buf[:n], self.buf[n:]
        return v

    def readline(self):
        line = []
        while True:
            b = self.read(1)
            line += b
            if not b or [x.v if isinstance(x, C) else None for x in line[-2:]] == [b"\r", b"\n"]:
                return line


def case_history(r, shape, ops):
    """shape: per recv the number of bytes, or an exception; 'l' ends a line"""
    it = engine()
    script, k = [], 0
    for x in shape:
        if isinstance(x, str) and x not in ("line", "cr", "lf"):
            script.append(x)
            continue
        n = 0 if isinstance(x, str) else x
        script.append([atom(f"b{k + i}", "bytes", minlen=1, maxlen=1, excl=frozenset("\r\n")) for i in range(n)] +
                      {"line": [C(b"\r"), C(b"\n")], "cr": [C(b"\r")], "lf": [C(b"\n")]}.get(x, []))
        k += n
    ob = f"{shape} {ops}"
    model = RefSocket(script)
    want = []
    for op in ops:
        if op == "w":
            want.append(C(len(model.buf)))
        elif op == "b":
            want.append(S.cat(model.buf, True) if model.buf else C(b""))
        else:
            v = model.readline() if op == "l" else model.read(op)
            want.append(S.cat(v, True) if v else C(b""))

    def client(cx):
        w, sock = wrapper(cx, [x if isinstance(x, str) else S.cat(x, True) for x in script])
        out = []
        for op in ops:
            if op == "w":
                out.append(cx.force(method(cx, w, "in_waiting")))
            elif op == "b":
                out.append(content(cx, it.getattr(cx, w, "buffer")))
            else:
                out.append(content(cx, method(cx, w, "readline") if op == "l" else method(cx, w, "read", C(op))))
        return Tup(out)
    for o in it.do(client, it.newstate()):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"socket {ob}: raises {sorted(excname(it, o))}")
            continue
        for i, (a, e) in enumerate(zip(o.val.items, want)):
            compare(r, f"{ob} {i}", o.st, a, e, "SocketWrapper", f"socket delivering {shape}, operation {i} ({ops[i]})")


def case_bufsize(r, size):
    it = engine()
    script = [seg("s0", 10), seg("s1", 1), seg("s2", 300)]

    def client(cx):
        w, sock = wrapper(cx, script, bufsize=size)
        return content(cx, method(cx, w, "read", C(311)))
    for o in it.do(client, it.newstate()):
        ob = f"bufsize {size}"
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"raises {sorted(excname(it, o))}")
            continue
        for n, _ in received(o.st):
            compare(r, ob, o.st, n, C(size or 4096), "SocketWrapper", "the size given to recv")
        compare(r, ob + " data", o.st, o.val, S.cat(script, True), "SocketWrapper.read", "the bytes read")


def case_write(r):
    it = engine()
    d = atom("data", "bytes")

    def client(cx):
        w, sock = wrapper(cx, [])
        return Tup([cx.force(method(cx, w, "write", d)), cx.force(method(cx, w, "in_waiting"))])
    for o in it.do(client, it.newstate()):
        if o.kind == "exc":
            bad(r, "write", o.st, o.where, f"raises {sorted(excname(it, o))}")
            continue
        sent = [e for e in o.st.trace if e.kind == "send"]
        if len(sent) != 1:
            bad(r, "write", o.st, "SocketWrapper.write", f"the data is sent {len(sent)} times")
            continue
        compare(r, "write", o.st, sent[0].data[1], d, "SocketWrapper.write", "the data sent")
        if sent[0].data[0] == "send":
            compare(r, "write result", o.st, o.val.items[0], T("sent", (d,), "int"), "SocketWrapper.write", "the result")
        compare(r, "write buffer", o.st, o.val.items[1], C(0), "SocketWrapper.write", "bytes buffered after writing")


def rule_buffer(rep):
    cases = [(case_step, (k, h)) for k in (0, 1, 2, 3) for h in ("end",) + FAILURES]
    cases += [(case_bufsize, (s,)) for s in (None, 1, 7, 100, 4096, 8192)] + [(case_write, ())]
    shapes = [(4,), (1, 1, 1, 1), (2, "OSError", 3), ("TimeoutError", 3, 1), (3, "line", 2), (2, "cr", "lf", 2), ("line", "line"),
              (2, "cr", "TimeoutError", "lf", 3, "line"), (1, "cr", 1, "lf", "line"), ("ConnectionResetError",), (), (5, "socket.timeout", "line", 1)]
    seqs = [(1, 1, 1, 1, 1, 1, "w"), (2, "b", 3, "b", 1), ("l", "l", "l", "w"), ("w", 1, "w", "l", 2, "b"), (6, "b", 6, 6, 4, "b", 2), (0, "w", 3, 0),
            ("l", 4, "l", "b"), (3, "l", "w", "l", "l", 1), (9, 9, 9, 9, 1, 2, 3, "b")]
    if rep.tier != "quick":
        seqs += list(itertools.product((1, 3, "l", "b"), repeat=4))
    cases += [(case_history, (s, q)) for s in shapes for q in seqs]
    rep.run(cases)


# ---- C32 chunked streams ------------------------------------------------------------------


def chunked(lens, style):
    """the encoded stream as a list of single-byte-cuttable pieces, and the bodies"""
    enc, bodies = [], []
    for i, n in enumerate(lens):
        h = {"lower": f"{n:x}", "upper": f"{n:X}", "zeros": f"{n:04x}"}[style]
        body = ("body", i, n)
        enc += [C(h.encode() + b"\r\n"), body, C(b"\r\n")]
        bodies.append(body)
    return enc


def cut(enc, cuts):
    """segments of the encoded stream, and the bodies in order, for cuts at the positions given"""
    pos, segs, cur, out = 0, [], [], []
    todo = sorted(set(cuts))
    for p in enc:
        L = len(p.v) if isinstance(p, C) else p[2]
        inner = [c - pos for c in todo if pos < c < pos + L]
        edges = [0] + inner + [L]
        for j, (a, b) in enumerate(zip(edges, edges[1:])):
            if pos + a in todo and cur:
                segs.append(cur)
                cur = []
            if isinstance(p, C):
                cur.append(C(p.v[a:b]))
            else:
                if L <= 32:
                    piece = [atom(f"d{p[1]}_{k}", "bytes", minlen=1, maxlen=1) for k in range(a, b)]
                else:
                    piece = [atom(f"d{p[1]}_{a}_{b}", "bytes", minlen=b - a, maxlen=b - a)]
                cur += piece
                out += piece
        pos += L
    if cur:
        segs.append(cur)
    return [S.cat(x, True) for x in segs], out


def total(enc):
    return sum(len(p.v) if isinstance(p, C) else p[2] for p in enc)


def case_chunks(r, lens, style, last, cuts, fail):
    it = engine()
    enc = chunked(lens, style)
    if last:
        enc.append(C(b"0\r\n\r\n" if last == "end" else b"000\r\n\r\n"))
    segs, out = cut(enc, cuts)
    script = segs
    if fail is not None:
        script = segs[:fail] + ["TimeoutError"] + segs[fail:]
    n = sum(lens)
    ob = f"chunks {lens} {style} {last} cut at {cuts} fail {fail}"

    def client(cx):
        w, sock = wrapper(cx, script, encoding=CHUNKED)
        res = []
        if fail is not None:
            # at most one failed attempt, which loses nothing
            x = content(cx, method(cx, w, "read", C(n)))
            if isinstance(x, C) and x.v == b"" and n:
                x = content(cx, method(cx, w, "read", C(n)))
        else:
            x = content(cx, method(cx, w, "read", C(n)))
        return Tup([x, content(cx, method(cx, w, "read", C(1)))])
    for o in it.do(client, it.newstate()):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            continue
        compare(r, ob, o.st, o.val.items[0], S.cat(out, True) if out else C(b""), "SocketWrapper.dechunk",
                f"chunks of {lens} bytes in segments cut at {cuts}: the bytes read")
        compare(r, ob + " end", o.st, o.val.items[1], C(b""), "SocketWrapper.dechunk", "bytes after the last chunk")


def case_large(r, n):
    """a chunk of given bytes whose length takes many hexadecimal digits"""
    it = engine()
    body = bytes(97 + i % 23 for i in range(n))
    ob = f"a chunk of {n} given bytes"

    def client(cx):
        w, sock = wrapper(cx, [C(f"{n:x}".encode() + b"\r\n" + body + b"\r\n"), C(b"2\r\nZ1\r\n0\r\n\r\n")], encoding=CHUNKED)
        return content(cx, method(cx, w, "read", C(n + 2)))
    for o in it.do(client, it.newstate()):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
        elif isinstance(o.val, C) and isinstance(o.val.v, bytes) and o.val.v != body + b"Z1":
            bad(r, ob, o.st, "SocketWrapper.dechunk", f"{ob} and one of 2: {len(o.val.v)} bytes are read")
        else:
            compare(r, ob, o.st, o.val, C(body + b"Z1"), "SocketWrapper.dechunk", f"{ob}: the bytes read")


def case_bytewise(r, lens, style):
    enc = chunked(lens, style) + [C(b"0\r\n\r\n")]
    case_chunks(r, lens, style, "end", tuple(range(1, total(enc))), None)


def case_anychunks(r, n):
    """arbitrary bytes in a chunked stream never make an exception escape"""
    it = engine()
    for pre in (b"", b"3\r\n", b"2\r\nab"):
        bs = bytes_of("a", n)

        def client(cx):
            w, sock = wrapper(cx, [S.cat([C(pre)] + bs, True), b"" and None or C(b"\r\n2\r\nab\r\n")], encoding=CHUNKED)
            return content(cx, method(cx, w, "read", C(1)))
        for o in it.do(client, it.newstate()):
            ob = f"arbitrary {n} bytes after {pre!r}"
            if o.kind == "exc":
                bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            else:
                r.ok(ob)


def rule_chunks(rep):
    cases = []
    shapes = [((3,), "lower"), ((1, 2), "lower"), ((10, 1, 26), "upper"), ((10, 1, 26), "lower"), ((5, 16), "zeros"), ((255, 3), "upper"), ((2, 2, 2), "lower")]
    for lens, style in shapes:
        for last in (None, "end", "zeros"):
            enc = chunked(lens, style) + ([C(b"0\r\n\r\n" if last == "end" else b"000\r\n\r\n")] if last else [])
            N = total(enc)
            some = [p for p in range(1, N) if N < 80 or p < 10 or p > 250]
            cases += [(case_chunks, (lens, style, last, (), None))]
            cases += [(case_chunks, (lens, style, last, (p,), f)) for p in some for f in (None, 1)]
            if N <= (30 if rep.tier == "quick" else 60):
                cases += [(case_chunks, (lens, style, last, c, None)) for c in itertools.combinations(some, 2)]
            if N <= 20 and rep.tier != "quick":
                cases += [(case_chunks, (lens, style, last, c, None)) for c in itertools.combinations(some, 3)]
                cases += [(case_chunks, (lens, style, last, c, f)) for c in itertools.combinations(some, 2) for f in (0, 1, 2)]
        cases.append((case_bytewise, (lens, style)))
    for lens in ((4096,), (70000, 5), (0x1000, 0xFFFF)):
        cases += [(case_chunks, (lens, "lower", "end", c, None)) for c in ((), (1,), (2, 3000), (100, 200, 300, 4100), (4102,), (4104,))]
    cases += [(case_anychunks, (n,)) for n in (1, 2)]
    cases += [(case_large, (n,)) for n in (15, 255, 4097, 65541, 0x100003)]
    rep.run(cases, secs=20)


# ---- C33 compressed chunks ---------------------------------------------------------------


WBITS = {GZIP: 31, COMPRESS: 15, DEFLATE: -15}


def gigabyte(t, pol):
    """a comparison that comes out so for a gigabyte of data only: it would come out differently with lengths of nothing"""
    from absint import num
    if not isinstance(t, T) or t.op not in ("lt", "eq") or not all(num.isint(a) for a in t.args):
        return False
    a, b = (num.lin(x)[0] for x in t.args)
    return max(abs(a), abs(b)) >= 10 ** 8 and (a < b if t.op == "lt" else a == b) != pol


def case_compressed(r, enc, lens, cuts):
    it = engine()
    raw = chunked(lens, "lower") + [C(b"0\r\n\r\n")]
    segs, out = cut(raw, cuts)
    # the pieces of each body
    bodies, k = [], 0
    for n in lens:
        ps, m = [], 0
        while m < n:
            ps.append(out[k])
            m += S.maxlen(out[k])
            k += 1
        bodies.append(S.cat(ps, True))
    ob = f"encoding {enc} chunks {lens} cut at {cuts}"

    def client(cx):
        w, sock = wrapper(cx, segs, encoding=CHUNKED | enc)
        # ask for more bytes than there are, so that the socket is read to its end
        v = content(cx, method(cx, w, "read", C(10 ** 9)))
        return S.cat([v, content(cx, it.getattr(cx, w, "buffer"))], True)
    for o in it.do(client, it.newstate()):
        if o.kind == "exc":
            fault(r, ob, o.st, f"{o.where}: raises {sorted(excname(it, o))}")
            continue
        if any(gigabyte(t, pol) for t, pol in o.st.flog):
            continue
        good, flags = list(bodies), [True] * len(bodies)
        for e in (GZIP, COMPRESS, DEFLATE):  # several encodings are undone one after the other
            if enc & e:
                for i, b in enumerate(good):
                    f = o.st.facts.get(T("inflateok", (b, C(WBITS[e])), "bool"))
                    flags[i] = f if flags[i] is True else flags[i]
                    good[i] = T("inflate", (b, C(WBITS[e])), "bytes", None)
        got = list(S.parts(o.val))
        if any(f is None for f in flags):
            fault(r, ob, o.st, f"a chunk is delivered without being decompressed as its encoding asks: {o.val!r}")
        elif all(flags):
            if got == good:
                r.ok(ob)
            else:
                fault(r, ob, o.st, f"expected {S.cat(good, True)!r}, delivered {o.val!r}")
        elif enc in WBITS:
            # a chunk that cannot be decompressed affects no other chunk
            if [p for p in got if isinstance(p, T) and p.op == "inflate"] == [g for g, f in zip(good, flags) if f]:
                r.ok(ob + " contained")
            else:
                fault(r, ob + " contained", o.st, f"after a chunk that cannot be decompressed, {o.val!r} is delivered; expected the others of {good!r}")


def fault(r, ob, st, msg):
    """a violation for sure when only the success of each decompression was
    decided: which chunks hold valid compressed data is up to the peer"""
    seen = {}
    for t, pol in st.flog:
        if t.op == "inflateok":
            seen.setdefault(t.args[0], []).append(pol)
        elif not (t.op == "lt" and t.args[1] is C(10 ** 9)):
            r.und(ob, f"{msg}{path(st)}", "SocketWrapper.dechunk")
            return
    if any(sum(p) > 1 for p in seen.values()):
        r.und(ob, f"{msg}{path(st)}", "SocketWrapper.dechunk")
    else:
        r.viol(ob, "SocketWrapper.dechunk", f"{ob}: {msg}{path(st)}")


def rule_compressed(rep):
    cases = []
    for enc in (GZIP, COMPRESS, DEFLATE, GZIP | COMPRESS, COMPRESS | DEFLATE, GZIP | DEFLATE, GZIP | COMPRESS | DEFLATE):
        for lens in ((30,), (32, 29), (40, 21, 25)):
            N = total(chunked(lens, "lower")) + 5
            cases.append((case_compressed, (enc, lens, ())))
            cases += [(case_compressed, (enc, lens, (p,))) for p in range(1, N)]
            if rep.tier != "quick":
                cases += [(case_compressed, (enc, lens, c)) for c in itertools.combinations(range(1, N), 2)]
    rep.run(cases)


# ---- C35 reading from a socket ------------------------------------------------------------


def case_socket(r, word, cuts, how, encoding):
    """a reader over a socket gives what a reader over the same bytes gives"""
    it = engine()
    pieces = []
    for i, tk in enumerate(word):
        v, _ = tokens(i, tk, False)
        for p in S.parts(v):
            pieces.append(p)
    whole = S.cat(pieces, True)
    ch = S.tochars(whole)
    segs, last = [], 0
    for c in tuple(cuts) + (len(ch),):
        if c > last:
            segs.append(S.cat(ch[last:c], True))
            last = c
    if encoding:
        segs = [S.cat([C(f"{S.maxlen(s):x}\r\n".encode()), s, C(b"\r\n")], True) for s in segs] + [C(b"0\r\n\r\n")]
    ob = f"socket {'.'.join(word)} {cuts} {how} encoding {encoding}"
    st = it.newstate()
    kw = {"quitonerror": C(2 if how == "raise" else 1)}

    def readall(cx, rd, n):
        out = []
        for _ in range(n):
            try:
                v = cx.force(method(cx, rd, "read"))
            except AbsRaise as e:
                out.append(C("raises " + "/".join(sorted(classes(it, cx.st, e.exc)))))
                continue
            raw, msg = [cx.force(x) for x in B_items(cx, v)]
            out.append(Tup([raw, snapshot(cx, msg)]))
        return Tup(out)

    def client(cx):
        R = entry("NMEAReader")
        n = len(word) + 2
        sock = cx.st.alloc("ext", None, [tuple(segs)], SocketModel())
        skw = dict(kw)
        if encoding:
            skw["encoding"] = C(encoding)
        a = readall(cx, cx.call(R, [sock], skw), n)
        stream = cx.st.alloc("ext", None, [whole], BytesIOModel())
        b = readall(cx, cx.call(R, [stream], kw), n)
        return Tup([a, b])
    for o in it.do(client, st):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            continue
        compare(r, ob, o.st, o.val.items[0], o.val.items[1], "NMEAReader.read", "results over the socket and over a file of the same bytes")


def case_longline(r, n, size):
    """sentences far longer than any limit of the format, in segments of some size"""
    it = engine()
    it.maxloop = max(it.maxloop, 4 * n)
    body = "GNTXT,01,01,02," + "a" * n
    c = 0
    for x in body.encode():
        c ^= x
    whole = f"${body}*{c:02X}\r\n".encode() + b"$GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A*68\r\n"
    segs = tuple(C(whole[i:i + size]) for i in range(0, len(whole), size))
    ob = f"line of {n} in segments of {size}"

    def readall(cx, rd):
        out = []
        for _ in range(3):
            raw, msg = [cx.force(x) for x in B_items(cx, cx.force(method(cx, rd, "read")))]
            out.append(Tup([raw, snapshot(cx, msg)]))
        return Tup(out)

    def client(cx):
        R = entry("NMEAReader")
        sock = cx.st.alloc("ext", None, [segs], SocketModel())
        a = readall(cx, cx.call(R, [sock], {"quitonerror": C(2)}))
        stream = cx.st.alloc("ext", None, [C(whole)], BytesIOModel())
        return Tup([a, readall(cx, cx.call(R, [stream], {"quitonerror": C(2)}))])
    for o in it.do(client, it.newstate()):
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            continue
        compare(r, ob, o.st, o.val.items[0], o.val.items[1], "NMEAReader.read", "results over the socket and over a file of the same bytes")


def case_readersize(r, size, enc=None, more=()):
    it = engine()
    more = dict(more)
    raw = chunked((3, 2), "lower") if enc is not None and enc & CHUNKED else [C(b"$GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A*68\r\n")]
    whole = S.cat(cut(raw, ())[0], True)

    def client(cx):
        kw = {k: C(v) for k, v in (("bufsize", size), ("encoding", enc)) if v is not None}
        out = []
        for who in ("reader", "wrapper"):
            sock = cx.st.alloc("ext", None, [(whole,)], SocketModel())
            if who == "reader":
                rd = cx.call(entry("NMEAReader"), [sock], {**kw, **{k: C(v) for k, v in more.items()}})
                w = it.getattr(cx, rd, "datastream")
            else:
                w = cx.call(entry("socketwrapper.SocketWrapper"), [sock], kw)
            v = content(cx, method(cx, w, "read", C(10 ** 9)))
            out.append(S.cat([v, content(cx, it.getattr(cx, w, "buffer"))], True))
        return Tup(out)
    ob = f"reader bufsize {size} encoding {enc} {more}"
    for o in it.do(client, it.newstate()):
        if any(gigabyte(t, pol) for t, pol in o.st.flog):
            continue
        if o.kind == "exc":
            bad(r, ob, o.st, o.where, f"{ob}: raises {sorted(excname(it, o))}")
            continue
        for n, _ in received(o.st):
            compare(r, ob, o.st, n, C(size or 4096), "NMEAReader", f"{ob}: the size given to recv")
        compare(r, ob, o.st, o.val.items[0], o.val.items[1], "NMEAReader", f"{ob}: bytes delivered to the reader and by a SocketWrapper of these settings")


def rule_socket(rep):
    cases = [(case_readersize, (s,)) for s in (None, 1, 64, 4096, 10000)]
    for e in [None] + list(range(16)):
        for s in (None, 77, 9000):
            cases.append((case_readersize, (s, e)))
        cases.append((case_readersize, (77, e, (("msgmode", 1), ("validate", 0), ("quitonerror", 2), ("nmeaonly", True)))))
    for n, size in ((300, 77), (1100, 1), (4200, 4096)) if rep.tier == "quick" else ((300, 77), (1100, 1), (2100, 4096), (4200, 1000), (9000, 4096)):
        cases.append((case_longline, (n, size)))
    words = [("t",), ("t", "t"), ("n", "t"), ("m", "t", "b"), ("b", "t"), ("t", "E", "t"), ("t", "T2"), ("T1",), ("d", "t"), ()]
    for w in words:
        L = 0
        for i, tk in enumerate(w):
            L += S.maxlen(tokens(i, tk, False)[0]) or 0
        for enc in (0, CHUNKED):
            for how in ("raise", "log"):
                cases.append((case_socket, (w, (), how, enc)))
                for p in range(1, L, 1 if rep.tier != "quick" else 3):
                    cases.append((case_socket, (w, (p,), how, enc)))
                cases.append((case_socket, (w, tuple(range(1, L)), how, enc)))
                cases.append((case_socket, (w, tuple(range(5, L, 7)), how, enc)))
    rep.run(cases)
