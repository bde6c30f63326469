"""Loops over sequences whose length is not known."""

from __future__ import annotations

import ast
import copy

from . import num, strings as S
from .values import V, C, T, Tup, Ref, Phi, NONE, UNBOUND

SENTINEL_MAX = 400


def unknown_tail(cx, v, tail):
    """handler run after the known prefix of a for loop"""
    if tail.op == "rangetail":
        return lambda it, s, cur, sc, body, res: range_tail(it, s, cur, sc, body, res, *tail.args)
    if tail.op == "count":
        return lambda it, s, cur, sc, body, res: count_tail(it, s, cur, sc, body, res, tail.args[0])
    return lambda it, s, cur, sc, body, res: generic_tail(it, s, cur, sc, body, res, tail)


_ALT = {}


def index_loop(s):
    """for i in range(len(x)) whose body uses i only in x[i]:  for e in x"""
    if s in _ALT:
        return _ALT[s]
    _ALT[s] = r = _index_loop(s)
    return r


def _index_loop(s):
    it = s.iter
    if not (isinstance(s.target, ast.Name) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range"
            and len(it.args) == 1 and not it.keywords and not s.orelse):
        return None
    ln = it.args[0]
    if not (isinstance(ln, ast.Call) and isinstance(ln.func, ast.Name) and ln.func.id == "len" and len(ln.args) == 1 and not ln.keywords
            and isinstance(ln.args[0], ast.Name)):
        return None
    i, x = s.target.id, ln.args[0].id
    new = "<element>"
    ok = [True]

    class Tr(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if isinstance(n.value, ast.Name) and n.value.id == x and isinstance(n.slice, ast.Name) and n.slice.id == i and \
                    isinstance(n.ctx, ast.Load):
                return ast.copy_location(ast.Name(new, ast.Load()), n)
            return self.generic_visit(n)

        def visit_Name(self, n):
            if n.id == i or n.id == x and not isinstance(n.ctx, ast.Load):
                ok[0] = False
            return n
    c = copy.deepcopy(s)
    c.body = [Tr().visit(b) for b in c.body]
    if not ok[0]:
        return None
    c.iter = ast.copy_location(ast.Name(x, ast.Load()), it)
    c.target = ast.copy_location(ast.Name(new, ast.Store()), s.target)
    return ast.fix_missing_locations(c)


def range_tail(it, s, cur, sc, body, res, lo, hi):
    """for i in range(lo, hi) with hi symbolic: one abstract iteration at a time,
    leaving the loop on the branch where i >= hi"""
    done = []
    i = lo
    n = 0
    while cur:
        nxt = []
        for st in cur:
            outs = it.explore(st, sc, s, lambda cx: C(cx.cond(num.ltc(i, hi))))
            for o in outs:
                (nxt if o.val.v else done).append(o.st)
        if not nxt:
            break
        n += 1
        lim = getattr(it, "range_limit", 64)
        if n > lim:
            h = getattr(it, "range_exceeded", None)
            if h is not None:
                h(it, s, sc, hi, nxt)
                break
            from .interp import Unsupported
            raise Unsupported(f"loop over range({hi!r}) does not end within {lim} iterations")
        from .state import join_states
        js = [x for x, _ in join_states(nxt[0], [(c, None) for c in nxt])] if len(nxt) > 1 else nxt
        cur = body(js, i)
        i = num.iadd(i, C(1))
    return done


def count_tail(it, s, cur, sc, body, res, start):
    i = start
    n = 0
    while cur:
        cur = body(cur, i)
        i = num.iadd(i, C(1))
        n += 1
        if n > it.maxloop:
            from .interp import Unsupported
            raise Unsupported("itertools.count loop")
    return []


def generic_tail(it, s, cur, sc, body, res, tail):
    """zero or more iterations over elements about which nothing is known.

    The variables and objects changed by one iteration become opaque functions
    of the loop and of what the loop reads; a second iteration from that
    generalised state collects the remaining exceptional outcomes."""
    from .builtins_ import tail_elem
    out = []
    for st0 in cur:
        f = try_fold(it, s, st0, sc, body, res, tail)
        if f is not None:
            out.append(f)
            continue
        ln = T("len", (tail,), "int")
        # no iteration
        outs = it.explore(st0, sc, s, lambda cx: C(cx.cond(num.ltc(C(0), ln))))
        for o in outs:
            if not o.val.v:
                out.append(o.st)
                continue
            st1 = o.st
            if tail.op == "enumtail":
                e1 = Tup((T("anyidx", (tail,), "int"), tail_elem(tail.args[0], T("anyidx", (tail,), "int"))))
            else:
                e1 = tail_elem(tail, T("anyidx", (tail,), "int"))
            after = body([st1], e1)
            for a in after:
                g = generalise(it, s, st1, a, tail, sc)
                again = body([g], e1) if g is not a else [a]
                for b in again:
                    h = generalise(it, s, g, b, tail, sc)
                    out.append(h if h is not b else b)
    return out


ELEM = {}


def elem_of(tail):
    """placeholder for an element of a sequence, inside a fold"""
    e = tail_elem_term(tail)
    if e.ty not in ("int", "str", "bytes"):
        return None
    return T("foldelem", (e.ty,), e.ty)


def tail_elem_term(tail):
    from .builtins_ import tail_elem
    return tail_elem(tail, T("anyidx", (tail,), "int"))


def try_fold(it, s, st0, sc, body, res, tail):
    """a loop that only accumulates one value is the fold of its body"""
    if tail.op == "enumtail":
        return None
    e = elem_of(tail)
    if e is None:
        return None
    n = len(res)

    def once(st):
        after = body([st], e)
        if len(after) != 1 or len(res) != n:
            del res[n:]
            return None
        a = after[0]
        if a.trace != st.trace or a.flog != st.flog:
            return None
        ch = []
        for oid, o in a.heap.items():
            p = st.heap.get(oid)
            if p is o or p is None:
                continue
            if o.kind != "env":
                return None
            for k, v in o.data.items():
                if k in p.data and p.data[k] is not v and k != getattr(s.target, "id", None) and p.data[k] is not UNBOUND:
                    ch.append((oid, k))
        return a, ch
    a = once(st0.fork())
    if a is None or len(a[1]) != 1:
        return None
    oid, k = a[1][0]
    init = st0.heap[oid].data[k]
    new = a[0].heap[oid].data[k]
    ty = num.ty(new) or getattr(new, "ty", None)
    if ty is None and isinstance(new, C):
        ty = type(new.v).__name__
    if ty not in ("int", "str", "bytes", "float", "bool"):
        return None
    st = st0.fork()
    acc = T("foldacc", (ty,), ty)
    st.write(oid).data[k] = acc
    b = once(st)
    if b is None or any(c != (oid, k) for c in b[1]):
        return None
    r = b[0].heap[oid].data[k]
    if not isinstance(r, (T, C)):
        return None
    out = st0.fork()
    w = out.write(oid)
    w.data[k] = T("fold", (tail, init, r), ty)
    if isinstance(getattr(s.target, "id", None), str) and s.target.id in a[0].heap[oid].data:
        w.data[s.target.id] = tail_elem_term(tail)
    return out


def generalise(it, s, st0, st1, tail, sc):
    """replace every cell that differs between st0 and st1 by an opaque term"""
    changed = []
    for oid, o in st1.heap.items():
        p = st0.heap.get(oid)
        if p is o or p is None:
            continue
        changed.append((oid, p, o))
    if not changed:
        return st1
    st = st1.fork()
    for oid, p, o in changed:
        w = st.write(oid)
        if isinstance(o.data, dict):
            for k, v in o.data.items():
                if p.data.get(k) is not v:
                    if k == getattr(s.target, "id", None):
                        continue
                    if k not in p.data and o.kind == "env":
                        continue
                    w.data[k] = havoc(it, s, p.data.get(k), v, tail, (oid, k), st0)
        elif isinstance(o.data, list):
            if len(o.data) == len(p.data):
                for i, v in enumerate(o.data):
                    if p.data[i] is not v:
                        w.data[i] = havoc(it, s, p.data[i], v, tail, (oid, i), st0)
            elif o.kind == "list":
                w.kind = "ulist"
                w.data = list(p.data)
                w.extra = T("grown", (s.lineno, tail), "any")
    return st


def havoc(it, s, old, new, tail, where, st0):
    if isinstance(new, Ref):
        return new
    ty = getattr(new, "ty", None) or num.ty(new) or "any"
    if isinstance(new, Phi):
        tys = {getattr(a, "ty", None) or num.ty(a) for _, a in new.alts}
        ty = tys.pop() if len(tys) == 1 else "any"
    base = old if old is not None else NONE
    if isinstance(base, T) and base.op == "loop":
        return base
    if isinstance(base, Ref):
        base = NONE
    return T("loop", (id(s), str(where[1]), tail, base), ty if ty in ("int", "str", "bytes", "float", "bool") else "any")
