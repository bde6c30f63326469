"""Regular expressions over partly known text: inclusion of the language of the
text (constants and pieces with a character class and length bounds) in the
language of the pattern, decided on the subset automaton of the pattern."""

from __future__ import annotations

import re
from re import _parser as sp

from . import strings as S
from .values import C, T

ALPHA = [chr(i) for i in range(128)] + ["\u0663", "\u00e9", "\u00b0", "\u2032", "\u2033", "\u2028", "\U0001f600"]


class NFA:
    def __init__(self, pat):
        self.n = 0
        self.memo = {}    # (states, at start, character): next states
        self.eps = []
        self.tr = []      # per state: (predicate, target)
        self.anchor = []  # per state: (kind, target)
        s = self.new()
        self.start = s
        self.final = self.build(sp.parse(pat), s)

    def new(self):
        self.eps.append([])
        self.tr.append([])
        self.anchor.append([])
        self.n += 1
        return self.n - 1

    def build(self, items, s):
        for op, av in items:
            s = self.item(str(op), av, s)
        return s

    def item(self, op, av, s):
        if op in ("LITERAL", "NOT_LITERAL", "IN", "ANY"):
            e = self.new()
            self.tr[s].append((pred(op, av), e))
            return e
        if op == "BRANCH":
            e = self.new()
            for alt in av[1]:
                b = self.new()
                self.eps[s].append(b)
                self.eps[self.build(alt, b)].append(e)
            return e
        if op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            for _ in range(lo):
                s = self.build(sub, s)
            if hi is sp.MAXREPEAT:
                b = self.new()
                self.eps[s].append(b)
                e = self.build(sub, b)
                self.eps[e].append(b)
                return b
            if hi - lo > 60:
                raise NotImplementedError
            end = self.new()
            self.eps[s].append(end)
            for _ in range(hi - lo):
                s = self.build(sub, s)
                self.eps[s].append(end)
            return end
        if op == "SUBPATTERN":
            if av[1] or av[2]:
                raise NotImplementedError
            return self.build(av[3], s)
        if op == "AT":
            k = str(av)
            if k not in ("AT_BEGINNING", "AT_BEGINNING_STRING", "AT_END", "AT_END_STRING"):
                raise NotImplementedError
            e = self.new()
            self.anchor[s].append((k, e))
            return e
        raise NotImplementedError(op)

    def close(self, st, at0, end):
        """end: None inside, 'end' at the end, 'nl' before a final newline"""
        todo, seen = list(st), set(st)
        while todo:
            x = todo.pop()
            nx = list(self.eps[x])
            for k, e in self.anchor[x]:
                if k.startswith("AT_BEGINNING") and at0:
                    nx.append(e)
                if k == "AT_END" and end in ("end", "nl") or k == "AT_END_STRING" and end == "end":
                    nx.append(e)
            for e in nx:
                if e not in seen:
                    seen.add(e)
                    todo.append(e)
        return frozenset(seen)

    def step(self, st, ch):
        return frozenset(e for x in st for p, e in self.tr[x] if p(ch))

    def move(self, st, at0, ch):
        k = (st, at0, ch)
        m = self.memo.get(k)
        if m is None:
            m = self.memo[k] = self.step(self.close(st, at0, None), ch)
        return m


CATS = {"CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_SPACE": r"\s", "CATEGORY_NOT_SPACE": r"\S",
        "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W"}


def pred(op, av):
    if op == "LITERAL":
        return lambda ch: ord(ch) == av
    if op == "NOT_LITERAL":
        return lambda ch: ord(ch) != av
    if op == "ANY":
        return lambda ch: ch != "\n"
    neg = False
    fs = []
    for o, a in av:
        o = str(o)
        if o == "NEGATE":
            neg = True
        elif o == "LITERAL":
            fs.append(lambda ch, a=a: ord(ch) == a)
        elif o == "RANGE":
            fs.append(lambda ch, a=a: a[0] <= ord(ch) <= a[1])
        elif o == "CATEGORY":
            rx = re.compile(CATS[str(a)])
            fs.append(lambda ch, rx=rx: rx.match(ch) is not None)
        else:
            raise NotImplementedError(o)
    return lambda ch: any(f(ch) for f in fs) != neg


_N = {}


def nfa(pat):
    if pat not in _N:
        try:
            _N[pat] = NFA(pat)
        except (NotImplementedError, KeyError, re.error):
            _N[pat] = None
    return _N[pat]


def pieces(v):
    """[(characters, min, max)] or None"""
    out = []
    for p in S.parts(v):
        if isinstance(p, C):
            out += [([c], 1, 1) for c in S.cs(p)]
        else:
            out.append(([c for c in ALPHA if S.may_contain(p, c)], S.minlen(p), S.maxlen(p)))
    return out


_D = {}


def decide(name, pat, v):
    """True / False / None: does every / no / some text match"""
    k = (name, pat, v)
    if k not in _D:
        if len(_D) > 20000:
            _D.clear()
        _D[k] = _decide(name, pat, v)
    return _D[k]


def _decide(name, pat, v):
    a = nfa(pat)
    if a is None or S.isbytes(v):
        return None
    ps = pieces(v)
    # subsets: (NFA states, at start, already matched)
    full = name == "fullmatch"
    cur = {(frozenset([a.start]), True, False)}

    def norm(x):
        st, at0, done = x
        if not done and not full and a.final in a.close(st, at0, None):
            done = True
        if done:
            return (frozenset(), False, True)
        return x

    def adv(x, ch):
        st, at0, done = x
        if done:
            return x
        nx = a.move(st, at0, ch)
        if name == "search":
            nx = nx | {a.start}
        return norm((nx, False, False))
    cur = {norm(x) for x in cur}
    last = set()
    for chars, lo, hi in ps:
        k = 0
        acc = set(cur) if lo == 0 else set()
        layer = cur
        seen = set()
        while hi is None or k < hi:
            layer = {adv(x, ch) for x in layer for ch in chars}
            k += 1
            if k >= lo:
                acc |= layer
            fl = frozenset(layer)
            if fl in seen and k >= lo:
                break
            seen.add(fl)
            if k > 400 or len(layer) > 400:
                return None
        cur = acc
        if len(cur) > 400:
            return None
    # a final newline: '$' also matches before it
    nl = bool(ps) and "\n" in ps[-1][0]
    if nl and not full:
        return None
    res = set()
    for st, at0, done in cur:
        res.add(done or a.final in a.close(st, at0, "end"))
    return res.pop() if len(res) == 1 else None


def split(pat, v, maxsplit):
    """the pieces of re.split for a single-character separator, or None"""
    try:
        p = list(sp.parse(pat))
    except re.error:
        return None
    if len(p) != 1 or str(p[0][0]) not in ("LITERAL", "NOT_LITERAL", "IN") or S.isbytes(v):
        return None
    issep = pred(str(p[0][0]), p[0][1])
    out, cur, n = [], [], 0
    for x in S.parts(v):
        if isinstance(x, C):
            for ch in S.cs(x):
                if issep(ch) and (maxsplit <= 0 or n < maxsplit):
                    out.append(S.cat(cur, False))
                    cur, n = [], n + 1
                else:
                    cur.append(C(ch))
        else:
            if (maxsplit <= 0 or n < maxsplit) and any(issep(c) for c in ALPHA if S.may_contain(x, c)):
                return None
            cur.append(x)
    out.append(S.cat(cur, False))
    return out
