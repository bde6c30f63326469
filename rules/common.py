"""Shared machinery of the rules: building the abstract program, abstract
messages, running cases in parallel and reporting."""

from __future__ import annotations

import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(12000)

from absint import strings as S, num, witness  # noqa: E402
from absint.interp import Interp, Unsupported, Infeasible, AbsRaise, Out  # noqa: E402
from absint.values import (V, C, T, Tup, Ref, Phi, Fn, Bound, Wrap, Cls, Bi, NONE, TRUE, FALSE,  # noqa: E402
                           EMPTY, UNBOUND, atom, Props)

SRC = os.environ.get("VERIF_SRC", "/repo/src")
IT = None

DELIMS = frozenset(",*$\r\n")


class Anchor(Exception):
    """a public entry point the property speaks about does not exist"""


def engine():
    global IT
    if IT is None:
        IT = Interp(SRC, extra={"refspec": os.path.join(ROOT, "spec", "refspec.py")})
    return IT


def entry(name):
    try:
        return engine().lookup(name)
    except KeyError:
        raise Anchor(name) from None


def unlift(it, v, st=None):
    st = st or it.newstate()
    if isinstance(v, C):
        return v.v
    if isinstance(v, Tup):
        return tuple(unlift(it, x, st) for x in v.items)
    if isinstance(v, Ref):
        o = st.get(v.oid)
        if o.kind == "dict":
            return {unlift(it, k, st): unlift(it, x, st) for k, x in o.data.items()}
        if o.kind == "list":
            return [unlift(it, x, st) for x in o.data]
        if o.kind == "set":
            return {unlift(it, x, st) for x in o.data}
    if isinstance(v, Wrap) and v.kind in ("frozenset",):
        return set(unlift(it, x, st) for x in v.args)
    raise Unsupported(f"constant table contains {v!r}")


def table(name):
    return unlift(engine(), entry(name))


# ---- results -----------------------------------------------------------------

OK, VIOL, UND = "ok", "violation", "undecided"


class Res:
    """results of one case"""

    def __init__(self):
        self.items = []

    def ok(self, ob):
        self.items.append((OK, ob, "", ""))

    def viol(self, ob, where, msg):
        self.items.append((VIOL, ob, fmtwhere(where), msg))

    def und(self, ob, msg, where=None):
        self.items.append((UND, ob, fmtwhere(where), msg))

    def check(self, cond, ob, where, msg):
        if cond:
            self.ok(ob)
        else:
            self.viol(ob, where, msg)


def fmtwhere(w):
    if w is None:
        return ""
    if isinstance(w, str):
        return w
    return f"{w[0]}:{w[1]} in {w[2]}"


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


DEADLINE = None
HARD = 75
LATE = mp.Value("i", 0)
CASE_SECS = 60


ENOUGH = 40  # a run with this many violations is ended


def _numbered(x):
    return x[0], _run_case(x[1])


def _run_case(job):
    fn, args, secs = job
    r = Res()
    t0 = time.time()
    it = IT
    f0 = (it.nstmts, it.ncalls)
    it.funcs = set()
    it.covered = set()
    if DEADLINE is not None and time.time() > DEADLINE:
        r.und(str(args)[:200], "time budget of the whole check exhausted")
        return r.items, (0, 0), set(), 0
    if LATE.value >= 8:
        secs /= 6  # the code is not followed in many cases: give each of the others less
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs if DEADLINE is None else max(1, min(secs, DEADLINE + 60 - time.time())), 5)
    saved = (it.loop_hook, dict(it.bi_over), dict(it.fn_over), it.maxloop, it.maxstates, it.depth, it.clock)
    try:
        fn(r, *args)
    except Unsupported as e:
        r.und(f"{fn.__name__}{args}"[:300], f"not followed: {e}")
    except _Timeout:
        r.und(f"{fn.__name__}{args}"[:300], "time limit of the case")
        LATE.value += 1
    except RecursionError:
        r.und(f"{fn.__name__}{args}"[:300], "recursion limit")
    except Anchor as e:
        r.items.append(("anchor", str(e), "", "public entry point missing"))
    except MemoryError:
        r.und(f"{fn.__name__}{args}"[:300], "memory")
    except Exception as e:
        r.und(f"{fn.__name__}{args}"[:300], f"analysis error {type(e).__name__}: {e} " + traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        it.loop_hook, it.bi_over, it.fn_over, it.maxloop, it.maxstates, it.depth, it.clock = saved
    return r.items, (it.nstmts - f0[0], it.ncalls - f0[1]), set(it.funcs) | {("line",) + x for x in it.covered}, time.time() - t0


def _timed(results):
    """the results until shortly after the deadline"""
    while True:
        try:
            if DEADLINE is None or not hasattr(results, "_cond"):
                yield next(results)
            else:
                yield results.next(max(1, DEADLINE + HARD - time.time()))
        except (StopIteration, mp.TimeoutError):
            return


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.items = []
        self.stmts = self.calls = 0
        self.funcs = set()
        self.lines = set()
        self.ncases = 0
        self.slow = []
        self.cut = ""

    def run(self, cases, secs=CASE_SECS, procs=None):
        """cases: list of (fn, args)"""
        engine()
        self.ncases += len(cases)
        jobs = [(f, a, secs) for f, a in cases]
        procs = procs or min(8, os.cpu_count() or 1)
        if len(jobs) == 1 or procs == 1:
            results = map(_numbered, enumerate(jobs))
            self._collect(results, jobs)
            return
        ctx = mp.get_context("fork")
        with ctx.Pool(procs) as pool:
            # the results of quick cases are taken as they come; enough violations end the run
            self._collect(pool.imap_unordered(_numbered, list(enumerate(jobs)), chunksize=1 if len(jobs) < 8000 else 4), jobs)

    def _collect(self, results, jobs):
        done = {}
        nviol = 0
        t0 = time.time()
        for k, (i, (items, (ns, nc), fs, t)) in enumerate(_timed(results)):
            j = jobs[i]
            done[i] = items
            nviol += sum(1 for x in items if x[0] == VIOL)
            self.stmts += ns
            self.calls += nc
            for f in fs:
                if f[0] == "line":
                    self.lines.add(f[1:])
                else:
                    self.funcs.add(f)
            if t > 5:
                self.slow.append((round(t, 1), f"{j[0].__name__}{j[1]}"[:100]))
            if (nviol >= ENOUGH or nviol and time.time() - t0 > 45) and k + 1 < len(jobs):
                self.cut = f"stopped after {k + 1} of {len(jobs)} cases: {nviol} violations"
                break
        if len(done) < len(jobs) and not self.cut:
            self.items.append((UND, f"{len(jobs) - len(done)} of {len(jobs)} cases", "", "time budget of the whole check exhausted"))
        for i in sorted(done):
            self.items.extend(done[i])


# ---- abstract messages ---------------------------------------------------------


def fld(i, **kw):
    """an arbitrary field: any text without the sentence delimiters"""
    return atom(f"f{i}" + ("" if not kw else repr(sorted(kw.items()))), "str", excl=DELIMS, **kw)


HEXCH = "0123456789ABCDEFabcdef"


def cksum_atoms():
    return [atom("ck0", "str", minlen=1, maxlen=1, excl=DELIMS), atom("ck1", "str", minlen=1, maxlen=1, excl=DELIMS)]


def sentence(hdr, fields, ck=None, end="\r\n", byt=True):
    """$hdr,f1,f2*ck<CR><LF> as bytes (or str)"""
    ps = [C("$"), C(hdr) if isinstance(hdr, str) else hdr]
    for f in fields:
        ps += [C(","), f]
    ps.append(C("*"))
    ps += ck if isinstance(ck, list) else [ck] if ck is not None else cksum_atoms()
    ps.append(C(end))
    v = S.cat(ps, False)
    return S.encode(v) if byt else v


def excname(it, o):
    """class names of the exception(s) of an outcome"""
    vs = [a for _, a in o.val.alts] if isinstance(o.val, Phi) else [o.val]
    return {classname(it.exc_class(o.st, v)) for v in vs}


def classname(c):
    return c.name if isinstance(c, (Cls, Bi)) else repr(c)


LIBERR = ("NMEAMessageError", "NMEAParseError", "NMEATypeError", "NMEAStreamError")


def lib_excs():
    return [entry(n) for n in LIBERR]


def is_lib(it, o, which=LIBERR):
    ks = [entry(n) for n in which]
    vs = [a for _, a in o.val.alts] if isinstance(o.val, Phi) else [o.val]
    return all(any(it.subclass(it.exc_class(o.st, v), k) for k in ks) for v in vs)


def attrs_of(it, st, ref):
    """instance dictionary"""
    return st.get(ref.oid).data


def public(d):
    return {k: v for k, v in d.items() if isinstance(k, str) and not k.startswith("_") and v is not UNBOUND}


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Phi) and isinstance(b, Phi):
        return set(a.alts) == set(b.alts)
    return False


def compare(r, ob, st, act, exp, where, what):
    """obligation: the inferred value equals the expected one on this path"""
    if isinstance(act, Tup) and isinstance(exp, Tup) and len(act.items) == len(exp.items) and not same(act, exp):
        res = True
        for i, (a, e) in enumerate(zip(act.items, exp.items)):
            if not same(a, e):
                x = compare(r, ob, st, a, e, where, f"{what} [{i}]")
                res = x if res is True else res
        return res
    if same(act, exp) or same(resolve(st, act), resolve(st, exp)):
        r.ok(ob)
        return True
    if isinstance(act, (C, Tup)) and isinstance(exp, (C, Tup)) and not _hasterm(act) and not _hasterm(exp):
        w = {} if feasible(st) else None
        if w is None and st.flog:
            w = witness_path(st)
        if w is not None or not st.flog:
            r.viol(ob, where, f"{what}: expected {exp!r}, the code computes {act!r}" + path(st) + (f" e.g. {witness.show(w)}" if w else ""))
            return False
    w = witness.separate(st.flog, act, exp, differ=witness.exactly(act, exp))
    if w is not None:
        r.viol(ob, where, f"{what}: expected {exp!r}, the code computes {act!r}{path(st)}; they differ e.g. for {witness.show(w)}")
        return False
    r.und(ob, f"{what}: expected {exp!r}, inferred {act!r}{path(st)}; neither equal nor separated", where)
    return None


def apart(tol, rel=1e-7, period=None):
    """do two numbers differ by clearly more than the tolerance?"""
    def f(x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) != len(y) or any(f(p, q) for p, q in zip(x, y))
        num_ = lambda z: isinstance(z, (int, float)) and not isinstance(z, bool)  # noqa: E731
        if num_(x) and num_(y):
            if x != x or y != y:
                return (x != x) != (y != y)
            d = abs(x - y)
            if period:
                d = min(d % period, -d % period)
            return d > max(tol * 1.5, rel * max(abs(x), abs(y)))
        return witness.differ(x, y)
    return f


def near(r, ob, st, act, exp, where, what, tol=0.0, rel=1e-7, period=None):
    """obligation: two numbers are equal over the reals, or no further apart than tol"""
    from absint import algebra
    act, exp = resolve(st, act), resolve(st, exp)
    if isinstance(act, Tup) and isinstance(exp, Tup) and len(act.items) == len(exp.items):
        for i, (a, e) in enumerate(zip(act.items, exp.items)):
            near(r, ob, st, a, e, where, f"{what} [{i}]", tol, rel, period)
        return
    if same(act, exp):
        r.ok(ob)
        return
    if not (num.isnum(act) and num.isnum(exp)):
        compare(r, ob, st, act, exp, where, what)
        return
    facts = [(resolve_args(st, t), c) for t, c in algebra.facts(st)]
    d = algebra.distance(act, exp, st, facts)
    if d is not None and d <= tol:
        r.ok(ob)
        return
    rng = algebra.ranges(st)
    if rng:
        e = algebra.distance(algebra.clipped(act, rng), algebra.clipped(exp, rng), st, facts)
        if e is not None and e <= tol:
            r.ok(ob)
            return
    w = witness.separate(st.flog, act, exp, differ=apart(tol, rel, period))
    if w is not None:
        r.viol(ob, where, f"{what}: expected {exp!r}"[:600] + f", the code computes {act!r}"[:600] + f"{path(st)}; "
               f"they differ by more than {tol or 'rounding'} e.g. for {witness.show(w)}")
        return
    if rng is None:
        r.ok(ob)  # no real numbers take this path
        return
    r.und(ob, f"{what}: {act!r}"[:500] + f" against {exp!r}"[:500] + f" ({d})", where)


def resolve(st, v, memo=None):
    """known values and absolute values of terms whose sign is known on this path, resolved"""
    from absint import num
    memo = {} if memo is None else memo
    if isinstance(v, (T, Tup, Phi)) and v in memo:
        return memo[v]
    if isinstance(v, T):
        args = tuple(resolve(st, a, memo) for a in v.args)
        x = v if all(a is b for a, b in zip(args, v.args)) else T(v.op, args, v.ty)
        if v in st.eqc:
            x = st.eqc[v]
        elif v.op == "abs":
            x = num.abs_(args[0], st)
        elif v.op == "replace" and engine().decide(st, T("contains", (v.args[0], v.args[1]), "bool")) is False:
            x = args[0]
        elif x is not v and v.op == "cat":
            x = S.cat(args, v.ty == "bytes")
        elif x is not v and v.op == "enc" and args[1] == "utf-8":
            x = S.encode(args[0])
    elif isinstance(v, Tup):
        x = Tup(resolve(st, a, memo) for a in v.items)
    elif type(v) is tuple:
        return tuple(resolve(st, a, memo) for a in v)
    elif isinstance(v, Phi):
        return unphi(st, v, lambda a: resolve(st, a, memo))
    else:
        return v
    memo[v] = x
    return x


def resolve_args(st, t):
    memo = {}
    args = tuple(resolve(st, a, memo) for a in t.args)
    return t if all(a is b for a, b in zip(args, t.args)) else T(t.op, args, t.ty)


def unphi(st, v, f=lambda a: a):
    """the alternatives of a guarded union that are possible on this path"""
    it = engine()
    ok = [(g, f(a)) for g, a in v.alts if all(it.decide(st, t) in (None, p) for t, p in g)]
    if ok and all(a is ok[0][1] for _, a in ok):
        return ok[0][1]
    return Phi(ok) if ok else v


def _hasterm(v):
    if isinstance(v, Tup):
        return any(_hasterm(x) for x in v.items)
    return not isinstance(v, C)


def feasible(st):
    return not st.flog


def witness_path(st, tries=400):
    try:
        return witness.solve(st.flog, tries)
    except witness.Undef:
        return None


def path(st, n=6):
    if not st.flog:
        return ""
    return " when " + " and ".join(("" if p else "not ") + repr(t)[:120] for t, p in st.flog[:n])


def bad(r, ob, st, where, msg):
    """report a violating path, provided the path is feasible"""
    if st.flog:
        try:
            w = witness.solve(st.flog, 800)
        except witness.Undef as e:
            r.und(ob, f"{msg}{path(st)}; path not confirmed feasible ({e})", where)
            return
        if w is None:
            r.und(ob, f"{msg}{path(st)}; no valuation found that takes this path", where)
            return
        r.viol(ob, where, f"{msg}{path(st)}; e.g. {witness.show(w)}")
        return
    r.viol(ob, where, msg)


# ---- definitions ----------------------------------------------------------------


def expand(defn, nf, counts=None):
    """[(attribute, type, base name)] of the first fields, by the documented rules:
    groups repeat a fixed number of times, as often as a named attribute says, or
    as often as the remaining fields allow; members are suffixed _01, _02 ..."""
    out = []
    for name, t in defn.items():
        if isinstance(t, tuple):
            n, sub = t
            if n == "None":
                n = max(0, (nf - len(out)) // len(sub))
            elif isinstance(n, str):
                n = (counts or {}).get(n, 0)
            for i in range(1, n + 1):
                for k, tt in sub.items():
                    out.append((f"{k}_{i:02d}", tt, k))
        else:
            out.append((name, t, name))
    return out[:nf]


MODES = {"GET": 0, "SET": 1, "POLL": 2}


def contains_term(v, ops):
    """does a value mention one of the operators?"""
    st, seen = [v], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, (T, Tup, Phi)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, T):
            if x.op in ops:
                return x
            st.extend(x.args)
        elif isinstance(x, Tup):
            st.extend(x.items)
        else:
            for g, a in x.alts:
                st.append(a)
                st.extend(t for t, _ in g)
    return None
