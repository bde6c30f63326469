"""GNSS week numbers, times of week and leap seconds (C28, C29)."""

from __future__ import annotations

import datetime as _dt

from .common import C, T, Tup, Phi, NONE, TRUE, FALSE, num, engine, entry, compare, bad, excname, atom, resolve
from .msgs import with_lits
from .helpers import fn, within

# TAI - UTC from the first day of each month (IERS Bulletin C)
LEAPS = [((1972, 1), 10), ((1972, 7), 11), ((1973, 1), 12), ((1974, 1), 13), ((1975, 1), 14), ((1976, 1), 15), ((1977, 1), 16),
         ((1978, 1), 17), ((1979, 1), 18), ((1980, 1), 19), ((1981, 7), 20), ((1982, 7), 21), ((1983, 7), 22), ((1985, 7), 23),
         ((1988, 1), 24), ((1990, 1), 25), ((1991, 1), 26), ((1992, 7), 27), ((1993, 7), 28), ((1994, 7), 29), ((1996, 1), 30),
         ((1997, 7), 31), ((1999, 1), 32), ((2006, 1), 33), ((2009, 1), 34), ((2012, 7), 35), ((2015, 7), 36), ((2017, 1), 37)]
E1 = _dt.datetime(1, 1, 1)
DAY = 86400 * 10 ** 6
WEEK = 604800000
HORIZON = (2100, 1, 1)


def usec(y, m, d=1, h=0, mi=0, s=0):
    return (_dt.datetime(y, m, d, h, mi, s) - E1) // _dt.timedelta(microseconds=1)


# system: (epoch, TAI - UTC at the epoch of its leap second count, week rollover)
SYS = {"G": (usec(1980, 1, 6), 19, 1024), "J": (usec(1980, 1, 6), 19, 1024), "E": (usec(1999, 8, 22), 19, 4096),
       "I": (usec(1999, 8, 22), 19, 1024), "C": (usec(2006, 1, 1), 33, 8192), "R": (usec(1980, 1, 6), None, 1024)}


def segments(gnss, first=None):
    """[(from, to, offset)] in microseconds of UTC"""
    base = SYS[gnss][1]
    edges = [usec(y, m) for (y, m), _ in LEAPS] + [usec(*HORIZON)]
    out = [(usec(1900, 1), edges[0], 0)] if first is None else []
    for i, (_, tai) in enumerate(LEAPS):
        lo, hi = edges[i], edges[i + 1]
        if first is not None:
            if hi <= first:
                continue
            lo = max(lo, first)
        out.append((lo, hi, 0 if base is None else tai - base))
    return out


ZONES = {"+05:30": 19800, "-08:00": -28800, "+14:00": 50400, "-00:00:01": -1, "named UTC": 0}


def zone(name):
    if name == "named UTC":
        return _dt.timezone(_dt.timedelta(0), "Zulu")
    return _dt.timezone(_dt.timedelta(seconds=ZONES[name]))


def ms(u):
    """the UTC instant of the input, in microseconds"""
    if isinstance(u, T) and u.op == "dtz":
        return num.iadd(u.args[0], C(ZU[u.args[1].v.utcoffset(None)]), -1)
    return T("usec", (u,), "int")


ZU = {_dt.timedelta(seconds=v): v * 10 ** 6 for v in ZONES.values()}


def named(aware):
    return aware if isinstance(aware, str) else "aware" if aware else "naive"


def utcatom(lo, hi, aware):
    if isinstance(aware, str):
        off = ZONES[aware] * 10 ** 6
        return T("dtz", (num.iadd(atom(f"us{lo}", "int", lo=lo, hi=hi - 1), C(off)), C(zone(aware))), "datetime")
    return atom(f"utc{lo}", "datetime", lo=lo, hi=hi - 1, aware=aware)


def outcomes(fname, args, kw=None):
    it = engine()
    for o in it.run(fn(fname), args, kw or {}):
        if o.kind == "exc":
            yield o, o.st, None
            continue
        for g, v in (o.val.alts if isinstance(o.val, Phi) else [((), o.val)]):
            st = with_lits(o.st, sorted(g, key=lambda tp: tp[0].n))
            if st is not None:
                yield o, st, resolve(st, v)


# ---- C29 leap seconds -------------------------------------------------------------


def case_leap(r, gnss, lo, hi, want, aware):
    u = utcatom(lo, hi, aware)
    ob = f"leapsecond {gnss} {lo} {named(aware)}"
    for o, st, v in outcomes("leapsecond", [u, C(gnss)]):
        if v is None:
            bad(r, ob, st, o.where, f"leapsecond raises {sorted(excname(engine(), o))}")
        else:
            compare(r, ob, st, v, C(want), o.where or "leapsecond", "leapsecond")


def rule_leap(rep):
    cases = []
    for g in "GEJIC":
        for lo, hi, n in segments(g):
            # before 1972 there are no leap seconds
            for aw in (True, False) + tuple(ZONES):
                cases.append((case_leap, (g, lo, hi, n, aw)))
    rep.run(cases)


# ---- C28 weeks and times of week ----------------------------------------------------


def case_utc(r, gnss, lo, hi, ls, aware, mod):
    it = engine()
    u = utcatom(lo, hi, aware)
    ep0, _, roll = SYS[gnss]
    ob = f"utc2wnotow {gnss} {lo} {named(aware)} {'modular' if mod else 'continuous'}"
    us = ms(u)
    kw = {"gnss": C(gnss), "modwno": C(mod)}
    for o, st, v in outcomes("utc2wnotow", [u], kw):
        if v is None:
            bad(r, ob, st, o.where, f"utc2wnotow raises {sorted(excname(it, o))}")
            continue
        if not isinstance(v, Tup) or len(v.items) != 3:
            bad(r, ob, st, o.where, f"utc2wnotow gives {v!r}")
            continue
        for o2 in it.do(lambda cx: cx.call(it.lookup("refspec.week"), [us, C(ep0), C(ls), C(roll), C(mod)]), st.fork()):
            compare(r, ob, st, v, Tup(o2.val.items + (C(ls),)), o.where or "utc2wnotow", "utc2wnotow")
        within(r, ob + " tow", st, v.items[1], 0, WEEK - 1, o.where or "utc2wnotow", "the time of week")
        if mod:
            within(r, ob + " wno", st, v.items[0], 0, roll - 1, o.where or "utc2wnotow", "the week number")

    def back(cx):
        w = cx.force(cx.call(fn("utc2wnotow"), [u], kw))
        return cx.force(cx.call(fn("wnotow2utc"), [w.items[0], w.items[1]], kw))
    if mod and hi > ep0 + roll * 7 * DAY:
        return
    for o in it.do(back, it.newstate()):
        if o.kind == "exc":
            bad(r, ob + " back", o.st, o.where, "raises")
            continue
        for g, v in (o.val.alts if isinstance(o.val, Phi) else [((), o.val)]):
            st = with_lits(o.st, sorted(g, key=lambda tp: tp[0].n))
            if st is None:
                continue
            for o2 in it.do(lambda cx: cx.call(it.lookup("refspec.whole_ms"), [us]), st.fork()):
                if not (isinstance(v, T) and v.op == "dt"):
                    bad(r, ob + " back", st, o.where, f"gives {v!r}")
                    continue
                compare(r, ob + " back", st, v.args[0], o2.val, o.where or "wnotow2utc", "wnotow2utc(utc2wnotow(utc))")
                compare(r, ob + " back is UTC", st, v.args[1], TRUE, o.where or "wnotow2utc", "timezone of wnotow2utc")


def blocks(a, b):
    """a range of GNSS milliseconds as products of week and time-of-week ranges"""
    out = []
    while a < b:
        w, t = divmod(a, WEEK)
        if t == 0 and b - a >= WEEK:
            n = (b - a) // WEEK
            out.append((w, w + n - 1, 0, WEEK - 1))
            a += n * WEEK
        else:
            e = min(b, (w + 1) * WEEK)
            out.append((w, w, t, e - 1 - w * WEEK))
            a = e
    return out


def ranges(gnss, roll=0):
    """[(from, to, offset)] of GNSS milliseconds since the epoch; the inserted
    seconds themselves, which have no UTC, are left out"""
    ep0, base, _ = SYS[gnss]
    out = []
    for lo, hi, ls in segments(gnss, ep0):
        out.append(((lo - ep0) // 1000 + ls * 1000, (hi - ep0) // 1000 + ls * 1000, ls))
    return out


def intatom(name, lo, hi):
    return C(lo) if lo == hi else atom(f"{name}{lo}_{hi}", "int", lo=lo, hi=hi)


def wno_tow(w0, w1, t0, t1):
    return intatom("wno", w0, w1), intatom("tow", t0, t1)


def expected(gnss, w, t, rolls, ls):
    ep0, _, roll = SYS[gnss]
    x = num.iadd(num.iscale(w, WEEK * 1000), num.iscale(t, 1000))
    return num.iadd(x, C(ep0 + rolls * roll * 7 * DAY - ls * 10 ** 6))


def check_utc(r, ob, args, kw, want):
    for o, st, v in outcomes("wnotow2utc", args, kw):
        if v is None:
            bad(r, ob, st, o.where, f"wnotow2utc raises {sorted(excname(engine(), o))}")
        elif isinstance(v, C) and isinstance(v.v, _dt.datetime):
            us = C((v.v.replace(tzinfo=None) - E1) // _dt.timedelta(microseconds=1))
            compare(r, ob, st, us, want, o.where or "wnotow2utc", "wnotow2utc")
        elif not (isinstance(v, T) and v.op == "dt"):
            bad(r, ob, st, o.where, f"wnotow2utc gives {v!r}")
        else:
            compare(r, ob, st, v.args[0], want, o.where or "wnotow2utc", "wnotow2utc")
            compare(r, ob + " is UTC", st, v.args[1], TRUE, o.where or "wnotow2utc", "timezone of wnotow2utc")


def case_wno(r, gnss, block, ls, mod, explicit):
    w, t = wno_tow(*block)
    ob = f"wnotow2utc {gnss} {block} {'modular' if mod else 'continuous'} {explicit}"
    kw = {"gnss": C(gnss), "modwno": C(mod)}
    n = ls
    if explicit is not None:
        kw["ls"] = C(explicit)
        n = 0 if gnss == "R" else explicit
    check_utc(r, ob, [w, t], kw, expected(gnss, w, t, 0, n))


def case_wrap(r, gnss, block, ls, k):
    """week numbers are modular, and the time of week is taken modulo a week"""
    roll = SYS[gnss][2]
    w, t = wno_tow(*block)
    ob = f"wnotow2utc {gnss} {block} {k} rollovers"
    want = expected(gnss, w, t, 0, ls)
    check_utc(r, ob + " in wno", [num.iadd(w, C(k * roll)), t], {"gnss": C(gnss)}, want)
    check_utc(r, ob + " in tow", [w, num.iadd(t, C(k * WEEK))], {"gnss": C(gnss)}, want)


NOWS = [(1985, 3, 4), (1999, 8, 22), (2006, 1, 1), (2012, 6, 30), (2019, 4, 7), (2026, 4, 17), (2026, 11, 20), (2038, 11, 21), (2060, 2, 29), (2095, 6, 1)]


def rolled(gnss, now):
    """partition of the modular GNSS times: [(from, to, rollovers, offset)]; the
    latest epoch not after now, or the first one"""
    ep0, base, roll = SYS[gnss]
    span = roll * WEEK
    rs = ranges(gnss)
    cuts = {0, span}
    latest = None
    for lo, hi, ls in rs:
        x = (now - ep0) // 1000 + ls * 1000
        if lo <= x < hi:
            latest = x
    k = 0
    while k * span < rs[-1][1]:
        for lo, hi, ls in rs:
            for e in (lo, hi):
                if k * span <= e <= (k + 1) * span:
                    cuts.add(e - k * span)
        if latest is not None and k * span <= latest + 1 <= (k + 1) * span:
            cuts.add(latest + 1 - k * span)
        k += 1
    cuts = sorted(cuts)
    out = []
    for a, b in zip(cuts, cuts[1:]):
        k = 0
        while latest is not None and (k + 1) * span + a <= latest:
            k += 1
        g = a + k * span
        ls = next((n for lo, hi, n in rs if lo <= g < hi), None)
        if ls is None:
            continue
        out.append((a, b, k, ls))
    return out


def case_auto(r, gnss, block, now, rolls, ls):
    it = engine()
    it.clock = C(now)
    w, t = wno_tow(*block)
    check_utc(r, f"autoroll {gnss} {block} now {now}", [w, t], {"gnss": C(gnss), "autoroll": TRUE}, expected(gnss, w, t, rolls, ls))


def case_default(r, now):
    """utc2wnotow() speaks about now; GPS is the default system"""
    it = engine()
    it.clock = C(now)
    ls = next(n for lo, hi, n in segments("G") if lo <= now < hi)
    ms = (now - SYS["G"][0]) // 1000 + ls * 1000
    for o, st, v in outcomes("utc2wnotow", []):
        ob = f"utc2wnotow() at {now}"
        if v is None:
            bad(r, ob, st, o.where, "raises")
        else:
            compare(r, ob, st, v, Tup((C(ms // WEEK % 1024), C(ms % WEEK), C(ls))), o.where or "utc2wnotow", "utc2wnotow()")


def rule_weeks(rep):
    cases = []
    thorough = rep.tier != "quick"
    for g in SYS:
        ep0, base, roll = SYS[g]
        for lo, hi, ls in segments(g, ep0):
            for aw in (True, False):
                for mod in (True, False):
                    cases.append((case_utc, (g, lo, hi, ls, aw, mod)))
            for z in ZONES if thorough else list(ZONES)[:2]:
                cases.append((case_utc, (g, lo, hi, ls, z, True)))
        for a, b, ls in ranges(g):
            for blk in blocks(a, b):
                cases.append((case_wno, (g, blk, ls, False, None)))
                cases.append((case_wno, (g, blk, ls, False, 0)))
                cases.append((case_wno, (g, blk, ls, False, 18)))
                if blk[1] < roll:
                    cases.append((case_wno, (g, blk, ls, True, None)))
                    for k in ((1, 3) if not thorough else (1, 2, 3, 7)):
                        cases.append((case_wrap, (g, blk, ls, k)))
        for i, now in enumerate(NOWS):
            if not thorough and i in (0, 1, 4, 7, 8):
                continue
            now = usec(*now) + 43200 * 10 ** 6 + (123456 if i % 2 else 123000)  # within and at a millisecond
            for a, b, k, ls in rolled(g, now):
                for blk in blocks(a, b):
                    cases.append((case_auto, (g, blk, now, k, ls)))
    for now in NOWS:
        cases.append((case_default, (usec(*now) + 123456,)))
    rep.run(cases)
