"""Clocks: units of the system clock, sleeping, block timer, and the two clock synchronisers over complete histories."""
from vlib import *
from alg import *
from checks_common import *
import fp
from vg import Ptr
from interval import bounds
FLOOR = 8
D, D2 = "d_clk.cpp", "d_clk2.cpp"
S = "src/utMeasurement/TimestampSync.cpp"
L = "src/utMeasurement/TimestampSyncLS.h"
NT, NL = 190, 150


def clock(n):
    k = [0]

    def h(e, ins, name, args, mem):
        e.store(mem, args[0], mk("var", "sec%d" % k[0]), 8)
        e.store(mem, Ptr(args[0].r, args[0].o + 8), mk("var", "usec%d" % k[0]), 8)
        k[0] += 1
        return ("ok", 0, mem)
    return {"gettimeofday": h}


def toint(c, v, op="fptosi", w=64):
    return c.N(0) if v.v == 0 else N(fp.H(c.salt, op, v.v, w), None, c)


class Sync:
    """two state filter: local time and gain"""

    def __init__(s, c, fn, fl):
        s.c, s.n, s.budget = c, 0, -100
        s.freq(fn, fl)

    def freq(s, fn, fl):
        s.gain = fl / fn
        sq = lambda x: x * x
        d = s.c.N
        s.q1, s.q3, s.r = sq(fl / 1000), sq(s.gain / 10000), sq(fl * 3 / 100)
        s.p1, s.p2, s.p3, s.dev = sq(fl), s.c.N(0), sq(s.gain * 10), sq(fl / 1000)

    def copy(s):
        t = Sync.__new__(Sync)
        t.__dict__.update(s.__dict__)
        return t

    def step(s, nat, loc):
        c = s.c
        if s.n == 0:
            s.last, s.est = nat, loc
        d = nat - s.last
        s.est = s.est + toint(c, d * s.gain)
        s.p1 = s.p1 + 2 * d * s.p2 + d * d * s.p3 + s.q1
        s.p2 = s.p2 + d * s.p3
        s.p3 = s.p3 + s.q3
        e = loc - s.est
        s.outlier = None if s.budget < 0 else not fp.is_qr((s.dev * 9 - e * e).v)
        if not s.outlier:
            k1, k2 = s.p1 / (s.r + s.p1), s.p2 / (s.r + s.p1)
            s.gain = s.gain + k2 * e
            s.est = s.est + toint(c, k1 * e)
            s.p1, s.p2, s.p3 = (1 - k1) * s.p1, (1 - k1) * s.p2, s.p3 - k2 * s.p2
            if s.n > 50:
                s.dev = s.dev + (e * e - s.dev) / 100
            s.budget = min(40, s.budget + 1)
        else:
            s.budget -= 2
        s.last = nat
        s.n += 1
        return s.est


class LSync:
    """least squares line through the events, seen from the first one"""

    def __init__(s, c):
        s.c, s.k, s.bud, s.dev = c, 0, 0, c.N(10**12)
        s.a = s.n2 = s.l = s.ln = c.N(0)

    def copy(s):
        t = LSync.__new__(LSync)
        t.__dict__.update(s.__dict__)
        return t

    def step(s, nat, loc):
        c = s.c
        if s.k == 0:
            s.first = loc
        loc = loc - s.first
        ext = loc
        if s.k > 10:
            ext = (nat * (s.ln - s.l * s.a) + s.n2 * s.l - s.a * s.ln) / (s.n2 - s.a * s.a)
        e = ext - loc
        s.outlier = None if s.k < 100 or s.bud < 0 else not fp.is_qr((s.dev * 9 - e * e).v)
        if s.outlier:
            s.bud -= 2
        else:
            w = 1 / c.N(s.k + 1) if s.k < 100 else 1 / c.N(1000)
            s.a, s.l = s.a + (nat - s.a) * w, s.l + (loc - s.l) * w
            s.n2, s.ln = s.n2 + (nat * nat - s.n2) * w, s.ln + (loc * nat - s.ln) * w
            if s.k > 10:
                s.dev = s.dev + (e * e - s.dev) / 100
            s.bud = min(40, s.bud + 1)
        s.k += 1
        return loc, ext


def pairs(c, n):
    return [c.var() for _ in range(2 * n)]


def run(C):
    C.equal(D, "vf_now", lambda c: [], lambda c, x, o: [c.ev(mk("var", "sec0")) * 10**9 + c.ev(mk("var", "usec0")) * 1000], 1, "src/utMeasurement/Timestamp.cpp", "nanoseconds since the epoch", handlers=clock(1), gate=None)
    C.equal(D, "vf_hpc", lambda c: [], lambda c, x, o: [c.ev(mk("var", "sec0")) * 10**6 + c.ev(mk("var", "usec0")), 10**6], 2, "src/utUtil/OS.cpp", "counter and its frequency agree", handlers=clock(1), gate=None)

    def hist(n, x, c, s):
        return [s.step(x[2 * k], x[2 * k + 1]) for k in range(n)]
    for e, n, k in (("one", 1, 2), ("hist", NT, 2)):
        C.equal(D, "vf_ts_" + e, lambda c, n=n: pairs(c, n + 1), lambda c, x, o, n=n: hist(n, x[2:], c, Sync(c, x[0], x[1])) + [n], n + 1, S, "history of %d events" % n, gate=None, samples=24 if n > 1 else 3)
    C.equal(D, "vf_ts_def", lambda c: [c.var()] + pairs(c, 3), lambda c, x, o: hist(3, x[1:], c, Sync(c, x[0], c.N(10**9))) + [3], 4, S, "local clock defaults to nanoseconds", gate=None)

    def fr(c, x, o):
        s = Sync(c, x[0], x[1])
        s.freq(x[2], x[3])
        return hist(3, x[4:], c, s) + [3]
    C.equal(D, "vf_ts_freq", lambda c: pairs(c, 5), fr, 4, S, "set frequencies", gate=None)

    def nowspec(c, x, o):
        s = Sync(c, x[0], x[1])
        t = [c.ev(mk("var", "sec%d" % k)) * 10**9 + c.ev(mk("var", "usec%d" % k)) * 1000 for k in range(2)]
        return [s.step(x[2], t[0]), s.step(x[3], t[1])]
    C.equal(D, "vf_ts_now", lambda c: pairs(c, 2), nowspec, 2, S, "local time defaults to the system clock", handlers=clock(2), gate=None)

    # histories whose outcomes reach every corner of the outlier accounting: the local times are drawn such that
    # the outlier test comes out as planned
    def planned(c, n, s, x, plan):
        for k in range(n):
            nat = c.var()
            while True:
                loc = c.var()
                t = s.copy()
                t.step(nat, loc)
                if plan(k) is None or t.outlier is None or t.outlier == plan(k):
                    break
            s.step(nat, loc)
            x += [nat, loc]
        return x
    runs = lambda k: k >= 146    # accepted up to the cap of the budget, then only outliers until it is used up, and so on
    mixed = lambda k: None if k < 100 else k % 17 < 14
    for plan in (runs, mixed):
        C.equal(D, "vf_ts_hist", lambda c: planned(c, NT, Sync(c, *(f := pairs(c, 1))), f, plan), lambda c, x, o: hist(NT, x[2:], c, Sync(c, x[0], x[1])) + [NT], NT + 1, S, "history with long runs of outliers", gate=None, samples=4)

    def ls(c, x, o):
        s, out = LSync(c), []
        for k in range(NL):
            loc, ext = s.step(x[2 * k], x[2 * k + 1])
            conv = toint(c, ext)
            out.append(s.first + conv if (o[k] - s.first - conv).v == 0 or k > 10 else s.first + loc)
        return out + [NL]
    C.equal(D2, "vf_ls_hist", lambda c: pairs(c, NL), ls, NL + 1, L, "history of %d events" % NL, gate=None, samples=24)
    for plan in (lambda k: k >= 105, mixed):
        C.equal(D2, "vf_ls_hist", lambda c: planned(c, NL, LSync(c), [], plan), ls, NL + 1, L, "history with long runs of outliers", gate=None, samples=4)

    def bt(c, x, o):
        t = [c.ev(mk("var", "sec%d" % k)) * 10**6 + c.ev(mk("var", "usec%d" % k)) for k in range(3)]
        tot = (x[0] + x[1] + t[2] - t[1]) / 1000
        return [0, t[0], 3, tot, tot / 3]
    C.equal(D, "vf_bt", lambda c: pairs(c, 1), bt, 5, "src/utUtil/BlockTimer.h", "runs, total and average time in milliseconds", handlers=clock(3), gate=None)
    sleep(C)


def sleep(C):
    """nanosleep gets a normalised time (every nanosecond field it accepts) that adds up to the requested one"""
    A = "src/utUtil/OS.cpp sleep"
    got = []

    def h(e, ins, name, args, mem):
        got.append((e.load(mem, args[0], 8, "i64"), e.load(mem, Ptr(args[0].r, args[0].o + 8), 8, "i64")))
        return ("ok", 0, mem)

    def spec(c, x, o):
        if len(got) != 1:
            return [("one call", c.N(len(got)), c.N(1))]
        ev = lambda n: c.ev(n) if isinstance(n, vg.Node) else c.N(n)
        s, n = (ev(v) for v in got[0])
        return [("seconds and nanoseconds add up", s * 10**9 + n, x[0] * 10**6 + x[1])]
    C.equal(D, "vf_sleep", lambda c: pairs(c, 1), spec, 1, A, "requested duration", handlers={"nanosleep": h}, gate=None)
    if len(got) == 1:
        lo, hi = bounds(got[0][1])
        if lo < 0 or hi > 999999999:
            C.violate("vf_sleep/range", "%s: the nanosecond field can be %d..%d, values above 999999999 are refused and nothing is slept" % (A, lo, hi))
        C.note(entry="vf_sleep", rule="nanosecond field in range", bounds=[lo, hi], ok=lo >= 0 and hi <= 999999999)
