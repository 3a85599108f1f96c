"""Pose selection for hand-eye calibration: every output is the actual pair of relative poses nearest to the centre of its cluster."""
from vlib import *
from alg import *
from checks_common import *
from checks.P02 import main_gate, qof, axang
import fp
FLOOR = 34
D = "d_sel.cpp"
H = "src/utAlgorithm/PoseEstimation6D6D/DataSelection.h"
S = "src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp"


def rank(v):
    return fp.H(0, "rank", v.v)


def gate(ctx, c):
    """distances are compared by a total order; comparisons with constants have any outcome"""
    r = main_gate(ctx, c)
    if r is None and c.op == "flt" and c.args[0].op != "const" and c.args[1].op != "const":
        a, b = ctx.ev(c.args[0]), ctx.ev(c.args[1])
        return rank(a) < rank(b)
    return r


def compose(p, q):
    return qmul(p[:4], q[:4]) + vadd(qrot(p[:4], q[4:]), p[4:])


def inverse(p):
    r = qconj(p[:4])
    return r + smul(-1, qrot(r, p[4:]))


def dual(c, p):
    """real part q, dual part t q / 2, scalar first"""
    q, t = p[:4], p[4:]
    d = [v / 2 for v in qmul(t + [c.N(0)], q)]
    return [q[3]] + q[:3] + [d[3]] + d[:3]


def same(a, b):
    return eqm("rotation", R(a[:4]), R(b[:4])) + eqv("translation", a[4:], b[4:])


def dist(c, a, b):
    d = vsub(a[:3], b[:3])
    return c.sqrt(dot(d, d))


def pick(c, means, idx, vecs, k):
    """number of the member of cluster k nearest to its centre"""
    m = [i for i, x in enumerate(idx) if x == k]
    return min(m, key=lambda i: rank(dist(c, means[k], vecs[i]))) if m else None


def run(C):
    pose = lambda c: unitq(c) + free(c, 3)

    def logp(c):
        a = axang(c)
        c.v, c.aa = [v * a[3] for v in a[:3]], a
        return qof(c, a) + free(c, 3)
    for T in "df":
        C.equal(D, "vf_c6_" + T, logp, lambda c, x, o: c.v + x[4:], 6, H, "pose to rotation vector and translation", gate=main_gate)
        C.equal(D, "vf_c7_" + T, logp, lambda c, x, o: c.aa + x[4:], 7, H, "pose to axis, angle and translation", gate=main_gate)
        C.equal(D, "vf_c8_" + T, pose, lambda c, x, o: dual(c, x), 8, H, "pose to dual quaternion")
        C.equal(D, "vf_p8_" + T, lambda c: dual(c, pose(c)), lambda c, x, o: eqv("dual quaternion", dual(c, o), x), 7, H, "dual quaternion to pose")
        C.equal(D, "vf_c68_" + T, lambda c: dual(c, logp(c)), lambda c, x, o: c.v + smul(2, qmul(x[5:] + [x[4]], qconj(x[1:4] + [x[0]]))[:3]), 6, H, "dual quaternion to rotation vector and translation", gate=main_gate)

        def vp(c):
            a = axang(c)
            c.q = qof(c, a)
            return [v * a[3] for v in a[:3]] + free(c, 3)
        C.equal(D, "vf_p6_" + T, vp, lambda c, x, o: same(o, c.q + x[3:]), 7, H, "rotation vector and translation to pose", gate=main_gate)

        def hem(c, x, o):
            n = c.sqrt(dot(x[:3], x[:3]))
            k = (n - 2 * c.pi) / n if fp.is_qr((n - c.pi).v) else c.N(1)
            return [v * k for v in x[:3]] + x[3:]
        C.equal(D, "vf_hem_" + T, lambda c: free(c, 6), hem, 6, H, "rotations by more than a half turn go the other way round", gate=None)
        C.equal(D, "vf_dist_" + T, lambda c: free(c, 12), lambda c, x, o: [dist(c, x[:6], x[6:])], 1, H, "distance of rotation vectors", gate=None)
    eye_ = lambda a, b: compose(inverse(a), b)
    hand = lambda a, b: compose(a, inverse(b))
    ps = lambda n: lambda c: sum((pose(c) for _ in range(n)), [])

    def rel(n, pairs, f):
        def sp(c, x, o):
            p = [x[7 * k:7 * k + 7] for k in range(n)]
            return [("number", o[0], c.N(len(pairs)))] + sum((eqv("pose %d-%d" % ab, o[1 + 8 * k:9 + 8 * k], dual(c, f(p[ab[0]], p[ab[1]]))) for k, ab in enumerate(pairs)), [])
        return sp
    allp = lambda n: [(a, b) for a in range(n) for b in range(a + 1, n)]
    nbp = lambda n: [(a, a + 1) for a in range(n - 1)]
    for e, n, f, p in [("ra1_3", 3, eye_, allp), ("ra1_4", 4, eye_, allp), ("ra0_3", 3, hand, allp), ("ra0_4", 4, hand, allp), ("nbi1_4", 4, eye_, nbp), ("nbi0_3", 3, hand, nbp),
                       ("ra1_24", 24, eye_, allp), ("ra0_24", 24, hand, allp), ("nbi1_131", 131, eye_, nbp), ("nbi0_131", 131, hand, nbp)]:
        C.equal(D, "vf_" + e, ps(n), rel(n, p(n), f), 1 + 8 * len(p(n)), H, "relative poses of %s" % ("all pairs" if p is allp else "neighbours"))

    def app(c, x, o):
        a, b = rel(3, allp(3), eye_)(c, x[:21], o[:25]), rel(3, allp(3), hand)(c, x[21:], [None] + o[25:])
        return [("number", o[0], c.N(6))] + a[1:] + b[1:]
    C.equal(D, "vf_app", ps(6), app, 49, S, "relative poses are appended")

    def sel(n, cl, idx):
        m = len(allp(n))

        def sp(c, x, o):
            e, h = [x[7 * k:7 * k + 7] for k in range(n)], [x[7 * (n + k):7 * (n + k) + 7] for k in range(n)]
            means = [x[14 * n + 6 * k:14 * n + 6 * k + 6] for k in range(cl)]
            v = [o[6 * k:6 * k + 6] for k in range(m)]
            r = eqv("poses clustered", o[6 * m:12 * m], o[:6 * m]) + eqv("poses assigned", o[12 * m:18 * m], o[:6 * m])
            ks = [k for k in (pick(c, means, idx, v, j) for j in range(cl)) if k is not None]
            out = o[18 * m:]
            r += [("number of eye poses", out[0], c.N(len(ks))), ("number of hand poses", out[1], c.N(len(ks)))]
            for j, k in enumerate(ks):
                a, b = allp(n)[k]
                # the rotation vector was converted back: its components are compared
                r += eqv("eye pose", out[2 + 14 * j + 4:2 + 14 * j + 7], eye_(e[a], e[b])[4:])
                w = v[k]
                ang = c.sqrt(dot(w[:3], w[:3]))
                s, co = c.sincos((ang / 2).v)
                q = [w[t] / ang * c.N(s) for t in range(3)] + [c.N(co)]
                r += eqm("eye rotation", R(out[2 + 14 * j:2 + 14 * j + 4]), R(q)) + eqm("aligned rotation", R(q), R(eye_(e[a], e[b])[:4]))
                g = hand(h[a], h[b])
                r += eqm("hand rotation", R(out[2 + 14 * j + 7:2 + 14 * j + 11]), R(g[:4]))
                r += eqv("hand pose", out[2 + 14 * j + 11:2 + 14 * j + 14], g[4:])
            return r
        return sp
    def again(f, c):
        while True:
            try:
                return f(c)
            except fp.Resample:
                pass

    def eyes(c, n):
        """relative poses by known angles (for more than three poses about a common axis): fewer roots that may not exist"""
        p = pose(c)
        if n == 3:
            return p + sum((compose(p, again(logp, c)) for _ in range(n - 1)), [])
        ax = unit3(c)
        return p + sum((compose(p, qof(c, ax + [c.angle()]) + free(c, 3)) for _ in range(n - 1)), [])
    for e, n, cl, idx in [("s3a", 3, 2, [0, 1, 0]), ("s3b", 3, 2, [1, 1, 1]), ("s3c", 3, 1, [0, 0, 0]), ("s3d", 3, 2, [0, 1, 1]),
                          ("s4a", 4, 3, [2, 0, 2, 1, 0, 2]), ("s4b", 4, 3, [0, 2, 0, 2, 0, 2]), ("s4c", 4, 2, [1, 0, 0, 1, 0, 0])]:
        m = len(allp(n))
        ne = len(set(idx))
        C.equal(D, "vf_" + e, lambda c, n=n, cl=cl: eyes(c, n) + eyes(c, n) + free(c, 6 * cl), sel(n, cl, idx), 18 * m + 2 + 14 * ne, S, "the pair nearest to the centre of each cluster", gate=gate, bounded=5000)

    def rels(c, n):
        ax = unit3(c)
        return sum((qof(c, ax + [c.angle()]) + free(c, 3) for _ in range(n)), [])

    def chosen(n, cl, idx):
        def sp(c, x, o):
            means = [x[7 * n + 6 * k:7 * n + 6 * k + 6] for k in range(cl)]
            v = [o[6 * k:6 * k + 6] for k in range(n)]
            r = eqv("poses clustered", o[6 * n:12 * n], o[:6 * n]) + eqv("poses assigned", o[12 * n:18 * n], o[:6 * n])
            out = o[18 * n:]
            r += [("number of choices", out[0], c.N(cl)), ("number of poses", out[1 + cl], c.N(n)), ("number of clusters", out[2 + cl], c.N(cl))]
            for k in range(cl):
                j = pick(c, means, idx, v, k)
                if j is not None:
                    r.append(("choice", out[1 + k], c.N(j)))
            for k in range(n):
                w = v[k]
                ang = c.sqrt(dot(w[:3], w[:3]))
                s, co = c.sincos((ang / 2).v)
                r += eqm("aligned rotation", R([w[t] / ang * c.N(s) for t in range(3)] + [c.N(co)]), R(x[7 * k:7 * k + 4]))
            return r
        return sp
    for e, n, cl, idx in [("d3a_d", 3, 2, [0, 1, 0]), ("d3a_f", 3, 2, [0, 1, 0]), ("d4a", 4, 2, [1, 0, 0, 1]), ("d5a", 5, 3, [2, 0, 2, 1, 0]), ("d5b", 5, 1, [0] * 5)]:
        C.equal(D, "vf_" + e, lambda c, n=n, cl=cl: rels(c, n) + free(c, 6 * cl), chosen(n, cl, idx), 18 * n + 3 + cl, H, "the pose nearest to the centre of each cluster is chosen", gate=gate, bounded=5000)
    C.equal(D, "vf_get", ps(3), lambda c, x, o: [("number", o[0], c.N(2))] + eqv("poses", o[1:], x[14:] + x[:7]), 15, H, "the chosen poses are returned")

    def twice(c, x, o):
        v = [o[20 + 6 * k:26 + 6 * k] for k in range(3)]
        means = [x[33 + 6 * k:39 + 6 * k] for k in range(2)]
        return [("number of poses", o[0], c.N(3)), ("number of clusters", o[1], c.N(2))] + eqv("comparison poses", o[2:20], o[20:38]) + [("choice", o[38 + k], c.N(pick(c, means, [1, 0, 0], v, k))) for k in range(2)] + eqv("centres", o[40:], means[0] + means[1])
    C.equal(D, "vf_twice", lambda c: rels(c, 3) + free(c, 24), twice, 52, H, "later poses are added, clusters and choice are made anew", gate=gate, bounded=5000)
