"""Random sample consensus: whatever is drawn and whatever the model, the answer is the estimation from exactly the supporting values."""
from vlib import *
from alg import *
from checks_common import *
import fp
FLOOR = 10
D = "d_ran.cpp"
F = "src/utMath/Optimization/Ransac.h"


def spec(two, n, setsize, mn, mx, fail):
    def sp(c, x, less):
        thr, ok = x[0], x[1]
        u = [x[2 + 2 * k] for k in range(n)]
        w = [x[3 + 2 * k] for k in range(n)]
        if two:
            u2 = [x[2 + 2 * n + 2 * k] for k in range(n)]
            w2 = [x[3 + 2 * n + 2 * k] for k in range(n)]
        ctl = iter(x[2 + (4 if two else 2) * n:])

        def est(ks):
            s = c.N(0)
            for k in ks:
                s = s + (u[k] + ok * w2[k] if two else u[k] + ok)
            if fail and less(s, 0):
                return None
            return s

        def dist(h, k):
            return h * w[k] + u[k] * w2[k] + u2[k] if two else h * w[k] + u[k]
        none = [0, -1]
        if n < setsize:
            return none
        order = list(range(n))
        for _ in range(mx):
            for r in range(n - 1):
                for k in range(n - r - 1):
                    if less(next(ctl), 0):
                        order[k], order[k + 1] = order[k + 1], order[k]
            h = est(order[:setsize])
            if h is None:
                continue
            inl = []
            for k in range(n):
                if less(dist(h, k), thr):
                    inl.append(k)
            if len(inl) >= max(mn, 1):
                h = est(inl)
                return none if h is None else [len(inl), h]
        return none
    return sp


def run(ck):
    for name, two, n, s, mn, mx, fail in [("r1_2_1", 0, 2, 1, 1, 1, 0), ("r1_3_1", 0, 3, 1, 2, 1, 0), ("r1_3_2", 0, 3, 2, 2, 2, 0), ("r1_3_f", 0, 3, 1, 2, 2, 1), ("r1_few", 0, 2, 3, 2, 2, 0),
                                          ("r2_3_1", 1, 3, 1, 2, 1, 0), ("r2_3_2", 1, 3, 2, 2, 2, 0), ("r2_3_f", 1, 3, 1, 2, 2, 1), ("r2_few", 1, 2, 3, 2, 2, 0)]:
        nin = 2 + (4 if two else 2) * n + mx * n * (n - 1) // 2
        ck.partitioned(D, "vf_" + name, lambda c, nin=nin: [c.var() for _ in range(nin)], spec(two, n, s, mn, mx, fail), 2, anchor="%s ransac (%s range)" % (F, "two" if two else "one"), rule="consensus")
    # the distances which decide support, and the parameters
    A = "src/utAlgorithm/"
    udom = lambda c: unitq(c) + [c.var() for _ in range(9)]

    def dist(p, q, t, m):
        d = vsub(p, vadd(qrot(q, m), t))
        return d
    ck.equal(D, "vf_ev_abs", udom, lambda c, x, o: [c.sqrt(dot(*[dist(x[7:10], x[:4], x[4:7], x[10:13])] * 2))], 1, A + "PoseEstimation3D3D/Ransac.h", "distance of a point to its transformed partner", gate=None)
    ck.equal(D, "vf_ev_tip", udom, lambda c, x, o: [c.sqrt(dot(*[dist(x[7:10], x[:4], x[4:7], x[10:13])] * 2))], 1, A + "ToolTip/Ransac.h", "distance of the tip to its transformed position", gate=None)
    ck.equal(D, "vf_par4", lambda c: [c.var()], lambda c, x, o: [x[0], 3, 5, 7], 4, F, "parameters", gate=None)

    def toint(c, v):
        return [N(fp.H(c.salt, op, v.v, w), None, c) for op in ("fptoui", "fptosi") for w in (32, 64)]

    def pspec(c, x, o):
        k = (1 - x[1]) * 20
        it = 1 + c.log(1 - x[2]) / c.log(1 - (1 - x[1]) * (1 - x[1]) * (1 - x[1]))
        pick = lambda g, v: ([w for w in toint(c, v) if w.v == g.v] or toint(c, v))[0]
        return [x[0], 3, pick(o[2], k), pick(o[3], it)]
    ck.equal(D, "vf_par", lambda c: [c.var() for _ in range(3)], pspec, 4, F, "number of required supporters and of drawings", gate=None)
