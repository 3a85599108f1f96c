"""Bundle adjustment: parameters, residual, Jacobian and result of the joint refinement of cameras and points."""
from vlib import *
from alg import *
from checks_common import *
from checks.P05 import rot0
from checks.P12 import mp
FLOOR = 8
D = "d_ba.cpp"
BA = "src/utAlgorithm/BundleAdjustment.cpp"


def project(c, q, t, p):
    """projection with a quaternion of any length"""
    v = vadd(rot0(q, p), t)
    return [v[0] / v[2], v[1] / v[2]]


def run(C):
    for name, n, m in (("ba22", 2, 2), ("ba13", 1, 3), ("ba31", 3, 1), ("ba45", 4, 5), ("ba17", 1, 12)):
        np_ = 7 * n + 3 * m

        def dom(c, n=n, m=m):
            start = [pose(c) for _ in range(n)]
            c.start = start
            c.P0 = [free(c, 3) for _ in range(m)]
            c.cams = [pose(c) for _ in range(n)]
            c.P = [free(c, 3) for _ in range(m)]
            c.z = [[project(c, g[:4], g[4:], p) for p in c.P] for g in c.cams]
            # the optimiser leaves quaternions at any length l; with translations scaled by l^2 they project alike
            c.lm = []
            for g in c.cams:
                l = c.var()
                c.lm += [l * v for v in g[:4]] + [l * l * v for v in g[4:]]
            return flat(start) + flat(c.P0) + flat([z for k in c.z for z in k]) + c.lm + flat(c.P)

        def spec(c, x, o, n=n, m=m, np_=np_):
            r = []
            for k in range(n):
                r += [("camera %d %s" % (k, a), b, d) for a, b, d in mp(o[7 * k:7 * k + 7], c.cams[k][:4], c.cams[k][4:])]
            r += eqv("points", o[7 * n:np_], flat(c.P))
            r += eqv("start value", o[np_:2 * np_], flat(c.start) + flat(c.P0))
            r += eqv("residual at the solution", o[2 * np_:2 * np_ + 2 * n * m], [c.N(0)] * (2 * n * m))
            par = seed_dual(c, c.lm + flat(c.P))
            f = []
            for k in range(n):
                for j in range(m):
                    f += project(c, par[7 * k:7 * k + 4], par[7 * k + 4:7 * k + 7], par[7 * n + 3 * j:7 * n + 3 * j + 3])
            return r + eqm("derivative of the projections", rows(o[2 * np_ + 2 * n * m:], 2 * n * m, np_), jac(c, f))
        for t in ("d", "f"):
            C.equal(D, "vf_%s_%s" % (name, t), dom, spec, 2 * np_ + 2 * n * m * (1 + np_), BA, "%d cameras, %d points" % (n, m), nd=np_, gate=None, samples=2)
    for t in ("d", "f"):
        for k in (1, 2, 3):
            C.raises(D, "vf_few%d_%s" % (k, t), lambda c: free(c, 20), 1, BA, "missing or surplus observations are refused")
