"""Iterative least squares: step equation, acceptance rule, damping schedule, returned residual, termination, refusals."""
from vlib import *
from alg import *
from checks_common import *
from lapack import LA
import fp
FLOOR = 25
D = "d_opt.cpp"
NM, NP = 3, 2


def solve2(A, b):
    d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    return [(A[1][1] * b[0] - A[0][1] * b[1]) / d, (A[0][0] * b[1] - A[1][0] * b[0]) / d]


class Sim:
    def __init__(s, c, x, norm, wgt):
        s.c, s.x, s.norm, s.wgt = c, x, norm, wgt

    def ev(s, p):
        x, r, J = s.x, [], []
        for k in range(NM):
            v, row = s.c.N(0), []
            for j in range(NP):
                a = x[4 * (k * NP + j):]
                v = v + a[0] * p[j] + a[1] * p[j] * p[j]
                row.append(a[2] + a[3] * p[j])
            d = x[26 + k] - v
            if s.wgt:
                w = x[32 + k] * d + 1
                d = d * w
                row = [e * w for e in row]
            r.append(d)
            J.append(row)
        return r, J

    def nrm(s, p):
        return [p[j] * s.x[29] + s.x[30 + j] for j in range(NP)] if s.norm else p

    def lm(s, its, lam, fac):
        p = s.x[24:26]
        r, J = s.ev(p)
        e = dot(r, r)
        for _ in range(its):
            A = [[sum((J[k][a] * J[k][b] for k in range(NM)), s.c.N(0)) + (lam if a == b else 0) for b in range(NP)] for a in range(NP)]
            g = [sum((J[k][a] * r[k] for k in range(NM)), s.c.N(0)) for a in range(NP)]
            q = s.nrm([u + v for u, v in zip(p, solve2(A, g))])
            r2, J2 = s.ev(q)
            e2 = dot(r2, r2)
            if fp.is_qr((e - e2).v):      # e2 < e
                p, r, J, e, lam = q, r2, J2, e2, lam / fac
            else:
                lam = lam * fac
        return [e] + p

    def gn(s, its):
        p = s.x[24:26]
        for _ in range(its):
            r, J = s.ev(p)
            A = [[sum((J[k][a] * J[k][b] for k in range(NM)), s.c.N(0)) for b in range(NP)] for a in range(NP)]
            g = [sum((J[k][a] * r[k] for k in range(NM)), s.c.N(0)) for a in range(NP)]
            p = s.nrm([u + v for u, v in zip(p, solve2(A, g))])
        return p


def run(C):
    C.preload(D)
    L = "src/utMath/Optimization/LevenbergMarquardt.h"
    G = "src/utMath/Optimization/GaussNewton.h"
    dom = lambda c: free(c, 37)
    lab = ["residual"] + ["parameter %d" % k for k in range(NP)]

    def spec(its, norm, wgt, lam=None, fac=None):
        def f(c, x, o):
            want = Sim(c, x, norm, wgt).lm(its, x[35] if lam is None else c.N(lam), x[36] if fac is None else c.N(fac))
            return [(lab[k], o[k], want[k]) for k in range(3)]
        return f
    for nm, norm, wgt in (("lm", 0, 0), ("lmn", 1, 0), ("lmw", 1, 1)):
        for its, suf in ((1, "_d"), (1, "_f"), (2, "_d"), (3, "_d"), (2, "_qr"), (2, "_svd")):
            C.equal(D, "vf_%s%d%s" % (nm, its, suf), dom, spec(its, norm, wgt), 4, L, "%d damped step(s): step, acceptance, damping, returned residual" % its, handlers=LA().handlers(), gate=None, samples=12, names=None)
        # Cholesky breaks down: the same step by singular value decomposition
        C.equal(D, "vf_%s1_d" % nm, dom, spec(1, norm, wgt), 4, L, "Cholesky failure falls back to the same damped step", handlers=LA(info={"posv": 1}).handlers(), gate=None, samples=8)
    C.equal(D, "vf_lmu2", dom, spec(2, 1, 0), 4, L, "unweighted front end", handlers=LA().handlers(), gate=None, samples=8)
    C.equal(D, "vf_lmdef1", dom, spec(2, 1, 0, 1, 10), 4, L, "default damping 1 and factor 10", handlers=LA().handlers(), gate=None, samples=8)
    C.raises(D, "vf_lm2_qr", dom, 4, L, "a failing QR solver is reported", handlers=LA(info={"gels": 1}).handlers())
    C.raises(D, "vf_lm2_svd", dom, 4, L, "a failing SVD solver is reported", handlers=LA(info={"gelss": 1}).handlers())
    C.raises(D, "vf_lm2_d", dom, 4, L, "failing Cholesky and SVD solvers are reported", handlers=LA(info={"posv": 1, "gelss": 1}).handlers())
    for its, suf in ((0, "_d"), (1, "_d"), (1, "_f"), (3, "_d")):
        C.equal(D, "vf_gn%d%s" % (its, suf), dom, lambda c, x, o, its=its: [("parameter %d" % k, o[k], w) for k, w in enumerate(Sim(c, x, 1, 0).gn(its))] + [("evaluations", o[2], c.N(its))], 3, G, "%d Gauss-Newton step(s)" % its, handlers=LA().handlers(), gate=None)
    C.raises(D, "vf_gn1_d", dom, 4, G, "a failing solver is reported", handlers=LA(info={"gels": 1}).handlers())
    # termination criteria
    T = "src/utMath/Optimization/Optimization.h"

    def tdom(c):
        p = c.var()
        now = c.var()
        prev = c.var()
        return [p, prev, now]

    def tspec(lim):
        def f(c, x, o):
            p, a, b = x
            d = c.fabs(a - b)
            t = fp.is_qr((p * b - d).v)
            return [("limit and precision", o[0], c.N(1 if lim or t else 0)), ("limit only", o[1], c.N(1 if lim else 0))]
        return f
    for e, lim in (("before", 0), ("at", 1), ("after", 1), ("unlim", 0)):
        C.equal(D, "vf_term_" + e, tdom, tspec(lim), 2, T, "stops at the iteration limit or when the relative change is below the precision", gate=None, samples=12)
