"""Epipolar geometry and triangulation are exact on exact data."""
from vlib import *
from alg import *
from checks_common import *
from checks.P06 import minv
import lapack, fp
FLOOR = 18
D = "d_epi.cpp"
LA = lambda **k: lapack.LA(**k).handlers()


def skew(v):
    z = v[0] * 0
    return [[z, -v[2], v[1]], [v[2], z, -v[0]], [-v[1], v[0], z]]


def cams(c, n=2):
    return [rows(free(c, 12), 3, 4) for _ in range(n)]


def pr(P, X):
    h = mv(P, list(X) + [X[0] * 0 + 1])
    return [h[0] / h[2], h[1] / h[2]]


def ftrue(c, P1, P2):
    """F with x2^T F x1 = 0: [P2 C]_x P2 P1^+, C the centre of P1; P1^+ any right inverse"""
    M = [r[:3] for r in P1]
    Mi = minv(c, M)
    C0 = [-v for v in mv(Mi, [r[3] for r in P1])]
    e2 = mv(P2, C0 + [c.N(1)])
    # right inverse of P1: (Mi; 0)
    G = mm([r[:3] for r in P2], Mi)
    return mm(skew(e2), G)


def prop_to(label, got, want):
    k = next(i for i in range(len(want)) if want[i].v)
    return [("%s %d" % (label, i), got[i] * want[k], got[k] * want[i]) for i in range(len(want))] + [
        (label + " non-zero", got[k] * 0 + (1 if got[k].v else 0), got[k] * 0 + 1)]


def run(C):
    C.preload(D)
    A, T3 = "src/utAlgorithm/FundamentalMatrix.cpp", "src/utAlgorithm/3DPointReconstruction.cpp"
    for n, e, step in ((8, "fm8", 1), (10, "fm10", 1), (40, "fm40", 1), (16, "fm16s2", 2)):
        def dom(c, n=n, step=step):
            c.free_sqrt = True
            c.full_svd = 3
            P1, P2 = cams(c)
            c.F = flat(ftrue(c, P1, P2))
            x = []
            for k in range(n):
                X = free(c, 3)
                x += pr(P1, X) + pr(P2, X) if k % step == 0 else free(c, 4)
            return x
        for t in ("d", "f"):
            C.equal(D, "vf_%s_%s" % (e, t), dom, lambda c, x, o: prop_to("F", o, c.F), 9, A, "fundamental matrix from %d exact correspondences" % n, handlers=LA(), gate=None, samples=2)
    for t in ("d", "f"):
        C.equal(D, "vf_gf_" + t, lambda c: dom(c, 8, 1), lambda c, x, o: prop_to("F", o, c.F), 9, A[:-3] + "h GetFundamentalMatrix", "fundamental matrix (function object)", handlers=LA(), gate=None, samples=2)
        C.raises(D, "vf_fm7_" + t, lambda c: free(c, 28), 9, A, "fewer than 8 correspondences refused", handlers=LA())
        C.raises(D, "vf_fm8s2_" + t, lambda c: free(c, 32), 9, A, "fewer than 8 used correspondences refused", handlers=LA())
        C.raises(D, "vf_fm8s0_" + t, lambda c: free(c, 32), 9, A, "step size 0 refused", handlers=LA())
        C.raises(D, "vf_fmne_" + t, lambda c: free(c, 2), 9, A, "lists of different length refused", handlers=LA())
        C.raises(D, "vf_fm8_" + t, lambda c: free(c, 32), 9, A, "failed decomposition refused", handlers=LA(info={"gesvd": 1}))

    # fundamental matrix of two posed cameras
    def fmp(c):
        z = c.N(0)
        K = [[[c.var(), c.var(), c.var()], [z, c.var(), c.var()], [z, z, c.N(-1)]] for _ in range(2)]
        ps = [pose(c), pose(c)]
        Ps = [mm(K[k], [r[:] for r in pmat(ps[k])[:3]]) for k in range(2)]
        c.F = flat(ftrue(c, *Ps))

        def hint(ctx, B):
            if len(B) != 3 or len(B[0]) != 4:
                return None
            rt, us = lapack.eigsym(ctx, mm(B, tr(B)), "svd34")
            s, U, V = [], [], []
            for l, u in zip(rt, us):
                sv = ctx.sqrt(ctx.N(l))
                s.append(sv)
                U.append(u)
                V.append([x / sv for x in mv(tr(B), u)])
            ns = lapack.nullspace(B)
            V.append(lapack.unitv(ctx, ns[0], "svd34n"))
            return s, tr(U), V
        c.svd_hint = hint
        hint(c, Ps[0])
        return ps[0] + ps[1] + flat(K[0]) + flat(K[1])
    C.equal(D, "vf_fmp", fmp, lambda c, x, o: prop_to("F", o, c.F), 9, A, "x2^T F x1 = 0 for posed cameras", handlers=LA(), samples=2)

    # relative pose from a fundamental matrix: the candidate with the point in front of both cameras
    def pfm(which):
        def dom(c):
            U, V = orth(c, 3, c.rng.choice((2, 3))), orth(c, 3, c.rng.choice((2, 3)))
            s = c.var() ** 2
            z = c.N(0)
            E = mm(mm(U, [[s, z, z], [z, s, z], [z, z, z]]), tr(V))
            W = [[z, c.N(-1), z], [c.N(1), z, z], [z, z, c.N(1)]]
            u3 = [r[2] for r in U]
            cand = []
            for Wm in (W, tr(W)):
                Rm = mm(mm(U, Wm), tr(V))
                if det(Rm).v != 1:
                    Rm = [[-v for v in r] for r in Rm]
                for sg in (1, -1):
                    cand.append((Rm, [sg * v for v in u3]))
            Rm, t = cand[which]
            X = free(c, 3)
            neg = lambda v: v.v and not fp.is_qr(v.v)
            Y = vadd(mv(Rm, X), t)
            if not (neg(X[2]) and neg(Y[2])):
                raise Resample()
            K = [[[c.var(), c.var(), c.var()], [z, c.var(), c.var()], [z, z, c.N(-1)]] for _ in range(2)]
            p1, p2 = pr(mm(K[0], [r + [z] for r in eye(c, 3)]), X), pr(mm(K[1], [r + [tt] for r, tt in zip(Rm, t)]), X)
            for k, (Rk, tk) in enumerate(cand):
                if k == which:
                    continue
                P1, P2 = mm(K[0], [r + [z] for r in eye(c, 3)]), mm(K[1], [r + [tt] for r, tt in zip(Rk, tk)])
                M = [vsub(smul(p1[0], P1[2]), P1[0]), vsub(smul(p1[1], P1[2]), P1[1]), vsub(smul(p2[0], P2[2]), P2[0]), vsub(smul(p2[1], P2[2]), P2[1])]
                ns = lapack.nullspace(M)
                if len(ns) != 1:
                    raise Resample()
                n = [c.N(v) for v in ns[0]]
                S = [n[0] / n[3], n[1] / n[3], n[2] / n[3]]
                if neg(S[2]) and neg(vadd(mv(Rk, S), tk)[2]):
                    raise Resample()
            c.R, c.t = Rm, t
            F = mm(mm(tr(minv(c, K[1])), E), minv(c, K[0]))

            def hint(ctx, B):
                if len(B) == 3:
                    return [s, s, c.N(0)], U, tr(V)
                return None
            c.svd_hint = hint
            return flat(F) + p1 + p2 + flat(K[0]) + flat(K[1])
        return dom

    def spec(c, x, o):
        return eqm("rotation", R(o[:4]), c.R) + eqv("translation", o[4:], c.t) + [("unit", dot(o[:4], o[:4]), c.N(1))]
    for w in range(4):
        C.equal(D, "vf_pfm", pfm(w), spec, 7, A, "relative pose, candidate %d in front of both cameras" % w, handlers=LA(), gate=None, samples=2)

    # distance to the epipolar line
    def ppd(c, x, o):
        l = mv(rows(x[4:], 3, 3), x[:2] + [c.N(1)])
        d = dot(l, x[2:4] + [c.N(1)])
        return [d * d / (l[0] * l[0] + l[1] * l[1])]
    for e in ("ev_d", "ev_f"):
        C.equal(D, "vf_" + e, lambda c: free(c, 13), ppd, 1, A[:-3] + "h EvaluateFundamentalMatrix", "squared distance to the epipolar line (robust estimation)")
    for e in ("ppd2_d", "ppd2_f", "ppd3_d", "ppd3_f"):
        C.equal(D, "vf_" + e, lambda c: free(c, 13), ppd, 1, T3, "squared distance to the epipolar line")

    # triangulation
    def tri2(c):
        P = cams(c)
        X = c.X = free(c, 3)
        return flat(P[0]) + flat(P[1]) + pr(P[0], X) + pr(P[1], X)

    def trin(n, sol=False):
        def dom(c):
            P = cams(c, n)
            X = c.X = free(c, 3)
            x = []
            for q in P:
                x += flat(q) + pr(q, X)
            return x + (list(X) if sol else [])
        return dom
    for t in ("d", "f"):
        C.equal(D, "vf_tri2_" + t, tri2, lambda c, x, o: c.X, 3, T3, "triangulation from two views", handlers=LA(), gate=None)
        C.equal(D, "vf_trin2_" + t, trin(2), lambda c, x, o: c.X, 3, T3, "triangulation from two views (list)", handlers=LA(), gate=None)
        C.equal(D, "vf_trin3_" + t, trin(3), lambda c, x, o: c.X, 3, T3, "triangulation from three views", handlers=LA(), gate=None)
        C.equal(D, "vf_trin40_" + t, trin(40), lambda c, x, o: c.X, 3, T3, "triangulation from 40 views", handlers=LA(), gate=None, samples=2)
        C.equal(D, "vf_trino_" + t, trin(3, True), lambda c, x, o: c.X + [c.N(0)] * 6, 9, T3, "refinement minimises the reprojection error in all views", handlers=LA(), gate=None)
        C.raises(D, "vf_trin1_" + t, lambda c: free(c, 14), 3, T3, "one view refused", handlers=LA())
        C.raises(D, "vf_trinne_" + t, lambda c: free(c, 42), 3, T3, "different numbers of cameras and points refused", handlers=LA())
        C.raises(D, "vf_trin3_" + t, trin(3), 3, T3, "failed decomposition refused", handlers=LA(info={"gesvd": 1}))
    C.equal(D, "vf_trires", trin(3, True), lambda c, x, o: c.X + [c.N(0)] * 7, 10, T3, "refinement residual", handlers=LA(), gate=None)
    C.equal(D, "vf_trires0", trin(3), lambda c, x, o: c.X, 3, T3, "triangulation without refinement", handlers=LA(), gate=None)
