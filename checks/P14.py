"""Homographies and camera poses from 2D-3D correspondences are exact on exact data."""
from vlib import *
from alg import *
from checks_common import *
from checks.P06 import minv
from checks.P11 import prop_to
from checks.P12 import mp, pflat
import lapack, fp
FLOOR = 15
D, DM, DN = "d_pose.cpp", "d_mcp.cpp", "d_npe.cpp"
LA = lambda **k: lapack.LA(**k).handlers()


def hm(H, p):
    h = mv(H, list(p) + [p[0] * 0 + 1])
    return [h[0] / h[2], h[1] / h[2]]


def hom(v):
    return list(v) + [v[0] * 0 + 1]


def orthhint(c):
    """singular value decomposition of lambda * (orthonormal columns): any one is admissible"""
    def hint(ctx, A):
        m, n = len(A), len(A[0])
        if (m, n) not in ((3, 2), (3, 3)):
            return None
        cols = tr(A)
        g = [[dot(a, b) for b in cols] for a in cols]
        for i in range(n):
            for j in range(n):
                if (g[i][j] - (g[0][0] if i == j else 0)).v:
                    return None
        lam = ctx.sqrt(g[0][0])
        if lam.v == 0:
            return None
        u = [[x / lam for x in col] for col in cols]
        if n == 2:
            u3 = cross(u[0], u[1])
            e = ctx.N(1 if ctx.rng.random() < .5 else -1)
            u.append([e * x for x in u3])
        W = orth(ctx, n)
        B = tr(u)
        WW = [r + ([ctx.N(0)] if n == 2 else []) for r in W] + ([[ctx.N(0)] * 2 + [ctx.N(1)]] if n == 2 else [])
        return [lam] * n, mm(B, WW), tr(W)
    c.svd_hint = hint


def cam(c, sgn=-1):
    z = c.N(0)
    return [[c.var(), c.var(), c.var()], [z, c.var(), c.var()], [z, z, c.N(sgn)]]


def run(C):
    C.preload(D)
    C.preload(DM)
    HG, PP, MC = "src/utAlgorithm/Homography.cpp", "src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp"
    for t in ("d", "f"):
        for n in (4, 6, 40):
            def dom(c, n=n):
                c.free_sqrt = True
                c.H = rows(free(c, 9), 3, 3)
                fr = [free(c, 2) for _ in range(n)]
                return flat(fr) + flat([hm(c.H, p) for p in fr])
            C.equal(D, "vf_h%d_%s" % (n, t), dom, lambda c, x, o: prop_to("H", o, flat(c.H)), 9, HG, "homography from %d exact pairs" % n, handlers=LA(), gate=None, samples=3)

        def sq(c):
            c.H = rows(free(c, 9), 3, 3)
            h = c.N(1) / 2
            return flat([hm(c.H, p) for p in ([-h, h], [-h, -h], [h, -h], [h, h])])
        C.equal(D, "vf_hsq_" + t, sq, lambda c, x, o: prop_to("H", o, flat(c.H)), 9, HG, "square homography", handlers=LA(), gate=None, samples=3)

        def ph(c):
            orthhint(c)
            q = unitq(c)
            tt = free(c, 2) + [-c.var() ** 2]
            c.q, c.t = q, tt
            K = cam(c)
            Rm = R(q)
            M = [[Rm[r][0], Rm[r][1], tt[r]] for r in range(3)]
            s = c.var()
            return [s * v for v in flat(mm(K, M))] + flat(minv(c, K))
        C.equal(D, "vf_ph_" + t, ph, lambda c, x, o: mp(o, c.q, c.t), 7, PP, "pose of a plane from its homography", handlers=LA(), gate=None, samples=6)

        def opt(c):
            q, tt = unitq(c), free(c, 2) + [-c.var() ** 2]
            c.q, c.t = q, tt
            K = cam(c)
            P3 = [free(c, 3) for _ in range(4)]
            p2 = [hm(K, vadd(qrot(q, p), tt)[:2])[:0] or (lambda h: [h[0] / h[2], h[1] / h[2]])(mv(K, vadd(qrot(q, p), tt))) for p in P3]
            c.i0 = unitq(c) + free(c, 3)
            return flat(K) + flat(P3) + flat(p2) + tt + q + c.i0
        C.equal(D, "vf_opt_" + t, opt, lambda c, x, o: [("residual", o[0], c.N(0))] + mp(o[1:8], c.q, c.t) + eqv("residual vector", o[8:16], [c.N(0)] * 8) + eqv("start translation", o[16:19], c.i0[4:]) + eqv("start rotation", o[19:23], c.i0[:4]), 23, PP, "pose refinement: true pose is stationary and returned", handlers=LA(), gate=None, samples=4)
    # covariance of the estimate
    def projd(K, v):
        p = mv(K, v)
        return [p[0] / p[2], p[1] / p[2]]

    def pert(c, q, t, p):
        """R (I + [2e]x) p + t + dt, the error model of ErrorPose: duals 0..2 translation, 3..5 rotation vector part of a small quaternion"""
        dt = seed_dual(c, t, 0)
        e = seed_dual(c, [c.N(0)] * 3, 3)
        return vadd(qrot(q, vadd(p, smul(2, cross(e, p)))), dt)
    for t in ("d", "f"):
        def sce(c, x, o):
            q, tt = x[:4], x[4:7]
            K = rows(x[19:28], 3, 3)
            f = sum([projd(K, pert(c, q, tt, x[7 + 3 * k:10 + 3 * k])) for k in range(4)], [])
            return eqv("returned covariance", o[:36], x[29:65]) + [("variance", o[36], x[28])] + eqm("J", rows(o[37:85], 8, 6), jac(c, f))
        C.equal(D, "vf_sce_" + t, lambda c: unitq(c) + free(c, 3 + 12 + 9 + 1 + 36), sce, 85, PP, "single camera pose covariance propagates the image variance through the projection", nd=6, gate=None)

        def mce(c, x, o):
            q, tt = x[:4], x[4:7]
            f = []
            for a, b in ((0, 0), (1, 0), (3, 1), (2, 1)):
                f += projd(rows(x[19 + 12 * b:31 + 12 * b], 3, 4), hom(pert(c, q, tt, x[7 + 3 * a:10 + 3 * a])))
            return eqv("returned covariance", o[:36], x[44:80]) + [("variance", o[36], x[43])] + eqm("J", rows(o[37:85], 8, 6), jac(c, f))
        C.equal(D, "vf_mce_" + t, lambda c: unitq(c) + free(c, 3 + 12 + 24 + 1 + 36), mce, 85, PP, "multi camera pose covariance propagates the image variance through the projections", nd=6, gate=None)

    # pose from 2D-3D correspondences
    Z = {"cp4": [2, 2, 2, 2], "cp5": [2, 2, 2, 2, 5], "cp4r": [0, 1, None, None], "cp5r": [0, 1, None, None, None], "cp6": [0, 1] + [None] * 4, "cp6o": [0, 1] + [None] * 4}

    def cpdom(e):
        n = len(Z[e])

        def f(c):
            c.free_sqrt = True
            orthhint(c)
            q, tt = unitq(c), free(c, 2) + [-c.var() ** 2]
            K = cam(c, -1 if c.rng.random() < .5 else 1)
            P3 = []
            for k, z in enumerate(Z[e]):
                p = free(c, 2) + [c.N(z) if z is not None else c.var()]
                P3.append(p)
            if e in ("cp4r", "cp5r"):
                # first four points coplanar: plane frame g, first three points not rejected as collinear
                g = R(unitq(c))
                u, v = [r[0] for r in g], [r[1] for r in g]
                k, s_, l1, l2 = c.var(), c.var(), c.var(), c.var()
                a, b, f_ = k * (1 - s_ * s_), 2 * k * s_, k * (1 + s_ * s_)
                if not (fp.is_qr(u[2].v) and fp.is_qr(b.v) and fp.is_qr(f_.v)) or fp.is_qr((a / f_ - c.N(4) / 5).v):
                    raise fp.Resample()
                P3[1] = vadd(P3[0], smul(1 / u[2], u))
                P3[2] = vadd(P3[0], vadd(smul(a, u), smul(b, v)))
                P3[3] = vadd(P3[0], vadd(smul(l1, u), smul(l2, v)))
                # the plane's local origin is the first point: it has to lie in front of the camera
                d = vadd(qrot(q, P3[0]), tt)
            elif e in ("cp4", "cp5"):
                d = vadd(qrot(q, [c.N(0), c.N(0), P3[0][2]]), tt)
            else:
                d = None
            if d is not None and fp.is_qr(d[2].v):
                raise fp.Resample()
            c.q, c.t, c.K, c.P3 = q, tt, K, P3
            img = []
            for k, p in enumerate(P3):
                img.append(projd(K, vadd(qrot(q, p), tt)))
            if n == 5:
                img[4] = free(c, 2)
            c.img = img
            c.cov = free(c, 36)
            x = flat(K) + flat(P3) + flat(img) + c.cov
            if e == "cp6o":
                x += tt + q
            return x
        return f

    def cps(n, e):
        def f(c, x, o):
            err = c.N(0)
            if n == 5:
                d = vsub(projd(c.K, vadd(qrot(c.q, c.P3[4]), c.t)), c.img[4])
                err = dot(d, d)
            r = [("residual", o[0], c.sqrt(err / (2 * n)) if n == 5 else c.N(0))] + mp(o[1:8], c.q, c.t) + eqv("covariance", o[8:44], c.cov)
            b = 63 if e == "cp6o" else 44
            r.append(("image variance", o[b], err))
            if e == "cp6o":
                r += eqv("residual vector", o[44:56], [c.N(0)] * 12) + eqv("start translation", o[56:59], c.t) + eqm("start rotation", R(o[59:63]), R(c.q))
            return r
        return f
    for e in ("cp4", "cp5", "cp4r", "cp5r", "cp6", "cp6o"):
        n = len(Z[e])
        C.equal(D, "vf_" + e, cpdom(e), cps(n, e), (63 if e == "cp6o" else 44) + 1 + 12 * n, PP, "pose from %d exact correspondences (%s)" % (n, e), handlers=LA(), gate=None, samples=3)
    C.raises(D, "vf_cp3", lambda c: free(c, 60), 44, PP, "fewer than four points refused", handlers=LA())
    # several cameras
    from checks.P02 import axang, qof, main_gate
    from checks.P13 import pmul, pinv
    allv = lambda n: [(1, 1)] * n
    some = [(1, 0), (1, 1), (0, 1), (1, 1), (1, 0)]

    def mdom(n, vis, first=0):
        def f(c):
            aa = axang(c)
            ab = axang(c)
            if not (fp.is_qr(aa[3].v) and fp.is_qr(ab[3].v)):
                raise fp.Resample()
            c.w, c.w0 = smul(aa[3], aa[:3]), smul(ab[3], ab[:3])
            c.X = qof(c, aa) + free(c, 3)
            c.X0 = qof(c, ab) + free(c, 3)
            cams = [pose(c) for _ in range(2)]
            Ks = [cam(c), cam(c)]
            c.K0 = Ks[0]
            c.P3 = [free(c, 3) for _ in range(n)]
            c.cams = cams
            x = []
            for k in range(2):
                x += cams[k] + flat(Ks[k])
            c.img = []
            for k in range(n):
                x += c.P3[k]
                for j in range(2):
                    p = projd(Ks[j], papply(cams[j], papply(c.X, c.P3[k]))) if vis[k][j] and k >= first else free(c, 2)
                    c.img.append(p)
                    x += p
            return x + c.X[4:] + c.w + c.X0 + pmul(cams[0], c.X)
        return f
    good = lambda c, o: [("weight", o[0], c.N(0))] + mp(o[1:8], c.X[:4], c.X[4:])
    st = lambda c, o, X, w: eqv("start translation", o[8:11], X[4:]) + eqv("start rotation", o[11:14], w)
    C.equal(DM, "vf_mc_init", mdom(4, allv(4)), lambda c, x, o: good(c, o) + st(c, o, c.X0, c.w0) + eqv("residual vector", o[20:36], [c.N(0)] * 16), 36, MC, "multi camera pose, initial pose given", gate=main_gate, samples=3)
    C.equal(DM, "vf_mc_some", mdom(5, some), lambda c, x, o: good(c, o) + st(c, o, c.X0, c.w0) + eqv("residual vector", o[20:34], [c.N(0)] * 14), 34, MC, "multi camera pose, partial visibility", gate=main_gate, samples=3)
    C.equal(DM, "vf_mc_self", mdom(5, some), lambda c, x, o: good(c, o) + st(c, o, c.X, c.w) + eqv("single camera input", o[14:19], [c.N(4), c.N(4), c.K0[0][2], c.img[0][0], c.P3[0][0]]) + eqv("residual vector", o[20:34], [c.N(0)] * 14), 34, MC, "multi camera pose, initial pose from the camera with most observations", gate=main_gate, samples=3)
    C.equal(DM, "vf_mc_few", mdom(4, allv(4)), lambda c, x, o: [("weight", o[0], c.N(-1))], 20, MC, "too few observations in a camera", gate=main_gate)
    C.equal(DM, "vf_mc_few4", mdom(3, allv(3)), lambda c, x, o: [("weight", o[0], c.N(-1))], 8, MC, "no start value: fewer than 4 observations in every camera", gate=main_gate)
    C.equal(DM, "vf_mc_bundle", mdom(6, allv(6), 2), lambda c, x, o: [("first weight", o[0], c.N(-1)), ("second weight", o[8], c.N(0))] + mp(o[9:16], c.X[:4], c.X[4:]) + eqv("residual vector", o[16:32], [c.N(0)] * 16) + eqv("single camera input", o[56:61], [c.N(4), c.N(4), c.K0[0][2], c.img[4][0], c.P3[2][0]]), 61, MC, "local bundles are consecutive slices", gate=main_gate, samples=3)
    for k in ("", "1", "2", "3", "4", "5"):
        C.raises(DM, "vf_mc_bad" + k, lambda c: pose(c), 1, MC, "inconsistent input sizes refused (%s)" % (k or "points"))
    # orthogonal iteration: the rotation estimate from point clouds returns the true rotation (it is exact on exact data: P12)
    NP = "src/utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.cpp"

    def npd(n):
        def f(c):
            q, tt = unitq(c), free(c, 3)
            P3 = [free(c, 3) for _ in range(n)]
            c.q, c.t, c.P3 = q, tt, P3
            x = []
            for p in P3:
                v = vadd(qrot(q, p), tt)
                x += [v[0] / v[2], v[1] / v[2]] + p
            c.p0 = pose(c)
            return x + flat(R(q)) + c.p0
        return f

    def centred(c, n):
        m = [sum((p[k] for p in c.P3), c.N(0)) / n for k in range(3)]
        return [vsub(p, m) for p in c.P3]

    def nps(n):
        def f(c, x, o):
            ctr = centred(c, n)
            a, b = o[11:11 + 3 * n], o[11 + 3 * n:11 + 6 * n]
            return [("success", o[0], c.N(1))] + mp(o[1:8], c.q, c.t) + [("object space error", o[9], c.N(0))] + eqv("object points", b, flat(ctr)) + eqv(
                "points compared with the object points", a, flat([qrot(c.q, p) for p in ctr]))
        return f

    def npno(c, x, o):
        return [("success", o[0], c.N(0))] + mp(o[1:8], c.p0[:4], c.p0[4:])
    for t in ("d", "f"):
        for n in (4, 6, 40):
            C.equal(DN, "vf_np%d_%s" % (n, t), npd(n), nps(n), 11 + 6 * n, NP, "orthogonal iteration on %d exact correspondences ends at the exact pose" % n, handlers=LA(), gate=None, samples=3)
        C.equal(DN, "vf_np1_" + t, npd(4), npno, 35, NP, "no convergence within the allowed iterations: failure, pose untouched", handlers=LA(), gate=None, samples=3)
        C.equal(DN, "vf_npf_" + t, npd(4), npno, 35, NP, "failed rotation estimate: failure, pose untouched", handlers=LA(), gate=None, samples=3)
