"""Absolute orientation (point sets) and tool tip calibration are exact on exact data; error figures are the stated ones."""
from vlib import *
from alg import *
from checks_common import *
import lapack, fp
FLOOR = 15
D = "d_abs.cpp"
LA = lambda **k: lapack.LA(**k).handlers()


def mp(o, q, t=None):
    """output o = (x,y,z,w[,t]) is the rotation q (up to sign) [and translation t]"""
    r = eqm("rotation", R(o[:4]), R(q)) + [("unit quaternion", dot(o[:4], o[:4]), o[0] * 0 + 1)]
    return r + (eqv("translation", o[4:7], t) if t else [])


def corr(c, n, scale=None):
    """A = s R(q) B + t; registers the eigenvector Horn's matrix has for the quaternion q"""
    q, t, B = unitq(c), free(c, 3), [free(c, 3) for _ in range(n)]
    s = scale if scale is not None else c.N(1)
    c.q, c.t = q, t
    c.eig_hint = [(3, [q[3], q[0], q[1], q[2]]), (3, [q[3], -q[0], -q[1], -q[2]])]
    Am = [vadd(smul(s, qrot(q, b)), t) for b in B]
    return Am, B


def ls(c, A, B):
    cB = [sum((b[k] for b in B), c.N(0)) / len(B) for k in range(3)]
    return sum((dot(vsub(b, cB), vsub(b, cB)) for b in B), c.N(0))


def pflat(q, t):
    return list(q) + list(t)


def run(C):
    C.preload(D, "d_abs2.cpp")
    A3, TT = "src/utAlgorithm/PoseEstimation3D3D/", "src/utAlgorithm/ToolTip/"
    for t in ("d", "f"):
        for n in (3, 5, 131):
            def dom(c, n=n):
                A, B = corr(c, n)
                if not fp.is_qr(ls(c, A, B).v):
                    raise fp.Resample()
                return flat(A) + flat(B)
            C.equal(D, "vf_ao%d_%s" % (n, t), dom, lambda c, x, o: [("success", o[0], c.N(1))] + mp(o[1:], c.q, c.t), 8, A3 + "Pose6D.h", "pose from %d exact point pairs" % n, handlers=LA(), gate=None)
            C.equal(D, "vf_ao%d_%s" % (n, t), lambda c, n=n: free(c, 6 * n), lambda c, x, o: [("failure", o[0], c.N(0))], 8, A3 + "Pose6D.h", "failed eigenvalue decomposition is reported", handlers=LA(info=1), gate=None)

        def domr(c):
            A, B = corr(c, 4)
            if not fp.is_qr(ls(c, A, B).v):
                raise fp.Resample()
            return flat(A) + flat(B)
        C.equal(D, "vf_rotq_" + t, domr, lambda c, x, o: [("success", o[0], c.N(1))] + mp(o[1:], c.q), 5, A3 + "Rotation3D.h", "rotation (quaternion) from exact point pairs", handlers=LA(), gate=None)
        C.equal(D, "vf_rotm_" + t, domr, lambda c, x, o: [("success", o[0], c.N(1))] + eqm("rotation", rows(o[1:], 3, 3), R(c.q)), 10, A3 + "Rotation3D.h", "rotation (matrix) from exact point pairs", handlers=LA(), gate=None)

        def doms(c, n):
            c.s = pos(c)[0]
            A, B = corr(c, n, c.s)
            return flat(A) + flat(B)
        for n in (4, 131):
            C.equal(D, "vf_scale%s_%s" % (n if n > 4 else "", t), lambda c, n=n: doms(c, n), lambda c, x, o: [c.s], 1, A3 + "Scale.h", "scale A = s R B + t", gate=None)

        def domo(c):
            A, B = corr(c, 4)
            s = pos(c)[0]
            return flat(A) + flat(B) + c.t + c.q
        C.equal(D, "vf_aoopt_" + t, domo, lambda c, x, o: [("success", o[0], c.N(1))] + mp(o[1:8], c.q, c.t) + eqv("residual", o[8:20], [c.N(0)] * 12), 20, A3 + "Optimization.h", "refinement: the true pose has zero residual and is returned", handlers=LA(), gate=None)

        def domos(c):
            s = pos(c)[0]
            c.q = unitq(c)
            c.t = free(c, 3)
            return free(c, 24) + c.t + smul(s, c.q)
        C.equal(D, "vf_aoopt_" + t, domos, lambda c, x, o: [("success", o[0], c.N(1))] + mp(o[1:8], c.q, c.t), 20, A3 + "Optimization.h", "refinement: the returned rotation is a unit quaternion", handlers=LA(), gate=None)

        # tool tip
        def domt(c, n):
            c.pw, c.pm = free(c, 3), free(c, 3)
            x = []
            for _ in range(n):
                q = unitq(c)
                x += pflat(q, vsub(c.pw, qrot(q, c.pm)))
            return x
        for n in (3, 5, 131):
            C.equal(D, "vf_tip%d_%s" % (n, t), lambda c, n=n: domt(c, n), lambda c, x, o: [c.N(1)] + c.pw + c.pm, 7, TT + "LeastSquare.h", "tool tip from %d exact poses" % n, handlers=LA(), gate=None)
            C.equal(D, "vf_tip%d_%s" % (n, t), lambda c, n=n: domt(c, n), lambda c, x, o: [("failure", o[0], c.N(0))], 7, TT + "LeastSquare.h", "failed least squares is reported", handlers=LA(info=1), gate=None)

        def dist(c, x, pw, pm):
            return [c.sqrt(dot(v, v)) for v in [vsub(pw, vadd(qrot(x[7 * k:7 * k + 4], pm), x[7 * k + 4:7 * k + 7])) for k in range(3)]]

        def tipe(c, x, o):
            d = dist(c, x, x[21:24], x[24:27])
            m = (d[0] + d[1] + d[2]) / 3
            return [m, c.sqrt(sum(((v - m) * (v - m) for v in d), c.N(0)) / 2)]

        def dome(c):
            c.free_sqrt = True
            return flat([pflat(unitq(c), free(c, 3)) for _ in range(3)]) + free(c, 6)
        C.equal(D, "vf_tipe_" + t, dome, tipe, 2, TT + "ErrorEstimation.h", "mean and standard deviation of the tip distances", gate=None)

        def domto(c):
            c.free_sqrt = True
            x = flat([pflat(unitq(c), free(c, 3)) for _ in range(3)])
            c.l = free(c, 6)
            return x + c.l

        def tipo(c, x, o):
            d = dist(c, x, c.l[:3], c.l[3:])
            return [c.N(1)] + c.l + [-v for v in d]
        C.equal(D, "vf_tipo_" + t, domto, tipo, 10, TT + "Optimization.h", "refinement minimises the tip distances", handlers=LA(), gate=None)
    C.equal(D, "vf_tipc", lambda c: domt(c, 3), lambda c, x, o: c.pw + c.pm, 6, TT + "TipCalibration.cpp", "tool tip, old interface: (marker, world) order", handlers=LA(), gate=None)

    def doml(c):
        A, B = corr(c, 4)
        if not fp.is_qr(ls(c, A, B).v):
            raise fp.Resample()
        return flat(B) + flat(A)
    C.equal(D, "vf_aol", doml, lambda c, x, o: mp(o, c.q, c.t), 7, A3 + "AbsoluteOrientation.cpp", "old interface maps the left onto the right points", handlers=LA(), gate=None)

    # residual, covariance and robust estimation
    D2 = "d_abs2.cpp"
    for t in ("d", "f"):
        def domres(c):
            c.free_sqrt = True
            return free(c, 24) + unitq(c) + free(c, 3)

        def nrm(c, x):
            q, tr = x[24:28], x[28:31]
            ds = [vsub(x[3 * k:3 * k + 3], vadd(qrot(q, x[12 + 3 * k:15 + 3 * k]), tr)) for k in range(4)]
            return sum((c.sqrt(dot(d, d)) for d in ds), c.N(0)) / 12
        C.equal(D2, "vf_aores_" + t, domres, lambda c, x, o: [nrm(c, x)], 1, A3 + "ErrorEstimation.h", "residual: sum of the distances over the number of coordinates", gate=None)

        def jac(q, b):
            # d/de of q (e,1) b (e,1)* q* in (x, y, z) at e = 0: R(q) (2 e x b)
            Rm = R(q)
            cols = [smul(2, cross(e, b)) for e in ([b[0] * 0 + 1, b[0] * 0, b[0] * 0], [b[0] * 0, b[0] * 0 + 1, b[0] * 0], [b[0] * 0, b[0] * 0, b[0] * 0 + 1])]
            J = [[None] * 6 for _ in range(3)]
            for r in range(3):
                for k in range(3):
                    J[r][k] = b[0] * 0 + (1 if r == k else 0)
                    J[r][3 + k] = dot(Rm[r], cols[k])
            return J

        def cov(c, x, o):
            J = []
            for k in range(4):
                J += jac(x[24:28], x[12 + 3 * k:15 + 3 * k])
            return [c.N(1)] + x[31:67] + [nrm(c, x)] + flat(J)
        C.equal(D2, "vf_aocov_" + t, lambda c: domres(c) + free(c, 36), cov, 37 + 1 + 72, A3 + "CovarianceEstimation.h", "covariance from the residual and the derivative of the transformed points", gate=None)
        C.equal(D2, "vf_aofun_" + t, lambda c: free(c, 6) + free(c, 3) + unitq(c), lambda c, x, o: [c.N(6)] + flat(jac(x[9:13], x[:3]) + jac(x[9:13], x[3:6])), 37, A3 + "CovarianceEstimation.h MultiplePointTransformationError", "derivative of the transformed points by pose error", gate=None)

        def domacc(c):
            c.free_sqrt = True
            return free(c, 6) + unitq(c) + free(c, 4)
        C.equal(D2, "vf_tipacc_" + t, domacc, lambda c, x, o: [x[13] + c.sqrt(dot(*[vsub(x[:3], vadd(qrot(x[6:10], x[3:6]), x[10:13]))] * 2))], 1, TT + "ErrorEstimation.h ErrorFunction", "accumulated distance", gate=None)

        for sup in (-1, 1):
            def domran(c, sup=sup):
                A, B = corr(c, 4)
                if not fp.is_qr(ls(c, A, B).v):
                    raise fp.Resample()
                return [c.N(sup), c.var()] + flat(A) + flat(B)
            C.equal(D2, "vf_aoran_" + t, domran, lambda c, x, o, sup=sup: [("success", o[0], c.N(int(sup > 0))), ("hypothesis estimated", o[1], c.N(0))] + mp(o[2:9], c.q, c.t) + eqv("parameters", o[9:11], [c.N(3), x[1]]), 11, A3 + "Ransac.h estimatePose6D_3D3D", "robust pose: exact estimate, success only with supporters", handlers=LA(), gate=None)
            C.equal(D2, "vf_tipran_" + t, lambda c, sup=sup: [c.N(sup), c.var()] + domt(c, 4), lambda c, x, o, sup=sup: [("success", o[0], c.N(int(sup > 0))), ("hypothesis estimated", o[1], c.N(0))] + (eqv("tip", o[2:8], c.pw + c.pm) if sup > 0 else []) + eqv("parameters", o[8:10], [c.N(3), x[1]]), 10, TT + "Ransac.h estimatePosition3D_6D", "robust tip calibration: (world, tool) position, success only with supporters", handlers=LA(), gate=None)
        for e, n in (("aoran", 11), ("tipran", 10)):
            C.equal(D2, "vf_%s_%s" % (e, t), lambda c: [c.N(1), c.var()] + (free(c, 24) if e == "aoran" else flat([pflat(unitq(c), free(c, 3)) for _ in range(4)])), lambda c, x, o: [("hypothesis refused", o[1], c.N(1))], n, (A3 if e == "aoran" else TT) + "Ransac.h Estimator", "a failed estimation yields no hypothesis", handlers=LA(info=1), gate=None)

    def domold(c):
        c.free_sqrt = True
        return unitq(c) + free(c, 9)
    C.equal(D2, "vf_evold", domold, lambda c, x, o: [c.sqrt(dot(*[vsub(x[10:13], vadd(qrot(x[:4], x[7:10]), x[4:7]))] * 2))], 1, A3 + "AbsoluteOrientation.h EvaluateAbsoluteOrientation", "distance of the second point to the transformed first", gate=None)
