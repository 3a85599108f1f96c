"""Every hand-written derivative is the exact first derivative of the function it accompanies.  The specified function is
evaluated over dual numbers; its derivative is compared, entry by entry, with the value graph of the Jacobian code."""
from alg import *
from fp import N
from vlib import gate_generic, gate_small
from checks_common import seed_dual, jac, mats
D = "d_jac.cpp"
D2 = "d_jac2.cpp"
AF = "src/utAlgorithm/Function/"
MF = "src/utMath/Optimization/Function/"
NF = "src/utMath/Optimization/NewFunction/"
FLOOR = 18


def rot0(q, v):
    """q v q* without normalisation"""
    z = v[0] - v[0]
    return qmul(qmul(q, list(v) + [z]), qconj(q))[:3]


def expR(c, w, v):
    """rotation of v by the rotation vector w (Rodrigues)"""
    n = c.sqrt(dot(w, w))
    s, co = c.sin(n), c.cos(n)
    ax = [a / n for a in w]
    k = dot(ax, v)
    cr = cross(ax, v)
    return [v[j] * co + cr[j] * s + ax[j] * k * (1 - co) for j in range(3)]


def undist(k, p, x):
    r2 = dot(x, x)
    num = 1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2
    den = 1 + k[3] * r2 + k[4] * r2 * r2 + k[5] * r2 * r2 * r2
    f = num / den
    return [x[0] * f + 2 * p[0] * x[0] * x[1] + p[1] * (r2 + 2 * x[0] * x[0]),
            x[1] * f + 2 * p[1] * x[0] * x[1] + p[0] * (r2 + 2 * x[1] * x[1])]


def dist4(d, x):
    r2 = dot(x, x)
    f = 1 + d[0] * r2 + d[1] * r2 * r2
    return [x[0] * f + 2 * d[2] * x[0] * x[1] + d[3] * (r2 + 2 * x[0] * x[0]),
            x[1] * f + 2 * d[3] * x[0] * x[1] + d[2] * (r2 + 2 * x[1] * x[1])]


def run(C):
    C.preload(D, D2)

    def std(f, m, n, off=0, size=None, twice=True, tangent=None):
        """outputs: value(m), J(m x n), value, J, size.  f(c, params, all) on dual params"""
        def spec(c, x, o):
            val = f(c, x[off:off + n], x)
            dv = f(c, seed_dual(c, x[off:off + n]), x)
            Jm = jac(c, dv)
            r = []
            for t in range(2 if twice else 1):
                b = t * (m + m * n)
                tag = "" if t == 0 else "evaluateWithJacobian."
                r += eqv(tag + "value", o[b:b + m], val)
                got = rows(o[b + m:b + m + m * n], m, n)
                if tangent:
                    T = tangent(c, x)
                    r += eqm(tag + "J.tangent", mm(got, T), mm(Jm, T))
                else:
                    r += eqm(tag + "J", got, Jm)
            if size is not None:
                r.append(("size", o[2 * (m + m * n)], c.N(size)))
            return r
        return spec

    def go(name, dom, f, m, n, anchor, off=0, size=None, gate=gate_generic, drv=D, **kw):
        C.equal(drv, "vf_" + name, dom, std(f, m, n, off, size, **{k: v for k, v in kw.items() if k in ("tangent",)}),
                2 * (m + m * n) + (1 if size is not None else 0), anchor, "derivative", gate=gate, nd=n,
                **{k: v for k, v in kw.items() if k not in ("tangent",)})

    go("linear", lambda c: free(c, 9), lambda c, p, x: mv(rows(x[:6], 2, 3), p), 2, 3, MF + "LinearFunction.h", 6, 2)
    go("vnorm", lambda c: free(c, 4), lambda c, p, x: (lambda n: [a / n for a in p])(c.sqrt(dot(p, p))), 4, 4, MF + "VectorNormalize.h", 0, 4)
    go("caminv", lambda c: free(c, 7), lambda c, p, x: [-(p[0] * x[0] + p[1] * x[1] + p[2]), -(p[3] * x[1] + p[4])], 2, 5, AF + "CameraIntrinsicsMultiplication.h", 2, 2)
    go("dehom3", lambda c: free(c, 3), lambda c, p, x: [p[0] / p[2], p[1] / p[2]], 2, 3, AF + "Dehomogenization.h", 0, 2)
    go("dehom4", lambda c: free(c, 4), lambda c, p, x: [p[0] / p[3], p[1] / p[3], p[2] / p[3]], 3, 4, AF + "Dehomogenization.h", 0, 3)
    go("lie", lambda c: smul(c.var(), unit3(c)) + free(c, 3), lambda c, p, x: expR(c, p, x[3:6]), 3, 3, AF + "LieRotation.h", 0, 3)
    go("distp", lambda c: free(c, 6), lambda c, p, x: dist4(x[2:6], p), 2, 2, AF + "RadialDistortion.h RadialDistortionWrtP", 0, 2)
    go("distd", lambda c: free(c, 6), lambda c, p, x: dist4(p, x[:2]), 2, 4, AF + "RadialDistortion.h RadialDistortionWrtD", 2, 2)
    go("undist", lambda c: free(c, 10), lambda c, p, x: undist(x[2:8], x[8:10], p), 2, 2, "src/utAlgorithm/CameraLens/Undistortion.h PointUndistortion", 0, 2)

    # unit quaternion arguments: derivative of q v q*
    go("qrot", lambda c: unitq(c) + free(c, 3), lambda c, p, x: rot0(p, x[4:7]), 3, 4, AF + "QuaternionRotation.h", 0, 3)

    def qv(c, x, o):
        q, v = x[:4], x[4:7]
        dv = jac(c, rot0(seed_dual(c, q), v))
        dw = mats(R(q))
        r = []
        for t in range(2):
            b = 24 * t
            r += eqv("value%d" % t, o[b:b + 3], rot0(q, v)) + eqm("Jq%d" % t, rows(o[b + 3:b + 15], 3, 4), dv) + eqm("Jv%d" % t, rows(o[b + 15:b + 24], 3, 3), dw)
        return r
    C.equal(D, "vf_qvrot", lambda c: unitq(c) + free(c, 3), qv, 48, MF + "QuaternionVectorRotation.h", "derivative", nd=4)

    def erre(c, q, v, k=0):
        e = []
        for j in range(3):
            d = [0] * c.nd
            d[k + j] = 1
            e.append(N(0, d, c))
        return rot0(qmul(q, e + [c.N(1)]), v)
    C.equal(D, "vf_qrote", lambda c: unitq(c) + free(c, 3), lambda c, x, o: eqm("J", rows(o, 3, 3), jac(c, erre(c, x[:4], x[4:7]))), 9,
            AF + "QuaternionRotationError.h", "derivative wrt rotation error", nd=3)

    # rotation hand-eye
    def hecm(c, x, o):
        X, a, b = seed_dual(c, x[:4]), x[4:8], x[8:12]
        f = vsub(qmul(a, X), qmul(X, b))
        return eqv("value", o[:4], [N(v.v, None, c) for v in f]) + eqm("J", rows(o[4:20], 4, 4), jac(c, f))
    C.equal(D, "vf_hecm", lambda c: free(c, 12), hecm, 20, AF + "RotHecFunction.h RotHecMeasurement", "derivative of ax-xb wrt x", nd=4)

    def hecc(c, x, o):
        X, a, b = x[:4], seed_dual(c, x[4:8]), seed_dual(c, x[8:12], 4)
        f = vsub(qmul(a, X), qmul(X, b))
        J = jac(c, f)
        return eqm("Ja", rows(o[:16], 4, 4), [r[:4] for r in J]) + eqm("Jb", rows(o[16:32], 4, 4), [r[4:] for r in J])
    C.equal(D, "vf_hecc", lambda c: free(c, 12), hecc, 32, AF + "RotHecFunction.h RotHecCombine", "derivative of ax-xb wrt a, b", nd=8)

    # angular velocity integration: value exact; derivative to first order in the step angle
    def rvi(c, x, o):
        w, dt = x[:3], x[3]
        n = c.sqrt(dot(w, w))
        h = n * dt / 2
        val = [a / n * c.sin(h) for a in w] + [c.cos(h)]
        z = c.N(0)
        Jm = [[dt / 2 if r == k else z for k in range(3)] for r in range(3)] + [[-dt * dt * a / 4 for a in w]]
        r = []
        for t in range(2):
            b = 16 * t
            r += eqv("value%d" % t, o[b:b + 4], val) + eqm("J%d" % t, rows(o[b + 4:b + 16], 4, 3), Jm)
        return r
    C.equal(D, "vf_rvint", lambda c: smul(c.var(), unit3(c)) + [c.var()], rvi, 33, MF + "RotationVelocityIntegration.h", "integration and small-angle derivative")

    def disc(c, x, o):
        p, h = x[:3], x[3]
        f = lambda p: [p[0] * p[0] * p[1], p[1] * p[2]]
        v = f(p)
        cols = []
        for k in range(3):
            e = p[k] * h
            q = list(p)
            q[k] = q[k] + e
            cols.append([(a - b) / e for a, b in zip(f(q), v)])
        r = []
        for t in range(2):
            b = 8 * t
            r += eqv("value%d" % t, o[b:b + 2], v) + eqm("J%d" % t, rows(o[b + 2:b + 8], 2, 3), tr(cols))
        return r + [("size", o[16], c.N(2))]
    C.equal(D, "vf_discrete", lambda c: free(c, 4), disc, 17, MF + "DiscreteJacobianApproximation.h", "relative forward difference")

    # projections of point sets
    def proj(K, v):
        p = mv(K, v)
        return [p[0] / p[2], p[1] / p[2]]
    hom = lambda v: list(v) + [v[0] - v[0] + 1]
    par7 = lambda c: free(c, 3) + unitq(c)

    def fmpp(c, p, x):
        K = rows(x[13:22], 3, 3)
        return sum([proj(K, vadd(rot0(p[3:7], x[7 + 3 * k:10 + 3 * k]), p[:3])) for k in range(2)], [])
    go("mpp", lambda c: par7(c) + free(c, 15), fmpp, 4, 7, AF + "MultiplePointProjection.h", 0, 4)

    def dualt(c, t):
        return seed_dual(c, t, 0)

    def mppe(c, x, o):
        K = rows(x[13:22], 3, 3)
        f = sum([proj(K, vadd(erre(c, x[3:7], x[7 + 3 * k:10 + 3 * k], 3), dualt(c, x[:3]))) for k in range(2)], [])
        return eqm("J", rows(o[:24], 4, 6), jac(c, f)) + [("size", o[24], c.N(4))]
    C.equal(D, "vf_mppe", lambda c: par7(c) + free(c, 15), mppe, 25, AF + "MultiplePointProjectionError.h", "derivative wrt pose error", nd=6)

    vis = [(1, 0), (0, 1)]

    def fmcp(c, p, x):
        out = []
        for a, b in vis:
            pt = x[7 + 3 * a:10 + 3 * a]
            cam = x[13 + 7 * b:20 + 7 * b]
            K = rows(x[27 + 9 * b:36 + 9 * b], 3, 3)
            d = x[45 + 4 * b:49 + 4 * b]
            w = vadd(rot0(p[3:7], pt), p[:3])
            v = vadd(rot0(cam[:4], w), cam[4:7])
            u = dist4(d, [v[0] / v[2], v[1] / v[2]])
            out += [(K[r][0] * u[0] + K[r][1] * u[1] + K[r][2]) * K[2][2] for r in range(2)]
        return out
    go("mcp", lambda c: par7(c) + free(c, 6) + pose(c) + pose(c) + free(c, 26), fmcp, 4, 7, AF + "MultipleCameraProjection.h", 0, 4)

    def mcpe(c, x, o):
        f = []
        for a, b in vis:
            f += proj(rows(x[13 + 12 * b:25 + 12 * b], 3, 4), hom(vadd(erre(c, x[3:7], x[7 + 3 * a:10 + 3 * a], 3), dualt(c, x[:3]))))
        return eqm("J", rows(o[:24], 4, 6), jac(c, f)) + [("size", o[24], c.N(4))]
    C.equal(D, "vf_mcpe", lambda c: par7(c) + free(c, 30), mcpe, 25, AF + "MultipleCameraProjectionError.h", "derivative wrt pose error", nd=6)

    def art(c, x, o):
        w = x[3:6]
        g = x[36:39]
        e = seed_dual(c, [c.N(0)] * 3, 3)
        f = []
        for a, b in vis:
            r = expR(c, w, vsub(x[6 + 3 * a:9 + 3 * a], g))
            er = vadd(r, cross(e, r))
            t = vadd(vadd(er, expR(c, w, g)), dualt(c, x[:3]))
            f += proj(rows(x[12 + 12 * b:24 + 12 * b], 3, 4), hom(t))
        return eqm("J", rows(o[:24], 4, 6), jac(c, f)) + [("size", o[24], c.N(4))]
    C.equal(D, "vf_mcpart", lambda c: free(c, 3) + smul(c.var(), unit3(c)) + free(c, 33), art, 25, AF + "MultipleCameraProjectionErrorART.h", "derivative wrt pose error about the centre of gravity", nd=6)

    go("spmp", lambda c: free(c, 27), lambda c, p, x: sum([proj(rows(x[3 + 12 * k:15 + 12 * k], 3, 4), hom(p)) for k in range(2)], []), 4, 3, AF + "SinglePointMultiProjection.h", 0, 4)

    def ppn(c, x, o):
        n2 = dot(x[3:7], x[3:7])
        n = c.sqrt(n2)
        return [a / n2 for a in x[:3]] + [a / n for a in x[3:7]]
    C.equal(D, "vf_ppn", lambda c: free(c, 7), ppn, 7, AF + "ProjectivePoseNormalize.h", "normalise a projective pose")

    def tip(c, p, x):
        out = []
        for k in range(2):
            q = x[6 + 7 * k:13 + 7 * k]
            d = vsub(p[:3], vadd(rot0(q[:4], p[3:6]), q[4:7]))
            out.append(c.sqrt(dot(d, d)))
        return out
    go("tip", lambda c: free(c, 6) + pose(c) + pose(c), tip, 2, 6, "src/utAlgorithm/ToolTip/Optimization.h", 0, 2)

    go("pcsp", lambda c: par7(c) + free(c, 6), lambda c, p, x: sum([vadd(rot0(p[3:7], x[7 + 3 * k:10 + 3 * k]), p[:3]) for k in range(2)], []), 6, 7,
       "src/utAlgorithm/PoseEstimation3D3D/Optimization.h PointCorrespodencesSinglePose", 0, 6)

    # the same for longer lists
    def pts(x, off, n):
        return [x[off + 3 * k:off + 3 * k + 3] for k in range(n)]
    NP = 40
    go("mppL", lambda c: par7(c) + free(c, 9 + 3 * NP), lambda c, p, x: sum([proj(rows(x[7:16], 3, 3), vadd(rot0(p[3:7], q), p[:3])) for q in pts(x, 16, NP)], []), 2 * NP, 7, AF + "MultiplePointProjection.h (40 points)", 0, 2 * NP)

    def mppeL(c, x, o):
        f = sum([proj(rows(x[7:16], 3, 3), vadd(erre(c, x[3:7], q, 3), dualt(c, x[:3]))) for q in pts(x, 16, NP)], [])
        return eqm("J", rows(o[:12 * NP], 2 * NP, 6), jac(c, f)) + [("size", o[12 * NP], c.N(2 * NP))]
    C.equal(D, "vf_mppeL", lambda c: par7(c) + free(c, 9 + 3 * NP), mppeL, 12 * NP + 1, AF + "MultiplePointProjectionError.h (40 points)", "derivative wrt pose error", nd=6)
    vis5 = list(zip((4, 0, 2, 1, 3, 4, 0, 2, 4), (1, 2, 0, 1, 2, 0, 0, 1, 2)))

    def fmcpL(c, p, x):
        out = []
        for a, b in vis5:
            j = x[22 + 20 * b:42 + 20 * b]
            K = rows(j[7:16], 3, 3)
            w = vadd(rot0(p[3:7], x[7 + 3 * a:10 + 3 * a]), p[:3])
            v = vadd(rot0(j[:4], w), j[4:7])
            u = dist4(j[16:], [v[0] / v[2], v[1] / v[2]])
            out += [(K[r][0] * u[0] + K[r][1] * u[1] + K[r][2]) * K[2][2] for r in range(2)]
        return out
    go("mcpL", lambda c: par7(c) + free(c, 15) + sum((pose(c) + free(c, 13) for _ in range(3)), []), fmcpL, 18, 7, AF + "MultipleCameraProjection.h (3 cameras)", 0, 18)

    def mcpeL(c, x, o):
        f = []
        for a, b in vis5:
            f += proj(rows(x[22 + 12 * b:34 + 12 * b], 3, 4), hom(vadd(erre(c, x[3:7], x[7 + 3 * a:10 + 3 * a], 3), dualt(c, x[:3]))))
        return eqm("J", rows(o[:108], 18, 6), jac(c, f)) + [("size", o[108], c.N(18))]
    C.equal(D, "vf_mcpeL", lambda c: par7(c) + free(c, 51), mcpeL, 109, AF + "MultipleCameraProjectionError.h (3 cameras)", "derivative wrt pose error", nd=6)

    def artL(c, x, o):
        w, g = x[3:6], x[57:60]
        e = seed_dual(c, [c.N(0)] * 3, 3)
        f = []
        for a, b in vis5:
            r = expR(c, w, vsub(x[6 + 3 * a:9 + 3 * a], g))
            t = vadd(vadd(vadd(r, cross(e, r)), expR(c, w, g)), dualt(c, x[:3]))
            f += proj(rows(x[21 + 12 * b:33 + 12 * b], 3, 4), hom(t))
        return eqm("J", rows(o[:108], 18, 6), jac(c, f)) + [("size", o[108], c.N(18))]
    C.equal(D, "vf_mcpartL", lambda c: free(c, 3) + smul(c.var(), unit3(c)) + free(c, 54), artL, 109, AF + "MultipleCameraProjectionErrorART.h (3 cameras)", "derivative wrt pose error about the centre of gravity", nd=6)
    go("spmpL", lambda c: free(c, 147), lambda c, p, x: sum([proj(rows(x[3 + 12 * k:15 + 12 * k], 3, 4), hom(p)) for k in range(12)], []), 24, 3, AF + "SinglePointMultiProjection.h (12 cameras)", 0, 24)

    def tipL(c, p, x):
        ds = [vsub(p[:3], vadd(rot0(x[6 + 7 * k:10 + 7 * k], p[3:6]), x[10 + 7 * k:13 + 7 * k])) for k in range(6)]
        return [c.sqrt(dot(d, d)) for d in ds]
    go("tipL", lambda c: free(c, 6) + sum((pose(c) for _ in range(6)), []), tipL, 6, 6, "src/utAlgorithm/ToolTip/Optimization.h (6 poses)", 0, 6)
    go("pcspL", lambda c: par7(c) + free(c, 3 * NP), lambda c, p, x: sum([vadd(rot0(p[3:7], q), p[:3]) for q in pts(x, 7, NP)], []), 3 * NP, 7,
       "src/utAlgorithm/PoseEstimation3D3D/Optimization.h PointCorrespodencesSinglePose (40 points)", 0, 3 * NP)

    # zero rotation: limit of the derivative
    def lie0(c, x, o):
        v = x[3:6]
        z = c.N(0)
        S = [[z, v[2], -v[1]], [-v[2], z, v[0]], [v[1], -v[0], z]]
        return eqv("value", o[:3], v) + eqm("J", rows(o[3:12], 3, 3), S) + eqv("value2", o[12:15], v) + eqm("J2", rows(o[15:24], 3, 3), S)
    C.equal(D, "vf_lie", lambda c: [c.N(0)] * 3 + free(c, 3), lie0, 25, AF + "LieRotation.h at the identity", "derivative", gate=gate_small)

    # composed functions
    def cam12(c, p, x):
        v = vadd(p[:3], expR(c, p[3:6], x[12:15]))
        u = [v[0] / v[2], v[1] / v[2]]
        k = p[7:12]
        return [-(k[0] * u[0] + k[1] * u[1] + k[2]), -(k[3] * u[1] + k[4])]
    go("cam12", lambda c: free(c, 3) + smul(c.var(), unit3(c)) + free(c, 9), cam12, 2, 12, NF + " (composed projection)", drv=D2)
    go("lin", lambda c: free(c, 12), lambda c, p, x: vsub(mv(rows(x[4:10], 2, 3), p[1:4]), x[10:12]), 2, 4, NF + "LinearTransformation.h, Subtraction.h", drv=D2)
    go("sub2", lambda c: free(c, 12), lambda c, p, x: vsub(x[10:12], mv(rows(x[4:10], 2, 3), p[1:4])), 2, 4, NF + "Subtraction.h", drv=D2)
    go("liep", lambda c: free(c, 3) + smul(c.var(), unit3(c)), lambda c, p, x: expR(c, x[3:6], p), 3, 3, NF + "LieRotation.h", drv=D2)
    go("dehp", lambda c: free(c, 4), lambda c, p, x: [p[1] / p[3], p[2] / p[3]], 2, 4, NF + "Dehomogenization.h", drv=D2)
