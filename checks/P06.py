"""State estimation: every time update is the documented motion model with its transition matrix, every measurement update is
the Kalman update for the measurement's part of the state, and the filters compose them for the elapsed (signed) time."""
import vg, lapack
from alg import *
from fp import N, is_qr
from vlib import gate_generic
from checks_common import seed_dual, jac, mats, sym, prop
from checks.P05 import rot0
D = "d_trk.cpp"
TF = "src/utTracking/Function/"
KF = "src/utTracking/PoseKalmanFilter.cpp"
RK = "src/utTracking/RotationOnlyKf.cpp"
KA = "src/utMath/Stochastic/Kalman.h"
FLOOR = 36


def K(c, v):
    return c.ev(vg.const(v))


def nd_(x, c):
    return [N(v.v, None, c) for v in x]


def zeros(c, m, n):
    return [[c.N(0)] * n for _ in range(m)]


def expq(c, w, dt):
    n = c.sqrt(dot(w, w))
    # |w dt| up to the sign of dt: the quaternion is the same
    h = n * dt / 2
    s, co = c.sin(h), c.cos(h)
    return [a / n * s for a in w] + [co]


def Lq(q):
    x, y, z, w = q
    return [[w, -z, y], [z, w, -x], [-y, x, w], [-x, -y, -z]]


def blockput(M, r, c0, B):
    for i, row in enumerate(B):
        for j, v in enumerate(row):
            M[r + i][c0 + j] = v


def pos_update(c, dt, s, order):
    """Taylor polynomial on blocks of three; value and transition"""
    n = 3 * (order + 1)
    F = zeros(c, n, n)
    for a in range(order + 1):
        f = c.N(1)
        for b in range(a, order + 1):
            if b > a:
                f = f * dt / (b - a)
            for k in range(3):
                F[3 * a + k][3 * b + k] = f
    return mv(F, s), F


def rot_update(c, dt, s, order):
    q = s[:4]
    if order == 0:
        return q, eye(c, 4)
    w = s[4:7]
    F = eye(c, 7)
    blockput(F, 0, 4, [[dt / 2 * v for v in r] for r in Lq(q)])
    return qmul(q, expq(c, w, dt)) + w, F


def pose_update(c, dt, s, po, ro):
    a, FA = pos_update(c, dt, s[:3 * po + 3], po)
    b, FB = rot_update(c, dt, s[3 * po + 3:], ro)
    n = len(s)
    F = zeros(c, n, n)
    blockput(F, 0, 0, FA)
    blockput(F, len(a), len(a), FB)
    return a + b, F


def inside_out(c, dt, s, po):
    rs = 3 * po + 3
    q, w = s[rs:rs + 4], s[rs + 4:rs + 7]
    b, FB = rot_update(c, dt, s[rs:], 1)
    n = len(s)
    F = zeros(c, n, n)
    blockput(F, rs, rs, FB)
    W = rot0(q, w)
    dW_q = jac_of(c, lambda p: rot0(p, w), q)
    dW_w = mats(R(q))
    dq = expq(c, W, dt)
    dI = [[dt / 2 if r == k else c.N(0) for k in range(3)] for r in range(3)] + [[-dt * dt * a / 4 for a in W]]
    out = []
    for blk in range(po + 1):
        v = s[3 * blk:3 * blk + 3]
        out += rot0(dq, v)
        A = mm(jac_of(c, lambda p: rot0(p, v), dq), dI)
        blockput(F, 3 * blk, 3 * blk, R(dq))
        blockput(F, 3 * blk, rs, mm(A, dW_q))
        blockput(F, 3 * blk, rs + 4, mm(A, dW_w))
    if po == 1:
        for k in range(3):
            out[k] = out[k] + dt * s[3 + k]
            F[k][3 + k] = F[k][3 + k] + dt
    return out + b, F


def jac_of(c, f, p):
    """exact derivative of f at p by dual numbers (independent of the check's own dual directions)"""
    old = c.nd
    c.nd = len(p)
    try:
        J = jac(c, f(seed_dual(c, p)))
    finally:
        c.nd = old
    return J


def minv(c, A):
    n = len(A)
    return rows(lapack.mx_inv(c, (n,), flat(A)), n, n)


def kalman(c, s, P_, H_, z, Rm):
    """returns updated state and covariance; H_ full rows, z innovation"""
    PH = mm(P_, tr(H_))
    S = [vadd(a, b) for a, b in zip(mm(H_, PH), Rm)]
    G = mm(PH, minv(c, S))
    return vadd(s, mv(G, z)), [vsub(a, b) for a, b in zip(P_, mm(G, tr(PH)))]


def normq(c, s, P_, iR):
    q = s[iR:iR + 4]
    f = lambda p: (lambda n: [a / n for a in p])(c.sqrt(dot(p, p)))
    Jn = jac_of(c, f, q)
    F = eye(c, len(s))
    blockput(F, iR, iR, Jn)
    r = list(s)
    r[iR:iR + 4] = f(q)
    return r, prop(F, P_)


def too_fast(cn):
    """the comparison of the angular velocity with its limit 10 rad/s (or of their squares): True if `cn` says `too fast`, False if it says `slow enough`"""
    if cn.op == "flt":
        for k, lim in ((0, True), (1, False)):
            a, b = cn.args[k], cn.args[1 - k]
            if a.op == "const" and a.args[0] == (10 if b.op == "fn:sqrt" else 100):
                return lim
    return None


def gate_stable(ctx, cn):
    f = too_fast(cn)
    return gate_generic(ctx, cn) if f is None else not f


def gate_unstable(ctx, cn):
    f = too_fast(cn)
    return gate_generic(ctx, cn) if f is None else f


def vel(c):
    """angular velocity whose norm is in the field, non-zero"""
    return smul(c.var(), unit3(c))


def run(C):
    def go(entry, *a, **kw):
        la = lapack.LA(kw.pop("info", None))
        kw.setdefault("handlers", la.handlers())
        return C.equal(D, "vf_" + entry, *a, **kw)

    # ---- elementary updates
    for m, order in ((2, 0), (2, 1), (2, 2), (1, 3)):
        def lin(c, x, o, m=m, order=order):
            dt, s = x[0], x[1:]
            n = m * (order + 1)
            F = zeros(c, m, n)
            f = c.N(1)
            for b in range(order + 1):
                if b:
                    f = f * dt / b
                for k in range(m):
                    F[k][b * m + k] = f
            return eqv("value", o[:m], mv(F, s)) + eqm("F", rows(o[m:m + m * n], m, n), F) + [("size", o[m + m * n], c.N(m))]
        n = m * (order + 1)
        go("lin%d" % order, lambda c, n=n: free(c, 1 + n), lin, m + m * n + 1, TF + "LinearTimeUpdate.h", "Taylor polynomial and transition matrix")

    def upd(f, n, off=1, size=None, rows_=None):
        def spec(c, x, o):
            v, F = f(c, x[0], x[1:1 + n])
            m = rows_ or n
            return eqv("value", o[:m], v[:m]) + eqm("F", rows(o[m:m + m * n], m, n), F[:m]) + [("size", o[m + m * n], c.N(m))]
        return spec
    R_ = "motion model value and transition matrix"
    go("qtu0", lambda c: free(c, 1) + unitq(c), upd(lambda c, dt, s: rot_update(c, dt, s, 0), 4), 21, TF + "QuaternionTimeUpdate.h order 0", R_)
    go("qtu1", lambda c: free(c, 1) + unitq(c) + vel(c), upd(lambda c, dt, s: rot_update(c, dt, s, 1), 7, rows_=4), 33, TF + "QuaternionTimeUpdate.h", R_)
    st = lambda po, ro: (lambda c: free(c, 3 * po + 3) + unitq(c) + (vel(c) if ro else []))
    for po, ro in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1)):
        n = 3 * po + 7 + 3 * ro
        go("ptu%d%d" % (po, ro), lambda c, po=po, ro=ro: free(c, 1) + st(po, ro)(c), upd(lambda c, dt, s, po=po, ro=ro: pose_update(c, dt, s, po, ro), n), n + n * n + 1, TF + "PoseTimeUpdate.h", R_)
    for po in (0, 1):
        n = 3 * po + 10
        go("iou%d" % po, lambda c, po=po: free(c, 1) + st(po, 1)(c), upd(lambda c, dt, s, po=po: inside_out(c, dt, s, po), n), n + n * n + 1, TF + "InsideOutPoseTimeUpdate.h", R_)

    def irv(c, x, o):
        f = lambda p: smul(-1, rot0(p[:4], p[4:7]))
        return eqv("value", o[:3], f(x)) + eqm("J", rows(o[3:24], 3, 7), jac_of(c, f, x)) + [("size", o[24], c.N(3))]
    go("irv", lambda c: unitq(c) + free(c, 3), irv, 25, TF + "InvertRotationVelocity.h", "derivative")

    def rvint(c, x, o):
        n = c.sqrt(dot(x[:3], x[:3]))
        return eqv("integrate", o[:4], expq(c, x[:3], x[3])) + [("angularVelocity", o[4], n)] + eqv("axis", o[5:8], [a / n for a in x[:3]])
    go("rv_int", lambda c: vel(c) + [c.var()], rvint, 8, "src/utMath/RotationVelocity.h", "constant angular velocity")

    def rvab(c, x, o):
        # b = a exp(v dt) up to the sign of the quaternion: exp(out*dt) must be +-conj(a) b
        e = expq(c, o[:3], x[8])
        d = qmul(qconj(x[:4]), x[4:8])
        s = 1 if (e[3].v - d[3].v) % __import__("fp").P == 0 else -1
        return eqv("exp(v dt)", e, smul(s, d))
    def rvdom(c):
        a = unitq(c)
        t = c.angle()
        ax = unit3(c)
        d = [v * c.sin(t) for v in ax] + [c.cos(t)]
        return a + qmul(a, d) + [c.var()]
    go("rv_ab", rvdom, rvab, 3, "src/utMath/RotationVelocity.h RotationVelocity(a,b,interval)", "b = a exp(v dt)")

    # ---- process noise
    def npn(po, ro):
        def f(c, v):
            o = []
            for k in range(po + 1):
                o += [v[k] * v[k]] * 3
            for k in range(ro + 1):
                o += [v[po + 1 + k] * v[po + 1 + k]] * (4 if k == 0 else 3)
            return o
        return f

    def addn(c, P_, q, adt):
        P_ = mats(P_)
        for k in range(len(P_)):
            P_[k][k] = P_[k][k] + adt * q[k]
        return P_
    for po, ro in ((0, 0), (1, 1), (2, 1), (0, 2)):
        n = 3 * po + 7 + 3 * ro
        nv = po + ro + 2
        def noi(c, x, o, po=po, ro=ro, n=n, nv=nv):
            P_ = addn(c, rows(x[nv + 1:], n, n), npn(po, ro)(c, x), c.fabs(x[nv]))
            return eqm("cov", rows(o[:n * n], n, n), P_) + [("stateSize", o[n * n], c.N(n))]
        go("noise%d%d" % (po, ro), lambda c, n=n, nv=nv: free(c, nv + 1 + n * n), noi, n * n + 1, "src/utTracking/LinearPoseMotionModel.h", "noise |dt| sigma^2 on the block's diagonal", samples=4)

    # ---- measurement updates
    for info, tag in (({}, ""), ({"potrf": 1}, " (Cholesky failure)")):
        for nm, b, e in (("04", 0, 4), ("13", 1, 3), ("02", 0, 2)):
            def km(c, x, o, b=b, e=e):
                w = e - b
                s, P_, z, Rm = x[:4], rows(x[4:20], 4, 4), x[20:22], rows(x[22:26], 2, 2)
                A = rows(x[26:26 + 2 * w], 2, w)
                H_ = zeros(c, 2, 4)
                blockput(H_, 0, b, A)
                inn = vsub(z, vadd(mv(H_, s), x[26 + 2 * w:28 + 2 * w]))
                s2, P2 = kalman(c, s, P_, H_, inn, Rm)
                return eqv("state", o[:4], s2) + eqm("cov", rows(o[4:20], 4, 4), P2)
            go("kal_" + nm, lambda c, w=e - b: free(c, 4) + sym(c, 4) + free(c, 2) + sym(c, 2) + free(c, 2 * w + 2), km, 20, KA + " kalmanMeasurementUpdate" + tag, "Kalman gain, state and covariance", info=info)
        for nm, b, e in (("02", 0, 2), ("13", 1, 3), ("24", 2, 4)):
            def ki(c, x, o, b=b, e=e):
                s, P_, z, Rm = x[:4], rows(x[4:20], 4, 4), x[20:22], rows(x[22:26], 2, 2)
                H_ = eye(c, 4)[b:e]
                s2, P2 = kalman(c, s, P_, H_, vsub(z, s[b:e]), Rm)
                return eqv("state", o[:4], s2) + eqm("cov", rows(o[4:20], 4, 4), P2)
            go("kid_" + nm, lambda c: free(c, 4) + sym(c, 4) + free(c, 2) + sym(c, 2), ki, 20, KA + " kalmanMeasurementUpdateIdentity" + tag, "Kalman gain, state and covariance", info=info)

    # ---- pose filter
    def fil(c, po, ro, io, dt, v, s, P_):
        if dt == 0:
            return s, P_
        d = K(c, dt)
        s2, F = inside_out(c, d, s, po) if io else pose_update(c, d, s, po, ro)
        return s2, addn(c, prop(F, P_), npn(po, ro)(c, v), K(c, abs(dt)))

    def fdom(po, ro):
        n = 3 * po + 7 + 3 * ro
        return lambda c: free(c, po + ro + 2) + st(po, ro)(c) + sym(c, n)

    def unpack(x, po, ro):
        nv, n = po + ro + 2, 3 * po + 7 + 3 * ro
        return x[:nv], x[nv:nv + n], rows(x[nv + n:nv + n + n * n], n, n), n

    def outf(c, o, s, P_, t):
        n = len(s)
        return eqv("state", o[:n], s) + eqm("cov", rows(o[n:n + n * n], n, n), P_) + [("clock", o[n + n * n], K(c, t))]
    for nm, po, ro, io, dt in (("11f", 1, 1, 0, .5), ("11b", 1, 1, 0, -.25), ("11z", 1, 1, 0, 0), ("00f", 0, 0, 0, .5), ("io0", 0, 1, 1, .5), ("11s", 1, 1, 0, 2. ** -9), ("11L", 1, 1, 0, 2. ** 22), ("11B", 1, 1, 0, -512.), ("io0L", 0, 1, 1, 86400.)):
        def tu(c, x, o, po=po, ro=ro, io=io, dt=dt):
            v, s, P_, n = unpack(x, po, ro)
            s2, P2 = fil(c, po, ro, io, dt, v, s, P_)
            return outf(c, o, s2, P2, dt)
        n = 3 * po + 7 + 3 * ro
        go("tu_" + nm, fdom(po, ro), tu, n + n * n + 1, KF + " timeUpdate dt=%g" % dt, "prediction for the elapsed time", samples=2)
    def big(c, q):
        x, y, z, w = qconj(q)
        L4 = [[w, -z, y, x], [z, w, -x, y], [-y, x, w, z], [-x, -y, -z, w]]
        z_ = c.N(0)
        e = eye(c, 3)
        return [e[i] + [z_] * 4 for i in range(3)] + [[z_] * 3 + L4[i] for i in range(4)]
    for nm, po, ro, io, dt in (("11f", 1, 1, 0, .5), ("11b", 1, 1, 0, -.25), ("00f", 0, 0, 0, .5), ("io1", 1, 1, 1, .5), ("11s", 1, 1, 0, 2. ** -9), ("11L", 1, 1, 0, 2. ** 22), ("11B", 1, 1, 0, -512.), ("io1L", 1, 1, 1, 86400.)):
        def pp(c, x, o, po=po, ro=ro, io=io, dt=dt):
            v, s, P_, n = unpack(x, po, ro)
            s2, P2 = fil(c, po, ro, io, dt, v, s, P_)
            iR = 3 * po + 3
            ix = [0, 1, 2] + list(range(iR, iR + 4))
            q = s2[iR:iR + 4]
            C7 = prop(big(c, q), [[P2[a][b] for b in ix] for a in ix])
            r = eqv("pose", o[:7], q + s2[:3]) + eqm("poseCov", rows(o[7:43], 6, 6), [r[:6] for r in C7[:6]]) + [("time", o[43], K(c, dt))]
            return r + [("unchanged." + l, a, b) for l, a, b in outf(c, o[44:], s, P_, 0)]
        n = 3 * po + 7 + 3 * ro
        go("pp_" + nm, fdom(po, ro), pp, 44 + n + n * n + 1, KF + " predictPose dt=%g" % dt, "prediction without changing the filter", samples=2)

    def init(n, qi):
        def f(c, x, o):
            s = [c.N(0)] * n
            s[qi] = c.N(1)
            return eqv("state", o[:n], s) + eqm("cov", rows(o[n:n + n * n], n, n), eye(c, n)) + [("time", o[n + n * n + 1], c.N(0))]
        return f
    go("pkf_init", lambda c: free(c, 4), init(13, 9), 13 + 169 + 2, KF + " constructor", "identity pose, unit covariance, not started")

    def toadd(c, q, t, C6):
        x, y, z, w = q
        L4 = [[w, -z, y, x], [z, w, -x, y], [-y, x, w, z], [-x, -y, -z, w]]
        z_ = c.N(0)
        e = eye(c, 3)
        B = [e[i] + [z_] * 4 for i in range(3)] + [[z_] * 3 + L4[i] for i in range(4)]
        C7 = [C6[i] + [z_] for i in range(6)] + [[z_] * 6 + [C6[3][3] + C6[4][4] + C6[5][5]]]
        return t + q, prop(B, C7)

    def align(q, ref):
        return q if dot(q, ref).v and is_qr(dot(q, ref).v) else smul(-1, q)

    def upd_pose(c, s, P_, q, t, C6):
        z, Rm = toadd(c, align(q, s[3:7]), t, C6)
        s2, P2 = kalman(c, s, P_, eye(c, 7), vsub(z, s), Rm)
        return normq(c, s2, P2, 3)

    def pkfp(c, x, o):
        v, s, P_, n = unpack(x, 0, 0)
        s2, P2 = upd_pose(c, s, P_, x[58:62], x[62:65], rows(x[65:101], 6, 6))
        return outf(c, o, s2, P2, 0)
    go("pkf_pose", lambda c: fdom(0, 0)(c) + pose(c) + sym(c, 6), pkfp, 57, KF + " addPoseMeasurement", "sign-aligned Kalman update, renormalised", samples=6)

    def pkf1(c, x, o):
        q, t = x[2:6], x[6:9]
        s2, P2 = upd_pose(c, t + q, eye(c, 7), q, t, rows(x[9:45], 6, 6))
        return outf(c, o, s2, P2, 0)
    go("pkf_first", lambda c: free(c, 2) + pose(c) + sym(c, 6), pkf1, 57, KF + " addPoseMeasurement (first)", "first measurement sets the pose", samples=4)

    def updr(c, s, P_, q, iR, sig):
        n = len(s)
        H_ = eye(c, n)[iR:iR + 4]
        z = align(q, s[iR:iR + 4])
        s2, P2 = kalman(c, s, P_, H_, vsub(z, s[iR:iR + 4]), [[sig * v for v in r] for r in eye(c, 4)])
        return normq(c, s2, P2, iR)

    def pkfr(c, x, o):
        v, s, P_, n = unpack(x, 0, 1)
        s2, P2 = updr(c, s, P_, x[113:117], 3, K(c, 0.004))
        return outf(c, o, s2, P2, 0)
    go("pkf_rot", lambda c: fdom(0, 1)(c) + unitq(c), pkfr, 111, KF + " addRotationMeasurement", "sign-aligned Kalman update, renormalised", samples=6, gate=gate_stable)

    def pkfru(c, x, o):
        v, s, P_, n = unpack(x, 0, 1)
        s2, P2 = updr(c, s, P_, x[113:117], 3, K(c, 0.004))
        return outf(c, o, s2[:7] + [c.N(0)] * 3, P2, 0)
    go("pkf_rot", lambda c: fdom(0, 1)(c) + unitq(c), pkfru, 111, KF + " normalize (velocity limit exceeded)", "implausible angular velocity is reset", samples=4, gate=gate_unstable)

    def pkfr1(c, x, o):
        q = x[3:7]
        s2, P2 = updr(c, [c.N(0)] * 3 + q + [c.N(0)] * 3, eye(c, 10), q, 3, K(c, 0.004))
        return outf(c, o, s2, P2, 0)
    go("pkf_rotfirst", lambda c: free(c, 3) + unitq(c), pkfr1, 111, KF + " addRotationMeasurement (first)", "first measurement sets the orientation", samples=4, gate=gate_stable)

    def pkfv(c, x, o):
        v, s, P_, n = unpack(x, 0, 1)
        sg = K(c, 1e-11)
        s2, P2 = kalman(c, s, P_, eye(c, 10)[7:10], vsub(x[113:116], s[7:10]), [[sg * v for v in r] for r in eye(c, 3)])
        s2, P2 = normq(c, s2, P2, 3)
        return outf(c, o, s2, P2, 0)
    go("pkf_vel", lambda c: fdom(0, 1)(c) + free(c, 3), pkfv, 111, KF + " addRotationVelocityMeasurement", "Kalman update of the angular velocity", samples=4, gate=gate_stable)

    def pkfi(c, x, o):
        v, s, P_, n = unpack(x, 0, 1)
        f = lambda p: smul(-1, rot0(p[:4], p[4:7]))
        H_ = [[c.N(0)] * 3 + r for r in jac_of(c, f, s[3:10])]
        sg = K(c, 1e-11)
        s2, P2 = kalman(c, s, P_, H_, vsub(x[113:116], f(s[3:10])), [[sg * v for v in r] for r in eye(c, 3)])
        s2, P2 = normq(c, s2, P2, 3)
        return outf(c, o, s2, P2, 0)
    go("pkf_ivel", lambda c: fdom(0, 1)(c) + free(c, 3), pkfi, 111, KF + " addInverseRotationVelocityMeasurement", "Kalman update through -q v q*", samples=4, gate=gate_stable)

    def pkfv1(c, x, o):
        s = [c.N(0)] * 10
        s[6] = c.N(1)
        return eqv("state", o[:10], s) + eqm("cov", rows(o[10:110], 10, 10), eye(c, 10)) + [("time", o[111], c.N(0))]
    go("pkf_velfirst", lambda c: free(c, 6), pkfv1, 112, KF + " add*RotationVelocityMeasurement before start", "ignored until an absolute measurement arrives")

    # refusals
    from vlib import Graph
    u = C.unit(D)
    for nm, what in (("pkf_noinit", "prediction before the first measurement"), ("pkf_ioctor20", "inside-out filter with position order 2"), ("pkf_ioctor02", "inside-out filter with orientation order 2"), ("pkf_ioctor00", "inside-out filter with orientation order 0")):
        g = Graph(u, "vf_" + nm, 4, 1, lapack.LA().handlers())
        ok = g.status == "throw"
        if not ok:
            C.violate(nm, KF + ": %s is not refused with an exception" % what)
        C.nfun += 1
        C.note(entry=nm, anchor=KF, rule="refusal", ok=ok)

    # ---- rotation-only filter
    go("rkf_init", lambda c: free(c, 1), init(7, 3), 7 + 49 + 2, RK + " constructor", "identity rotation, unit covariance, not started")

    def rdom(c):
        return unitq(c) + vel(c) + sym(c, 7)

    def rot7(c, s, P_, dt):
        d = K(c, dt)
        v, F = rot_update(c, d, s, 1)
        P2 = prop(F, P_)
        for k in range(7):
            P2[k][k] = P2[k][k] + (K(c, 0.001) if k < 4 else c.N(4)) * d * d
        return v, P2
    for nm, dt in (("f", .5), ("b", -.25)):
        def rtu(c, x, o, dt=dt):
            s2, P2 = rot7(c, x[:7], rows(x[7:56], 7, 7), dt)
            return outf(c, o, s2, P2, dt)
        go("rkf_tu" + nm, rdom, rtu, 57, RK + " timeUpdate dt=%g" % dt, "prediction for the elapsed time")

        def rpr(c, x, o, dt=dt):
            s2, _ = rot7(c, x[:7], rows(x[7:56], 7, 7), dt)
            return eqv("rotation", o[:4], s2[:4]) + [("time", o[4], K(c, dt))] + [("unchanged." + l, a, b) for l, a, b in outf(c, o[5:], x[:7], rows(x[7:56], 7, 7), 0)]
        go("rkf_pr" + nm, rdom, rpr, 5 + 57, RK + " predict dt=%g" % dt, "prediction without changing the filter")

    def same(c, s, P_):
        """the rotation-only filter performs a zero-length time update on equal timestamps"""
        return s, P_

    def rkr(c, x, o):
        s2, P2 = updr(c, x[:7], rows(x[7:56], 7, 7), x[56:60], 0, K(c, 0.004))
        return outf(c, o, s2, P2, 0)
    go("rkf_rot", lambda c: rdom(c) + unitq(c), rkr, 57, RK + " addRotationMeasurement", "sign-aligned Kalman update, renormalised", samples=6, gate=gate_dt0)

    def rkr1(c, x, o):
        s2, P2 = updr(c, x[:4] + [c.N(0)] * 3, eye(c, 7), x[:4], 0, K(c, 0.004))
        return outf(c, o, s2, P2, 0)
    go("rkf_rotfirst", lambda c: unitq(c), rkr1, 57, RK + " addRotationMeasurement (first)", "first measurement sets the orientation", samples=4)

    def rkv(c, x, o):
        s, P_ = x[:7], rows(x[7:56], 7, 7)
        sg = K(c, 1e-5)
        s2, P2 = kalman(c, s, P_, eye(c, 7)[4:7], vsub(x[56:59], s[4:7]), [[sg * v for v in r] for r in eye(c, 3)])
        s2, P2 = normq(c, s2, P2, 0)
        return outf(c, o, s2, P2, 0)
    go("rkf_vel", lambda c: rdom(c) + free(c, 3), rkv, 57, RK + " addVelocityMeasurement", "Kalman update of the angular velocity", samples=4, gate=gate_dt0)

    def rkv1(c, x, o):
        sg = K(c, 1e-5)
        s, P_ = [c.N(0)] * 3 + [c.N(1)] + [c.N(0)] * 3, eye(c, 7)
        s2, P2 = kalman(c, s, P_, eye(c, 7)[4:7], vsub(x[:3], s[4:7]), [[sg * v for v in r] for r in eye(c, 3)])
        s2, P2 = normq(c, s2, P2, 0)
        return outf(c, o, s2, P2, 0)
    go("rkf_velfirst", lambda c: free(c, 3), rkv1, 57, RK + " addVelocityMeasurement (first)", "Kalman update of the angular velocity of the initial state", samples=4)


def gate_dt0(ctx, cn):
    """zero elapsed time: the rotation increment is exactly zero, so its norm is on the tiny side of every threshold"""
    if cn.op == "flt":
        a, b = cn.args
        for x, tiny_first in ((a, True), (b, False)):
            if x.op == "const" and 0 < x.args[0] <= 2e-3:
                other = b if tiny_first else a
                z = ctx.ev(other).v == 0
                return (not z) if tiny_first else z
    return gate_generic(ctx, cn)
