"""Hand-eye calibration is exact on exact data; dual quaternion conversions."""
from vlib import *
from alg import *
from checks_common import *
from checks.P12 import mp, pflat
import lapack, fp
FLOOR = 7
D = "d_hec.cpp"
LA = lambda **k: lapack.LA(**k).handlers()


def pmul(a, b):
    return qmul(a[:4], b[:4]) + vadd(qrot(a[:4], b[4:]), a[4:])


def pinv(a):
    q = qconj(a[:4])
    return q + [-v for v in qrot(q, a[4:])]


def hand_eye(c, n):
    """hand_i * X * eye_i is the same for all i"""
    X, W = pose(c), pose(c)
    c.X = X
    hand = [pose(c) for _ in range(n)]
    eye_ = [pmul(pinv(X), pmul(pinv(h), W)) for h in hand]
    return flat(hand), flat(eye_)


def dual(p):
    q, t = p[:4], p[4:]
    h = q[0] * 0 + 2
    qp = qmul([v / h for v in t] + [q[0] * 0], q)
    return [q[3], q[0], q[1], q[2], qp[3], qp[0], qp[1], qp[2]]


def run(C):
    C.preload(D)
    TL, DQ, DS = ["src/utAlgorithm/PoseEstimation6D6D/" + f for f in ("TsaiLenz.cpp", "DualQuaternion.cpp", "DataSelection.h")]

    def dom(n):
        def f(c):
            h, e = hand_eye(c, n)
            return h + e
        return f
    same = lambda c, x, o: mp(o, c.X[:4], c.X[4:])
    idp = lambda c, x, o: [c.N(0)] * 3 + [c.N(1)] + [c.N(0)] * 3
    for t in ("_d", "_f", "p"):
        nm = lambda s: "vf_tlp" + s if t == "p" else "vf_tl" + s + t
        C.equal(D, nm("3"), dom(3), same, 7, TL, "hand-eye (all pairs) from 3 exact pose pairs", handlers=LA(), gate=None, samples=3)
        C.equal(D, nm("12"), dom(12), same, 7, TL, "hand-eye (all pairs) from 12 exact pose pairs", handlers=LA(), gate=None, samples=1)
        C.equal(D, nm("40n"), dom(40), same, 7, TL, "hand-eye (neighbouring pairs) from 40 exact pose pairs", handlers=LA(), gate=None, samples=1)
        C.equal(D, nm("4n"), dom(4), same, 7, TL, "hand-eye (neighbouring pairs) from 4 exact pose pairs", handlers=LA(), gate=None, samples=3)
        C.equal(D, nm("2"), dom(2), idp, 7, TL, "too few poses: identity", handlers=LA(), gate=None)
        C.raises(D, nm("ne"), lambda c: flat([pose(c) for _ in range(8)]), 7, TL, "unequal list lengths are refused", handlers=LA())

    def domd(c):
        h, e = hand_eye(c, 3)
        # eye list plays the role of the moving list in forward direction: see the specification
        g = dual(c.X)
        z = c.N(0)
        b = [z] * 4 + g[:4]

        def hint(ctx, A):
            if len(A[0]) != 8:
                return None
            k1, k2, k3, k4 = free(ctx, 4)
            r6, r7 = vadd(smul(k1, g), smul(k2, b)), vadd(smul(k3, g), smul(k4, b))
            for r in A:
                if dot(r, g).v or dot(r, b).v:
                    return None
            rest = [free(ctx, 8) for _ in range(6)]
            # singular values: six above the rank threshold, two zero
            s = [v * v + ctx.N(1) / 100 for v in free(ctx, 6)] + [z, z]
            U = [[ctx.N(0)] * len(A) for _ in range(len(A))]
            return s, U, rest + [r6, r7]
        c.svd_hint = hint
        return h + e
    C.equal(D, "vf_dq3", domd, lambda c, x, o: [("success", o[0], c.N(1))] + mp(o[1:], c.X[:4], c.X[4:]), 8, DQ, "dual quaternion hand-eye from 3 exact pose pairs", handlers=LA(), gate=None, samples=4)
    C.equal(D, "vf_dqr", domd, lambda c, x, o: [("relative poses", o[0], c.N(3)), ("relative poses", o[1], c.N(3)), ("success", o[2], c.N(1))] + mp(o[3:], c.X[:4], c.X[4:]), 10, DQ, "dual quaternion hand-eye from relative poses", handlers=LA(), gate=None, samples=4)
    C.equal(D, "vf_dq3", domd, lambda c, x, o: [("failure", o[0], c.N(0))], 8, DQ, "failed decomposition is reported", handlers=LA(info=1), gate=None, samples=2)
    C.equal(D, "vf_pc8v", lambda c: pose(c), lambda c, x, o: dual(x), 8, DS, "pose to dual quaternion")
    C.equal(D, "vf_pc8", lambda c: pose(c), lambda c, x, o: list(x), 7, DS, "dual quaternion conversions are inverse")

    online(C)


def sgnw(c, q):
    """-1 if the real part is negative (in the order of the interpretation)"""
    return -1 if fp.is_qr((c.N(0) - q[3]).v) else 1


def skew(v):
    z = v[0] * 0
    return [[z, -v[2], v[1]], [v[2], z, -v[0]], [-v[1], v[0], z]]


def online(C):
    """rotation-only hand-eye calibration, one pair of relative rotations at a time"""
    from checks.P06 import kalman, normq, K
    from checks.P05 import rot0
    OR, RK = "src/utAlgorithm/OnlineRotHec.cpp", "src/utAlgorithm/RotationHecKalmanFilter.cpp"
    cI = lambda c, n, k: [[k * v for v in r] for r in eye(c, n)]
    C.equal(D, "vf_oh0", lambda c: [], lambda c, x, o: eqv("state", o[:3], [c.N(0)] * 3) + eqm("covariance", rows(o[3:12], 3, 3), cI(c, 3, c.N(1000000))) + eqv("rotation", o[12:], [c.N(0)] * 3 + [c.N(1)]), 16, OR, "online hand-eye starts with no knowledge")

    def exact(c):
        """a x = x b, b up to sign"""
        X, a = unitq(c), unitq(c)
        b = qmul(qmul(qconj(X), a), X)
        e = 1 if c.rng.random() < .5 else -1
        c.X = X
        return a, [e * v for v in b]

    def ohs(c, x, o):
        s, P_ = x[:3], rows(x[3:12], 3, 3)
        q, r = x[12:16], x[16:20]
        q, r = [v * sgnw(c, q) for v in q[:3]], [v * sgnw(c, r) for v in r[:3]]
        H_ = skew(vadd(q, r))
        s2, P2 = kalman(c, s, P_, H_, vsub(vsub(r, q), mv(H_, s)), eye(c, 3))
        return eqv("state", o[:3], s2) + eqm("covariance", rows(o[3:], 3, 3), P2)
    C.equal(D, "vf_oh1", lambda c: free(c, 3) + sym(c, 3) + unitq(c) + unitq(c), ohs, 12, OR, "Kalman update with the hand-eye equation (q + r) x p = r - q", handlers=LA(), samples=4)

    def ohx(c):
        a, b = exact(c)
        return [v / c.X[3] for v in c.X[:3]] + sym(c, 3) + a + b
    C.equal(D, "vf_oh1", ohx, lambda c, x, o: eqv("state", o[:3], x[:3]), 12, OR, "exact pairs leave the true rotation unchanged", handlers=LA(), samples=4)

    def ohr(c):
        X = unitq(c)
        c.X = X
        return [v / X[3] for v in X[:3]]
    C.equal(D, "vf_ohr", ohr, lambda c, x, o: eqm("rotation", R(o), R(c.X)) + [("unit length", dot(o, o), c.N(1))], 4, OR, "result is the unit quaternion of the state")
    C.equal(D, "vf_rh0", lambda c: [], lambda c, x, o: eqv("rotation", o[:4], [c.N(0)] * 3 + [c.N(1)]) + eqm("covariance", rows(o[4:], 4, 4), cI(c, 4, c.N(100))), 20, RK, "rotation filter starts at the identity")

    def res(a, b, p):
        return vsub(qmul(a, p), qmul(p, b))

    def rhs(c, x, o):
        s, P_ = x[:4], rows(x[4:20], 4, 4)
        a, b = x[20:24], x[24:28]
        if sgnw(c, a) != sgnw(c, b):
            b = [-v for v in b]
        E = eye(c, 4)
        H_ = tr([res(a, b, E[k]) for k in range(4)])
        s2, P2 = kalman(c, s, P_, H_, [-v for v in mv(H_, s)], cI(c, 4, K(c, 1e-2)))
        s3, P3 = normq(c, s2, P2, 0)
        return eqv("state", o[:4], s3) + eqm("covariance", rows(o[4:], 4, 4), [vadd(r, e) for r, e in zip(P3, cI(c, 4, K(c, 1e-12)))])
    C.equal(D, "vf_rh1", lambda c: unitq(c) + sym(c, 4) + unitq(c) + unitq(c), rhs, 20, RK, "Kalman update with the hand-eye equation a x - x b = 0, then normalisation", handlers=LA(), samples=4)

    def rhx(c):
        a, b = exact(c)
        return c.X + sym(c, 4) + a + b
    C.equal(D, "vf_rh1", rhx, lambda c, x, o: eqv("state", o[:4], x[:4]), 20, RK, "exact pairs leave the true rotation unchanged", handlers=LA(), samples=4)
