"""Uncertainty follows value: the covariance attached to every pose operation is J C J^T, where J is the exact
derivative of that operation in the documented error model  x' = q e_r x e_r* q* + t + e_t.  The derivative is taken by
dual numbers on the specification side and compared with the value graph of the hand-written Jacobians."""
from alg import *
import fp
from fp import N
from vlib import gate_generic
D = "d_err.cpp"
EC = "src/utMath/ErrorPose.cpp"
CT = "src/utMath/Stochastic/CovarianceTransform.h"
AV = "src/utMath/Stochastic/Average.h"
FLOOR = 14


def noisy(c, p, k):
    """pose p (qx..qw,tx..tz) with the six error parameters number k..k+5 as dual directions"""
    def e(j):
        d = [0] * c.nd
        d[k + j] = 1
        return N(0, d, c)
    er = [e(3), e(4), e(5), N(1, None, c)]
    return qmul(p[:4], er) + [p[4 + j] + e(j) for j in range(3)]


def errs(c, nom, noi):
    """error six-vector of a noisy pose relative to its nominal value"""
    d = qmul(qconj(nom[:4]), noi[:4])
    return [noi[4 + j] - nom[4 + j] for j in range(3)] + d[:3]


def J(c, vals):
    return [[N(v.d[k] if v.d else 0, None, c) for k in range(c.nd)] for v in vals]


def strip(c, x):
    return [N(v.v, None, c) for v in x]


def pm(p, q):
    """pose product on (q,t) lists"""
    return qmul(p[:4], q[:4]) + vadd(qrot(p[:4], q[4:7]), p[4:7])


def pi(p):
    r = qconj(p[:4])
    return r + smul(-1, qrot(r, p[4:7]))


def cov(x):
    return rows(x, 6, 6)


def prop(Jm, C):
    return mm(mm(Jm, C), tr(Jm))


def sym(c, n):
    m = [[None] * n for _ in range(n)]
    for a in range(n):
        for b in range(a, n):
            m[a][b] = m[b][a] = c.var()
    return flat(m)


def blk(C1, C2):
    z = C1[0][0] - C1[0][0]
    n, m = len(C1), len(C2)
    return [C1[i] + [z] * m for i in range(n)] + [[z] * n + C2[i] for i in range(m)]


def groups(x, n):
    return [x[k:k + n] for k in range(0, len(x), n)]


def run(C):
    ep = lambda c: pose(c) + sym(c, 6)
    C.equal(D, "vf_ep_ctor", lambda c: free(c, 43), lambda c, x, o: x + x, 86, "src/utMath/ErrorPose.h constructors", "field-order")

    def unary(c, x, o, f, xo=None):
        p = x[:7]
        nom = f(p)
        noi = f(noisy(c, p, 0))
        Jm = J(c, errs(c, nom, noi))
        return eqv("value", o[:7], nom) + eqm("cov", cov(o[7:43]), prop(Jm, cov(x[7:43])))
    C.equal(D, "vf_ep_inv", ep, lambda c, x, o: unary(c, x, o, pi), 43, EC + " operator~ / inversionJacobian", "J C J^T inversion", nd=6)

    def bi(f):
        def spec(c, x, o):
            p, q = x[:7], x[43:50]
            nom = f(p, q)
            noi = f(noisy(c, p, 0), noisy(c, q, 6))
            Jm = J(c, errs(c, nom, noi))
            return eqv("value", o[:7], nom) + eqm("cov", cov(o[7:43]), prop(Jm, blk(cov(x[7:43]), cov(x[50:86]))))
        return spec
    C.equal(D, "vf_ep_mul", lambda c: ep(c) + ep(c), bi(pm), 43, EC + " operator*(ErrorPose,ErrorPose)", "J C J^T product", nd=12)
    C.equal(D, "vf_ep_invmul", lambda c: ep(c) + ep(c), bi(lambda p, q: pm(pi(p), q)), 43, EC + " invertMultiply", "J C J^T inverse product", nd=12)

    def mulp(c, x, o):
        p, q = x[:7], x[43:50]
        nom = pm(p, q)
        Jm = J(c, errs(c, nom, pm(noisy(c, p, 0), q)))
        return eqv("value", o[:7], nom) + eqm("cov", cov(o[7:43]), prop(Jm, cov(x[7:43])))
    C.equal(D, "vf_ep_mulp", lambda c: ep(c) + pose(c), mulp, 43, EC + " operator*(ErrorPose,Pose)", "J C J^T product", nd=6)

    def pmul(c, x, o):
        p, q = x[:7], x[7:14]
        nom = pm(p, q)
        Jm = J(c, errs(c, nom, pm(p, noisy(c, q, 0))))
        return eqv("value", o[:7], nom) + eqm("cov", cov(o[7:43]), prop(Jm, cov(x[14:50])))
    C.equal(D, "vf_ep_pmul", lambda c: pose(c) + ep(c), pmul, 43, EC + " operator*(Pose,ErrorPose)", "J C J^T product", nd=6)

    def vec(c, x, o):
        p, v = x[:7], x[43:46]
        nom = papply(p, v)
        Jm = J(c, vsub(papply(noisy(c, p, 0), v), nom))
        return eqv("value", o[:3], nom) + eqm("cov", rows(o[3:12], 3, 3), prop(Jm, cov(x[7:43])))
    C.equal(D, "vf_ep_vec", lambda c: ep(c) + free(c, 3), vec, 12, EC + " operator*(ErrorPose,Vector)", "J C J^T transform point", nd=6)

    def evec(c, x, o):
        p, v = x[:7], x[43:46]
        nom = papply(p, v)
        nv = []
        for k in range(3):
            d = [0] * 9
            d[6 + k] = 1
            nv.append(N(v[k].v, d, c))
        Jm = J(c, vsub(papply(noisy(c, p, 0), nv), nom))
        return eqv("value", o[:3], nom) + eqm("cov", rows(o[3:12], 3, 3), prop(Jm, blk(cov(x[7:43]), rows(x[46:55], 3, 3))))
    C.equal(D, "vf_ep_evec", lambda c: ep(c) + free(c, 3) + sym(c, 3), evec, 12, EC + " operator*(ErrorPose,ErrorVector)", "J C J^T transform uncertain point", nd=9)

    # additive <-> multiplicative
    def L(q):
        x, y, z, w = q
        return [[w, -z, y, x], [z, w, -x, y], [-y, x, w, z], [-x, -y, -z, w]]

    def big(c, L4):
        z = c.N(0)
        e = eye(c, 3)
        return [e[i] + [z] * 4 for i in range(3)] + [[z] * 3 + L4[i] for i in range(4)]

    def toadd(c, x, o):
        C6 = cov(x[7:43])
        z = c.N(0)
        C7 = [C6[i] + [z] for i in range(6)] + [[z] * 6 + [C6[3][3] + C6[4][4] + C6[5][5]]]
        B = big(c, L(x[:4]))
        return eqv("value", o[:7], x[4:7] + x[:4]) + eqm("cov", rows(o[7:56], 7, 7), prop(B, C7))
    C.equal(D, "vf_ep_toadd", ep, toadd, 56, EC + " toAdditiveErrorVector", "q e = q + q*(e,0)")

    def fromadd(c, x, o):
        q = x[3:7]
        B = big(c, L(qconj(q)))
        C7 = prop(B, rows(x[7:56], 7, 7))
        return eqv("value", o[:7], q + x[:3]) + eqm("cov", cov(o[7:43]), [r[:6] for r in C7[:6]])
    C.equal(D, "vf_ep_fromadd", lambda c: (lambda p: p[4:7] + p[:4])(pose(c)) + sym(c, 7), fromadd, 43, EC + " fromAdditiveErrorVector", "e = q* dq")

    def lerp(c, x, o):
        return eqm("cov", cov(o[7:43]), [[(1 - x[86]) * (1 - x[86]) * a + x[86] * x[86] * b for a, b in zip(r, s)] for r, s in zip(cov(x[7:43]), cov(x[50:86]))])
    C.equal(D, "vf_ep_lerp", lambda c: ep(c) + ep(c) + [c.var()], lerp, 43, EC + " linearInterpolate", "cov of (1-t)a+tb")
    def rmsdom(c):
        c.free_sqrt = True
        return free(c, 12)
    C.equal(D, "vf_ev_rms", rmsdom, lambda c, x, o: [c.sqrt(x[3] + x[7] + x[11])], 1, "src/utMath/ErrorVector.h getRMS", "sqrt trace")

    # generic transforms
    def ctu(c, x, o):
        A = rows(x[:6], 2, 3)
        return eqv("value", o[:2], mv(A, x[6:9])) + eqm("cov", rows(o[2:6], 2, 2), prop(A, rows(x[9:18], 3, 3)))
    C.equal(D, "vf_ct_unary", lambda c: free(c, 9) + sym(c, 3), ctu, 6, CT + " transformWithCovariance", "J C J^T")

    def ctb(c, x, o):
        A, B = rows(x[:6], 2, 3), rows(x[6:10], 2, 2)
        v = vadd(mv(A, x[10:13]), mv(B, x[22:24]))
        S = prop(A, rows(x[13:22], 3, 3))
        T = prop(B, rows(x[24:28], 2, 2))
        return eqv("value", o[:2], v) + eqm("cov", rows(o[2:6], 2, 2), [vadd(a, b) for a, b in zip(S, T)])
    C.equal(D, "vf_ct_binary", lambda c: free(c, 13) + sym(c, 3) + free(c, 2) + sym(c, 2), ctb, 6, CT + " binarytransformWithCovariance", "J1 C1 J1^T + J2 C2 J2^T")
    for nm, (b, e, s, t) in {"01": (0, 1, 1, 4), "12": (1, 2, 1, 4), "23": (1, 3, 1, 4), "03": (0, 3, 0, 3), "34": (3, 4, 0, 3)}.items():
        def ctr(c, x, o, b=b, e=e, s=s, t=t):
            m, n = e - b, t - s
            A = rows(x[:m * n], m, n)
            F = eye(c, 4)
            for p in range(m):
                F[b + p] = [c.N(0)] * 4
                for q in range(n):
                    F[b + p][s + q] = A[p][q]
            return eqv("value", o[:4], mv(F, x[9:13])) + eqm("cov", rows(o[4:20], 4, 4), prop(F, rows(x[13:29], 4, 4)))
        C.equal(D, "vf_ct_range_" + nm, lambda c: free(c, 13) + sym(c, 4), ctr, 20, CT + " transformRangeInternalWithCovariance [%d,%d)<-[%d,%d)" % (b, e, s, t), "F C F^T of the embedded map")

    # averages
    third = lambda c: c.N(1) / 3
    C.equal(D, "vf_av_scalar", lambda c: free(c, 3), lambda c, x, o: [(x[0] + x[1] + x[2]) / 3], 1, AV, "mean")
    def hemi(q):
        return q if fp.is_qr(q[3].v) else smul(-1, q)

    def mean(vs):
        return [sum((v[k] for v in vs), vs[0][0] * 0) / len(vs) for k in range(len(vs[0]))]

    def second(vs, m):
        n = len(m)
        return [[sum((v[a] * v[b] for v in vs), m[0] * 0) / len(vs) - m[a] * m[b] for b in range(n)] for a in range(n)]

    def unit(c, s):
        n = c.sqrt(dot(s, s))
        return [a / n for a in s]
    for n in (3, 131):
        sx = "" if n == 3 else "131"
        C.equal(D, "vf_av_vec" + sx, lambda c, n=n: free(c, 3 * n), lambda c, x, o: mean(groups(x, 3)), 3, AV, "mean")

        def ave(c, x, o):
            m = mean(groups(x, 3))
            return eqv("mean", o[:3], m) + eqm("cov", rows(o[3:12], 3, 3), second(groups(x, 3), m))
        C.equal(D, "vf_av_evec" + sx, lambda c, n=n: free(c, 3 * n), ave, 12, AV + " Average<ErrorVector>", "population covariance")
    for n in (2, 41):
        sx = "" if n == 2 else "41"
        C.equal(D, "vf_av_quat" + sx, lambda c, n=n: flat([unitq(c) for _ in range(n)]), lambda c, x, o: unit(c, mean([hemi(q) for q in groups(x, 4)])), 4, AV + " Average<Quaternion>", "hemisphere mean, normalised", samples=8)

        def avp(c, x, o):
            ps = groups(x, 7)
            return unit(c, mean([hemi(p[:4]) for p in ps])) + mean([p[4:] for p in ps])
        C.equal(D, "vf_av_pose" + sx, lambda c, n=n: flat([pose(c) for _ in range(n)]), avp, 7, AV + " Average<Pose>", "hemisphere mean, normalised", samples=8)

        def avep(c, x, o):
            ps = [list(p[4:]) + list(hemi(p[:4])) for p in groups(x, 7)]
            mu = mean(ps)
            qm = unit(c, mu[3:])
            S = second(ps, mu[:3] + qm)
            B = big(c, L(qconj(qm)))
            C6 = [r[:6] for r in prop(B, S)[:6]]
            return eqv("mean", o[:7], qm + mu[:3]) + eqm("cov", cov(o[7:43]), C6)
        C.equal(D, "vf_av_epose" + sx, lambda c, n=n: flat([pose(c) for _ in range(n)]), avep, 43, AV + " Average<ErrorPose>", "covariance in the mean's frame", samples=6 if n == 2 else 2)
    C.equal(D, "vf_tv_quat", lambda c: free(c, 4), lambda c, x, o: x + x, 8, "src/utMath/Util/TypeToVector.h", "component-order")
    C.equal(D, "vf_tv_pose", lambda c: free(c, 7), lambda c, x, o: x[4:7] + x[:4], 7, "src/utMath/Util/TypeToVector.h", "component-order")
