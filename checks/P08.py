"""Geometric primitives: transforming and projecting points, point normalisation, conics and quadrics equal their
matrix definitions."""
from vlib import *
from alg import *
from checks_common import *
from checks.P06 import minv
import fp
FLOOR = 30
D = "d_geo.cpp"


def fr(n):
    return lambda c: free(c, n)


def H(v, M, N, K):
    """homogeneous coordinates of a K-vector for an M x N transformation (2D points lie in the plane z = 0)"""
    one, z = v[0] * 0 + 1, v[0] * 0
    v = list(v)
    if K == N:
        return v
    if K == N - 1:
        return v + [one]
    return v + [z, one]


def cm(x):
    h = x[0] * 0 + 1
    h = h / 2
    return [[x[0], x[1] * h, x[3] * h], [x[1] * h, x[2], x[4] * h], [x[3] * h, x[4] * h, x[5]]]


def cv(m):
    return [m[0][0], m[0][1] + m[1][0], m[1][1], m[0][2] + m[2][0], m[1][2] + m[2][1], m[2][2]]


def ellipse(c, pos_scale=True):
    """positive-definite conic with known centre, semi axes p > q, and orientation"""
    t = c.var()
    cs, sn = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    q, d = c.var() ** 2, c.var() ** 2
    p = q + d
    if not fp.is_qr((p + q).v) or not fp.is_qr(p.v):
        raise Resample()
    x0, y0 = c.var(), c.var()
    k = c.var() ** 2
    Rm = [[cs, -sn], [sn, cs]]
    A = mm(mm(Rm, [[k / (p * p), c.N(0)], [c.N(0), k / (q * q)]]), tr(Rm))
    b = mv(A, [x0, y0])
    f = x0 * b[0] + y0 * b[1] - k
    c.ell = dict(p=p, q=q, x0=x0, y0=y0, cs=cs, sn=sn, k=k)
    return [A[0][0], 2 * A[0][1], A[1][1], -2 * b[0], -2 * b[1], f]


def lt(c, a, b):
    """1 iff a < b in the value order"""
    d = (b - a).v
    return c.N(1 if d and fp.is_qr(d) else 0)


def run(C):
    C.preload(D)
    G = "src/utMath/Geometry/"
    for M, N, K in ((2, 3, 2), (2, 3, 3), (3, 3, 2), (3, 3, 3), (3, 4, 2), (3, 4, 3), (3, 4, 4), (4, 4, 2), (4, 4, 3), (4, 4, 4)):
        C.equal(D, "vf_tp%d%d%d" % (M, N, K), fr(M * N + K), lambda c, x, o, M=M, N=N, K=K: mv(rows(x, M, N), H(x[M * N:], M, N, K)), M, G + "PointTransformation.h", "matrix times point")
    for M, N, K in ((2, 3, 2), (3, 3, 2), (3, 4, 3), (3, 4, 4), (4, 4, 3), (4, 4, 4)):
        C.equal(D, "vf_tr%d%d%d" % (M, N, K), fr(M * N + 2 * K), lambda c, x, o, M=M, N=N, K=K: mv(rows(x, M, N), H(x[M * N:M * N + K], M, N, K)) + mv(rows(x, M, N), H(x[M * N + K:], M, N, K)),
                2 * M, G + "PointTransformation.h", "range of points, order kept")
    NM = 131
    for M, N, K in ((2, 3, 2), (3, 3, 2), (3, 4, 3), (3, 4, 4), (4, 4, 3), (4, 4, 4)):
        C.equal(D, "vf_trm%d%d%d" % (M, N, K), fr(M * N + NM * K), lambda c, x, o, M=M, N=N, K=K: flat([mv(rows(x, M, N), H(x[M * N + K * k:M * N + K * k + K], M, N, K)) for k in range(NM)]),
                NM * M, G + "PointTransformation.h", "long range of points", samples=2)
    for M, N, K in ((3, 3, 2), (3, 4, 2), (3, 4, 3), (3, 4, 4)):
        def many(c, x, o, M=M, N=N, K=K):
            r = []
            for q in range(NM):
                h = mv(rows(x, M, N), H(x[M * N + K * q:M * N + K * q + K], M, N, K))
                r += [h[0] / h[2], h[1] / h[2]]
            return r
        C.equal(D, "vf_ppm%d%d%d" % (M, N, K), fr(M * N + NM * K), many, 2 * NM, G + "PointProjection.h", "long range of points", samples=2)
    C.equal(D, "vf_trback", fr(18), lambda c, x, o: mv(rows(x, 3, 4), x[12:15] + [c.N(1)]) + mv(rows(x, 3, 4), x[15:18] + [c.N(1)]) + [c.N(2)], 7, G + "PointTransformation.h", "range of points, order kept")
    for M, N, K in ((3, 3, 2), (3, 4, 2), (3, 4, 3), (3, 4, 4)):
        def spec(c, x, o, M=M, N=N, K=K):
            r = []
            for q in range(2):
                h = mv(rows(x, M, N), H(x[M * N + K * q:M * N + K * q + K], M, N, K))
                r.append([h[0] / h[2], h[1] / h[2]])
            return r[0] + r[0] + r[0] + r[1]
        C.equal(D, "vf_pp%d%d%d" % (M, N, K), fr(M * N + 2 * K), spec, 8, G + "PointProjection.h", "perspective projection")

    # normalisation: mean and standard deviation; forward and inverse matrices
    for n, m in ((2, 4), (3, 3), (2, NM), (3, NM)):
        def spec(c, x, o, n=n, m=m):
            mu = [sum((x[n * k + j] for k in range(m)), c.N(0)) / m for j in range(n)]
            var = [sum(((x[n * k + j] - mu[j]) ** 2 for k in range(m)), c.N(0)) / m for j in range(n)]
            return mu + [c.sqrt(v) for v in var]
        C.equal(D, "vf_norm%d%s" % (n, "m" if m == NM else ""), fr(n * m), spec, 2 * n, G + "PointNormalization.h", "mean and standard deviation")

        def spec(c, x, o, n=n):
            sh, sc = x[:n], x[n:]
            f = [[c.N(0)] * (n + 1) for _ in range(n + 1)]
            for k in range(n):
                f[k] = [c.N(0)] * (n + 1)
                f[k][k] = 1 / sc[k]
                f[k][n] = -sh[k] / sc[k]
            f[n] = [c.N(0)] * n + [c.N(1)]
            return flat(f) + flat(minv(c, f))
        C.equal(D, "vf_nmat%d" % n, fr(2 * n), spec, 2 * (n + 1) ** 2, G + "PointNormalization.h", "normalisation matrix and its inverse")

    # conics
    A = G + "Conic.h"
    C.equal(D, "vf_c_mat", fr(6), lambda c, x, o: flat(cm(x)), 9, A, "matrix form")
    C.equal(D, "vf_c_from", fr(9), lambda c, x, o: cv(rows(x, 3, 3)), 6, A, "vector form")
    C.equal(D, "vf_c_inv", fr(6), lambda c, x, o: cv(minv(c, cm(x))), 6, A, "dual conic is the inverse matrix")
    C.equal(D, "vf_c_det", fr(6), lambda c, x, o: [det(cm(x))], 1, A, "determinant")

    def angle(c, x, o):
        s, co = c.sin(o[0]), c.cos(o[0])
        a, b, cc = x[:3]
        b1 = 2 * s * co * (cc - a) + b * (co * co - s * s)
        a1 = a * co * co + b * s * co + cc * s * s
        c1 = a * s * s - b * s * co + cc * co * co
        return [("diagonalises", b1, c.N(0)), ("first axis is the long one", lt(c, a1, c1), c.N(1))]
    C.equal(D, "vf_c_angle", fr(6), angle, 1, A, "rotation to principal axes", gate=None)
    C.equal(D, "vf_c_axes", ellipse, lambda c, x, o: [c.ell["p"], c.ell["q"]], 2, A, "semi axes of an ellipse", gate=None)
    C.equal(D, "vf_c_area", ellipse, lambda c, x, o: [c.pi * c.ell["p"] * c.ell["q"]], 1, A, "area of an ellipse", gate=None)
    C.equal(D, "vf_c_center", ellipse, lambda c, x, o: [c.ell["x0"], c.ell["y0"]], 2, A, "centre of an ellipse", gate=None)

    def para(c):
        a, b = c.var(), c.var()
        return [a * a, 2 * a * b, b * b, c.var(), c.var(), c.var()]
    C.raises(D, "vf_c_center", para, 2, A, "a parabola has no centre")

    def ecc(c):
        x = ellipse(c)
        if not fp.is_qr((-det(cm(x))).v):
            raise Resample()
        return x
    C.equal(D, "vf_c_ecc", ecc, lambda c, x, o: [("e^2", o[0] * o[0], 1 - c.ell["q"] ** 2 / c.ell["p"] ** 2)], 1, A, "eccentricity of an ellipse", gate=None)

    def ecc2(c):
        return [-v for v in ecc(c)]
    C.equal(D, "vf_c_ecc", ecc2, lambda c, x, o: [("e^2", o[0] * o[0], 1 - c.ell["q"] ** 2 / c.ell["p"] ** 2)], 1, A, "eccentricity of an ellipse (negated form)", gate=None)

    def klass(c, x, o):
        disc = x[1] * x[1] - 4 * x[0] * x[2]
        return [lt(c, disc, c.N(0)), lt(c, c.N(0), disc)]
    C.equal(D, "vf_c_class", fr(6), klass, 2, A, "sign of b^2-4ac", gate=None, samples=8)
    C.equal(D, "vf_c_par", fr(7), lambda c, x, o: [lt(c, c.fabs(x[1] * x[1] - 4 * x[0] * x[2]), x[6]), lt(c, c.fabs(det(cm(x))), x[6])], 2, A, "threshold on b^2-4ac and determinant", gate=None, samples=8)

    def circ(c, x, o):
        y = lambda a: 1 - lt(c, x[6], c.fabs(a)).v
        disc = x[1] * x[1] - 4 * x[0] * x[2]
        return [c.N(1 if y(x[1]) and y(x[0] - x[2]) and lt(c, disc, c.N(0)).v else 0)]
    C.equal(D, "vf_c_circ", fr(7), circ, 1, A, "circle test", gate=None, samples=16)

    def tform(M_inv):
        """conic of the points M x for x on the conic: M^-T C M^-1"""
        def spec(c, x, o):
            Mi = M_inv(c, x)
            return cv(mm(mm(tr(Mi), cm(x)), Mi))
        return spec

    def sc(c, x, s1, s2):
        z = c.N(0)
        return [[1 / s1, z, z], [z, 1 / s2, z], [z, z, c.N(1)]]
    C.equal(D, "vf_c_scale", fr(8), lambda c, x, o: tform(lambda c, x: sc(c, x, x[6], x[7]))(c, x, o) + tform(lambda c, x: sc(c, x, x[6], x[6]))(c, x, o), 12, A, "scaling moves the points of the conic")
    C.equal(D, "vf_c_trans", fr(8), tform(lambda c, x: [[c.N(1), c.N(0), -x[6]], [c.N(0), c.N(1), -x[7]], [c.N(0), c.N(0), c.N(1)]]), 6, A, "translation moves the points of the conic")
    C.equal(D, "vf_c_flip", fr(7), tform(lambda c, x: [[c.N(1), c.N(0), c.N(0)], [c.N(0), c.N(-1), x[6] - 1], [c.N(0), c.N(0), c.N(1)]]), 6, A, "flip maps y to height-1-y")

    def pix(c, x, o):
        p = [x[6], x[7], c.N(1)]
        return [dot(p, mv(cm(x), p))]
    C.equal(D, "vf_c_pixel", fr(8), pix, 1, A, "algebraic distance x^T C x")

    def limit(i, j):
        def spec(c, x, o):
            m = cm(x)
            # in coordinate i the line coordinate_i = v is tangent: discriminant of the quadratic in j vanishes
            a, b, d, e, f, cc = m[j][j], m[0][1], m[j][2], m[i][2], m[2][2], m[i][i]
            A2, A1, A0 = b * b - a * cc, 2 * (b * d - a * e), d * d - a * f
            return [("sum", o[0] + o[1], -A1 / A2), ("product", o[0] * o[1], A0 / A2), ("ascending", lt(c, o[0], o[1]), c.N(1))]
        return spec
    C.equal(D, "vf_c_ul", ellipse, limit(1, 0), 2, A, "horizontal tangents", gate=None)
    C.equal(D, "vf_c_lr", ellipse, limit(0, 1), 2, A, "vertical tangents", gate=None)

    def hdom(c):
        x = ellipse(c)
        x0 = c.var()
        m = cm(x)
        # choose y so that the line meets the conic: through a rational point of it
        y = c.var()
        b = m[0][1] * y + m[0][2]
        cc = m[1][1] * y * y + 2 * m[1][2] * y + m[2][2]
        if not fp.is_qr((b * b - m[0][0] * cc).v):
            raise Resample()
        return x + [y]

    def hspec(c, x, o):
        m = cm(x)
        y = x[6]
        b = m[0][1] * y + m[0][2]
        cc = m[1][1] * y * y + 2 * m[1][2] * y + m[2][2]
        return [("sum", o[0] + o[1], -2 * b / m[0][0]), ("product", o[0] * o[1], cc / m[0][0]), ("ascending", lt(c, o[0], o[1]), c.N(1))]
    C.equal(D, "vf_c_hi", hdom, hspec, 2, A, "intersection with a scan line", gate=None)

    # quadrics
    Qh = G + "QuadricFunctors.h"

    def qm(v):
        a, b, cc, f, g, h, p, q, r, d = v
        return [[a, f, g, p], [f, b, h, q], [g, h, cc, r], [p, q, r, d]]

    def outline(c, Pm, Q):
        return cv(minv(c, mm(mm(Pm, Q), tr(Pm))))
    C.equal(D, "vf_q_proj", fr(22), lambda c, x, o: outline(c, rows(x, 3, 4), qm(x[12:])), 6, Qh, "outline of a dual quadric")

    def dualell(c, e):
        a, b, cc, p, q, r = e
        z = c.N(0)
        Dg = [[a * a, z, z, z], [z, b * b, z, z], [z, z, cc * cc, z], [z, z, z, c.N(-1)]]
        T = [[c.N(1), z, z, p], [z, c.N(1), z, q], [z, z, c.N(1), r], [z, z, z, c.N(1)]]
        return mm(mm(T, Dg), tr(T))

    def sq(c, x, o):
        m = dualell(c, x)
        return [m[0][0], m[1][1], m[2][2], m[0][1], m[0][2], m[1][2], m[0][3], m[1][3], m[2][3], m[3][3]]
    C.equal(D, "vf_q_ell", fr(6), sq, 10, Qh, "dual quadric of an ellipsoid")
    C.equal(D, "vf_q_pell", fr(18), lambda c, x, o: outline(c, rows(x, 3, 4), dualell(c, x[12:])), 6, Qh, "outline of an ellipsoid")
    C.equal(D, "vf_q_psph", fr(16), lambda c, x, o: outline(c, rows(x, 3, 4), dualell(c, [x[12], x[12], x[13], x[14], x[15], x[13]])), 6, Qh, "outline of a spheroid standing on the ground plane")
