"""Projection matrices: direct linear estimation, decomposition, OpenGL and off-axis projections, image origin."""
from vlib import *
from alg import *
from checks_common import *
from lapack import LA
import fp
FLOOR = 9
D = "d_proj.cpp"


def run(C):
    C.preload(D)
    A = "src/utAlgorithm/Projection.cpp"
    for n in (6, 8, 40):
        def dom(c, n=n):
            c.P = rows(free(c, 12), 3, 4)
            x = []
            for k in range(n):
                X = free(c, 3)
                h = mv(c.P, X + [c.N(1)])
                x += X + [h[0] / h[2], h[1] / h[2]]
            return x

        def spec(c, x, o):
            Pm = rows(o, 3, 4)
            r = []
            # proportional to the true matrix
            for i in range(12):
                r.append(("proportional %d" % i, o[i] * c.P[2][3], o[11] * c.P[i // 4][i % 4]))
            r.append(("viewing direction has length 1", dot(Pm[2][:3], Pm[2][:3]), c.N(1)))
            d = dot(Pm[2], x[:3] + [c.N(1)])
            r.append(("first point in front of the camera", c.N(1 if fp.is_qr(d.v) else 0), c.N(1)))
            return r
        for t in ("d", "f"):
            C.equal(D, "vf_dlt%d_%s" % (n, t), dom, spec, 12, A, "projection matrix from %d exact correspondences" % n, handlers=LA().handlers(), gate=None)

    def dec(c):
        z = c.N(0)
        K = [[c.var() ** 2, c.var(), c.var()], [z, c.var(), c.var()], [z, z, c.N(-1)]]
        Rm = R(unitq(c))
        t = [c.var(), c.var(), -c.var() ** 2]
        s = c.var()
        c.kn = flat(K) + flat(Rm) + t
        M = mm(K, [Rm[k] + [t[k]] for k in range(3)])
        return [s * v for v in flat(M)]
    for t in ("d", "f"):
        C.equal(D, "vf_dec_" + t, dec, lambda c, x, o: c.kn, 21, A, "decomposition of s K [R|t] for every scale s", handlers=LA().handlers(), gate=None, samples=8)

    def gl(c, x, Pm):
        l, r, b, tt, n, f = x[:6]
        nr = c.sqrt(dot(Pm[2][:3], Pm[2][:3]))
        w = Pm[2]
        z = c.N(0)
        X = [(2 * p - (r + l) * q) / (r - l) for p, q in zip(Pm[0], w)]
        Y = [(2 * p - (tt + b) * q) / (tt - b) for p, q in zip(Pm[1], w)]
        # near plane -> -1, far plane -> +1
        Z = [((f + n) * q) / (f - n) for q in w]
        Z[3] = Z[3] - 2 * f * n * nr / (f - n)
        return X + Y + Z + list(w)
    for t in ("d", "f"):
        C.equal(D, "vf_gl34_" + t, lambda c: free(c, 18), lambda c, x, o: gl(c, x, rows(x[6:], 3, 4)), 16, A, "OpenGL clip coordinates of a 3x4 projection")
        C.equal(D, "vf_gl33_" + t, lambda c: free(c, 15), lambda c, x, o: gl(c, x, [r + [c.N(0)] for r in rows(x[6:], 3, 3)]), 16, A, "OpenGL clip coordinates of a 3x3 intrinsics matrix")
        C.equal(D, "vf_co0_" + t, lambda c: free(c, 9), lambda c, x, o: x[:4] + [-x[4], 479 * x[8] - x[5]] + x[6:9], 9, A, "image row v becomes height-1-v")
        C.equal(D, "vf_co1_" + t, lambda c: free(c, 9), lambda c, x, o: x[:9], 9, A, "origin already at the bottom: unchanged")

    def off(c):
        Rm = R(unitq(c))
        eye, ll, sw, sh = free(c, 3), free(c, 3), c.var(), c.var()
        c.R = Rm
        ul = vadd(ll, smul(sh, [Rm[k][1] for k in range(3)]))
        lr = vadd(ll, smul(sw, [Rm[k][0] for k in range(3)]))
        return eye + ll + ul + lr + [c.var(), c.var(), sw, sh]

    def offs(c, x, o):
        M = rows(o, 4, 4)
        eye, ll, ul, lr = x[:3], x[3:6], x[6:9], x[9:12]
        n, f = x[12], x[13]
        Z = [c.R[k][2] for k in range(3)]
        one = [c.N(1)]
        r = []
        for nm, p, sx, sy in (("lower left", ll, -1, -1), ("upper left", ul, -1, 1), ("lower right", lr, 1, -1), ("upper right", vsub(vadd(ul, lr), ll), 1, 1)):
            h = mv(M, p + one)
            r += [(nm + " x", h[0], sx * h[3]), (nm + " y", h[1], sy * h[3]), (nm + " w", h[3], dot(vsub(eye, p), Z))]
        for nm, d, sz in (("near", n, -1), ("far", f, 1)):
            h = mv(M, vsub(eye, smul(d, Z)) + one)
            r += [(nm + " z", h[2], sz * h[3]), (nm + " w", h[3], d)]
        # the whole map is affine in the point: these points and the eye determine it
        h = mv(M, eye + one)
        r += [("eye x", h[0], c.N(0)), ("eye y", h[1], c.N(0)), ("eye w", h[3], c.N(0)), ("eye z", h[2], -2 * f * n / (f - n))]
        h = mv(M, vadd(eye, [c.R[k][0] for k in range(3)]) + one)
        r += [("z independent of x", h[2], -2 * f * n / (f - n))]
        h = mv(M, vadd(eye, [c.R[k][1] for k in range(3)]) + one)
        r += [("z independent of y", h[2], -2 * f * n / (f - n))]
        return r
    C.equal(D, "vf_offaxis", off, offs, 16, A, "off-axis projection maps the screen corners to the clip corners")
