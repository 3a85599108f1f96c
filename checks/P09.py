"""Camera lens model: distortion, its inverse, projection with distortion, and the consistency of camera intrinsics."""
from vlib import *
from alg import *
from checks_common import *
import fp
FLOOR = 26
D = "d_cam.cpp"


def dist(k, p, x, y):
    r2 = x * x + y * y
    f = (1 + k[0] * r2 + k[1] * r2 ** 2 + k[2] * r2 ** 3) / (1 + k[3] * r2 + k[4] * r2 ** 2 + k[5] * r2 ** 3)
    return [x * f + 2 * p[0] * x * y + p[1] * (r2 + 2 * x * x), y * f + 2 * p[1] * x * y + p[0] * (r2 + 2 * y * y)]


def proj(K, q):
    """pixel of the sensor point q: K (x, y, K22) with K22 = +-1"""
    return [K[0] * q[0] + K[1] * q[1] + K[2] * K[5], K[3] * q[1] + K[4] * K[5]]


def unproj(K, p):
    y = (p[1] - K[4] * K[5]) / K[3]
    return [(p[0] - K[1] * y - K[2] * K[5]) / K[0], y]


def run(C):
    C.preload(D)
    A, L, I = "src/utAlgorithm/CameraLens/", "src/utAlgorithm/LensDistortion.cpp", "src/utMath/CameraIntrinsics.h"
    for s in (1, -1):
        sg = ", K22=%+d" % s

        def kdom(c, s=s):
            return free(c, 5) + [c.N(s)]

        def dom(c, n, kdom=kdom):
            return kdom(c) + free(c, 8) + free(c, 2 * n)
        for t in ("d", "f"):
            one = lambda c, x, o: proj(x[:6], dist(x[6:12], x[12:14], *unproj(x[:6], x[14:16])))
            two = lambda c, x, o: one(c, x, o) + proj(x[:6], dist(x[6:12], x[12:14], *unproj(x[:6], x[16:18])))
            C.equal(D, "vf_dist_" + t, lambda c: dom(c, 1), one, 2, A + "Distortion.h", "lens distortion formula in pixel coordinates" + sg)
            C.equal(D, "vf_distalias_" + t, lambda c: dom(c, 1), one, 2, A + "Distortion.h", "in-place distortion" + sg)
            C.equal(D, "vf_distm_" + t, lambda c: dom(c, 131), lambda c, x, o: flat([proj(x[:6], dist(x[6:12], x[12:14], *unproj(x[:6], x[14 + 2 * k:16 + 2 * k]))) for k in range(131)]), 262, A + "Distortion.h", "distortion of a long list" + sg, samples=2)
            C.equal(D, "vf_distv_" + t, lambda c: dom(c, 2), two, 4, A + "Distortion.h", "distortion of a list, order kept" + sg)

            def ud(c, n, kdom=kdom):
                K, kp, sol = kdom(c), free(c, 8), free(c, 2 * n)
                pts = []
                for j in range(n):
                    pts += proj(K, dist(kp[:6], kp[6:], sol[2 * j], sol[2 * j + 1]))
                return K + kp + pts + sol

            def us(c, x, o, n):
                sol = x[14 + 2 * n:]
                r = []
                for j in range(n):
                    r += proj(x[:6], sol[2 * j:2 * j + 2])
                return r + [c.N(0)] * (2 * n)
            C.equal(D, "vf_undist_" + t, lambda c: ud(c, 1), lambda c, x, o: us(c, x, o, 1), 4, A + "Undistortion.h", "undistortion inverts distortion" + sg)
            C.equal(D, "vf_undalias_" + t, lambda c: ud(c, 1), lambda c, x, o: us(c, x, o, 1), 4, A + "Undistortion.h", "in-place undistortion" + sg)
            C.equal(D, "vf_undistm_" + t, lambda c: ud(c, 40), lambda c, x, o: us(c, x, o, 40), 160, A + "Undistortion.h", "undistortion of a long list" + sg, samples=2)
            C.equal(D, "vf_undistv_" + t, lambda c: ud(c, 2), lambda c, x, o: us(c, x, o, 2), 8, A + "Undistortion.h", "undistortion of a list, order kept" + sg)

            # old interface: coefficients (k1, k2, p1, p2)
            k4 = lambda c, k: (k[:2] + [c.N(0)] * 4, k[2:4])

            def ld(c, x, o):
                k, p = k4(c, x[6:10])
                return proj(x[:6], dist(k, p, *unproj(x[:6], x[10:12])))
            C.equal(D, "vf_ld_" + t, lambda c, kdom=kdom: kdom(c) + free(c, 6), ld, 2, L, "lens distortion formula in pixel coordinates" + sg)

            def lud(c, kdom=kdom):
                K, kk, sol = kdom(c), free(c, 4), free(c, 2)
                k, p = k4(c, kk)
                return K + kk + proj(K, dist(k, p, *sol)) + sol
            C.equal(D, "vf_lud_" + t, lud, lambda c, x, o: proj(x[:6], x[12:14]) + [c.N(0)] * 2, 4, L, "undistortion inverts distortion" + sg)

            def pwd(c, x, o):
                k, p = k4(c, x[6:10])
                q = dist(k, p, x[10] / x[12], x[11] / x[12])
                return [(x[0] * q[0] + x[1] * q[1] + x[2]) / x[5], (x[3] * q[1] + x[4]) / x[5]]
            C.equal(D, "vf_pwd_" + t, lambda c, kdom=kdom: kdom(c) + free(c, 7), pwd, 2, L, "projection with distortion" + sg)
            if s == -1:
                def gd(c):
                    x = free(c, 5) + [c.N(-1)]
                    x[1] = c.N(0)
                    return x + free(c, 12)

                def gs(c, x, o):
                    a = lambda q: proj(x[:6], dist(x[6:12], x[12:14], *unproj(x[:6], q)))
                    return a(x[14:16]) + a(x[14:16]) + a(x[16:18])
                C.equal(D, "vf_gpu_" + t, gd, gs, 6, "src/utMath/Geometry/PointUndistortion.h", "lens model of the point functor (right-handed intrinsics)")

    # intrinsics: type, sizes and parameters of every constructor
    def Km(c, x):
        z = c.N(0)
        return [x[0], x[1], x[2], z, x[3], x[4], z, z, x[5]]
    dims = lambda c: [c.N(640), c.N(480)]
    for t in ("d", "f"):
        D14 = lambda c: free(c, 14)
        C.equal(D, "vf_ci0_" + t, lambda c: free(c, 1), lambda c, x, o: [c.N(0)] * 3 + flat(eye(c, 3)) + [c.N(0)] * 9, 21, I, "default intrinsics")
        for n, ty in ((2, 1), (3, 2), (6, 3), (4, 4)):
            def spec(c, x, o, n=n, ty=ty):
                tan = x[12:14] if n != 4 else [c.N(0)] * 2
                return [c.N(ty)] + dims(c) + Km(c, x) + [c.N(n)] + x[6:6 + n] + [c.N(0)] * (6 - n) + tan
            C.equal(D, "vf_ci%d_%s" % (n, t), D14, spec, 21, I, "constructor with %d radial parameters" % n)
            C.equal(D, "vf_cig%d_%s" % (n, t), D14, lambda c, x, o, n=n, ty=ty: [c.N(ty), c.N(640), c.N(480)] + Km(c, x) + [c.N(n)] + x[6:12] + x[12:14], 21, I, "general constructor with %d radial parameters" % n)
        C.equal(D, "vf_cias_" + t, D14, lambda c, x, o: [c.N(3)] + dims(c) + Km(c, x) + [c.N(6)] + x[6:14], 21, I, "assignment copies every member")
        C.equal(D, "vf_tab_" + t, lambda c: free(c, 1), lambda c, x, o: [c.N(v) for v in (0, 0, 2, 2, 3, 2, 6, 2, 4, 0)], 10, I, "number of parameters per calibration type")

    def ang(c, x, o):
        h = c.pi / 360
        r = []
        for k, t2 in enumerate(((640 / (2 * x[0])) ** 2, (480 / (2 * x[3])) ** 2, (640 / (2 * x[0])) ** 2 + (480 / (2 * x[3])) ** 2)):
            a = o[k] * h
            r.append(("tan^2 of half the angle %d" % k, c.sin(a) ** 2, t2 * c.cos(a) ** 2))
        return r
    C.equal(D, "vf_ang", lambda c: free(c, 14), ang, 3, I, "opening angles")

    def flip(c, x, o):
        m = Km(c, x)
        for k in (2, 5, 8):
            m[k] = -m[k]
        return [c.N(1)] + dims(c) + m + [c.N(2)] + x[6:8] + [c.N(0)] * 4 + x[12:14]
    C.equal(D, "vf_flip", lambda c: free(c, 14), flip, 21, I, "handedness flip negates the last column")
