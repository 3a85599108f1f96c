"""Rigid poses form a group acting on points: composition, inversion, application, matrix and vector
conversions, interpolation end points.  Each operation's value graph is compared with homogeneous 4x4 algebra."""
from alg import *
import fp
from vlib import gate_generic, gate_small
D = "d_rot.cpp"
PC = "src/utMath/Pose.cpp"
PH = "src/utMath/Pose.h"
MH = "src/utMath/Matrix.h"
QC = "src/utMath/Quaternion.cpp"
FLOOR = 24


def outpose(o):
    return pmat(o[:7])


def run(C):
    C.equal(D, "vf_pmul", lambda c: pose(c) + pose(c),
            lambda c, x, o: eqm("P*Q", outpose(o), mm(pmat(x[:7]), pmat(x[7:]))) + eqv("rot", o[:4], qmul(x[:4], x[7:11])), 7, PC + " operator*(Pose)", "composition")
    C.equal(D, "vf_pinv", lambda c: pose(c), lambda c, x, o: eqm("~P*P", mm(outpose(o), pmat(x)), eye(c, 4)) + eqv("rot", o[:4], qconj(x[:4])), 7, PC + " operator~", "inverse")
    C.equal(D, "vf_pvec", lambda c: pose(c) + free(c, 3), lambda c, x, o: papply(x[:7], x[7:]), 3, PC + " operator*(Vector)", "apply")
    C.equal(D, "vf_pscale", lambda c: pose(c) + free(c, 1), lambda c, x, o: x[:4] + smul(x[7], x[4:7]), 7, PH + " scalePose", "scale")
    C.equal(D, "vf_ptovec", lambda c: free(c, 7), lambda c, x, o: x[4:7] + x[:4], 7, PH + " toVector", "component-order")
    C.equal(D, "vf_pfromvec", lambda c: free(c, 7), lambda c, x, o: x[3:7] + x[:3], 7, PH + " fromVector", "component-order")
    for f, n in (("vf_pfrommat44", 4), ("vf_pfrommat34", 3)):
        def dom(c, n=n):
            c.p = pose(c)
            return flat(pmat(c.p)[:n])
        C.equal(D, f, dom, lambda c, x, o: eqm("Pose(M)", outpose(o), pmat(c.p)), 7, PC + " Pose(Matrix)", "matrix->pose", samples=12)
    for f, n in (("vf_m44pose", 4), ("vf_m34pose", 3), ("vf_m44qt", 4), ("vf_m34qt", 3)):
        C.equal(D, f, lambda c: pose(c), lambda c, x, o, n=n: flat(pmat(x)[:n]), 4 * n, MH, "pose->matrix")
    S = [1, 1, -1, 1]
    C.equal(D, "vf_lhrh", lambda c: free(c, 16), lambda c, x, o: [x[4 * r + k] * (S[r] * S[k]) for r in range(4) for k in range(4)], 16, MH + " leftHandToRightHandMatrix", "handedness")
    C.equal(D, "vf_marr", lambda c: free(c, 12), lambda c, x, o: x, 12, MH + " Matrix(const T*)", "row-major-array")
    C.equal(D, "vf_mid", lambda c: free(c, 1), lambda c, x, o: [1, 0, 0, 0, 1, 0, 0, 0, 1] + [0] * 12 + [1, 0, 0, 1] + [0] * 6 + [x[0]] * 6, 37, MH + " identity/zeros/scalar", "constant-matrices")
    # equality: all seven components count
    C.equal(D, "vf_peq", lambda c: (lambda p: p + p)(free(c, 7)), lambda c, x, o: [1, 0], 2, PC + " operator==", "equality")
    for k in range(7):
        def dom(c, k=k):
            p = free(c, 7)
            q = list(p)
            q[k] = c.var()
            return p + q
        C.equal(D, "vf_peq", dom, lambda c, x, o: [0, 1], 2, PC + " operator== component %d" % k, "equality")
    # interpolation: slerp(a,b,t) = a * (a^-1 b)^t ; checked at t=0, t=1 on both hemispheres, and in between
    nogate = lambda far: (lambda ctx, c: slerp_gate(ctx, c, far))
    for far in (False, True):
        def dom(c, t):
            a = unitq(c)
            om = c.angle()
            s, co = c.sincos(om.v)
            if not fp.is_qr(s) or not fp.is_qr(co):
                raise fp.Resample("angle range")
            # b = a * (axis*sin, cos)
            ax = unit3(c)
            d = smul(fp.N(s, None, c), ax) + [fp.N(co, None, c)]
            b = qmul(a, d)
            c.a, c.ax, c.om = a, ax, om
            if far:
                a2 = smul(-1, a)
            else:
                a2 = a
            return a2 + b + [t(c)]
        def want(c, x, o):
            th = x[8] * c.om
            s, co = c.sin(th), c.cos(th)
            return qmul(c.a, smul(s, c.ax) + [co])
        for nm, t in (("t=0", lambda c: c.N(0)), ("t=1", lambda c: c.N(1)), ("t=1/2", lambda c: c.N(1) / 2), ("t=2", lambda c: c.N(2))):
            for f in ("vf_slerp", "vf_qlerp"):
                C.equal(D, f, lambda c, t=t: dom(c, t), want, 4, QC + " slerp", "slerp %s %s" % (nm, "far" if far else "near"), gate=nogate(far), samples=2)
        def domp(c):
            x = dom(c, lambda c: c.N(1) / 2)
            c.ta, c.tb = free(c, 3), free(c, 3)
            return x[:4] + c.ta + x[4:8] + c.tb + [x[8]]
        def wantp(c, x, o):
            return want(c, x[:4] + x[7:11] + [x[14]], None) + [a + x[14] * (b - a) for a, b in zip(c.ta, c.tb)]
        C.equal(D, "vf_plerp", domp, wantp, 7, PC + " linearInterpolate", "pose interpolation", gate=nogate(far))
    # small angle: linear blend, end points preserved
    for nm, t in (("t=0", 0), ("t=1", 1)):
        def dom(c, t=t):
            return unitq(c) + unitq(c) + [c.N(t)]
        C.equal(D, "vf_slerp", dom, lambda c, x, o, t=t: x[4 * t:4 * t + 4], 4, QC + " slerp", "slerp small angle " + nm, gate=lambda ctx, c: slerp_gate(ctx, c, False, True))
    # element-wise list interpolation
    def domv(c):
        out = []
        c.parts = []
        for k in range(2):
            p, q = pose(c), pose(c)
            c.parts.append((p, q))
        return c.parts[0][0] + c.parts[1][0] + c.parts[0][1] + c.parts[1][1] + [c.N(1)]
    C.equal(D, "vf_plerpv", domv, lambda c, x, o: c.parts[0][1] + c.parts[1][1], 14, PC + " linearInterpolate(vector)", "list interpolation t=1",
            gate=lambda ctx, c: slerp_gate(ctx, c, False, True))


def slerp_gate(ctx, c, far, small=False):
    """the two run-time decisions of slerp: opposite hemisphere (a bound on |a-b|^2 or on a.b), and near-parallel;
    a comparison of anything else with these constants is left open"""
    g = gate_generic(ctx, c)
    if g is not None:
        return g
    if c.op == "flt":
        for k in (0, 1):
            n, m = c.args[k], c.args[1 - k]     # k = 0: n < m
            if n.op != "const":
                continue
            lim = n.args[0]
            if 0.999 <= lim < 1:
                return small == (k == 0)
            if lim in (0, 2) and any(sum((s * x * y for x, y in zip(a, b)), ctx.N(0)).v == ctx.ev(m).v for a, b, s in hemi(ctx, lim)):
                return far == ((lim == 2) == (k == 0))
    return None


def hemi(ctx, lim):
    """operands of which the quantity compared with the limit is the product: a.b against 0, (a-b).(a-b) against 2"""
    x = ctx.x
    for p, q in ((0, 4), (0, 7), (0, 14), (7, 21)):
        a, b = x[p:p + 4], x[q:q + 4]
        if len(b) < 4:
            continue
        d = vsub(a, b)
        yield (a, b, 1) if lim == 0 else (d, d, 1)
