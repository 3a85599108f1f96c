"""Rotation representations (matrix, quaternion, axis-angle, rotation vector, logarithm, Euler angles) denote the
same rotation before and after every conversion; each conversion's value graph is compared with the rotation matrix
of its input, on every gate of the conversion."""
import math
from alg import *
import fp
from vlib import gate_generic, gate_small
D = "d_rot.cpp"
QH = "src/utMath/Quaternion.h"
QC = "src/utMath/Quaternion.cpp"
RC = "src/utMath/Util/RotationCast.h"
FLOOR = 20


def same_rot(q1, q2):
    """unit quaternions equal up to sign: all 2x2 minors vanish and the norm is one"""
    out = []
    for i in range(4):
        for j in range(i + 1, 4):
            out.append(("rotation-minor%d%d" % (i, j), q1[i] * q2[j] - q1[j] * q2[i], q1[i] - q1[i]))
    out.append(("unit-norm", dot(q1, q1), dot(q2, q2)))
    return out


def axang(c):
    """unit axis and an angle in (0,pi): sin(angle/2), cos(angle/2) positive"""
    ax = unit3(c)
    a = c.angle()
    s, co = c.sincos(a.v * fp.inv(2))
    if not (fp.is_qr(s) and fp.is_qr(co)):
        raise fp.Resample("angle range")
    return ax + [a]


def qof(c, x):
    h = x[3] / 2
    s, co = c.sin(h), c.cos(h)
    return [x[0] * s, x[1] * s, x[2] * s, co]


def in_range_gate(ctx, c):
    """|sin beta| < 0.998 away from the documented singularities; clamp tests on a sine do not fire"""
    g = gate_generic(ctx, c)
    if g is not None:
        return g
    if c.op == "flt":
        a, b = c.args
        if a.op == "const" and a.args[0] >= 0.9:
            return False
        if b.op == "const" and b.args[0] <= -0.9:
            return False
    return None


def main_gate(ctx, c):
    """first branch of nested max(0, v): v of a rotation matrix is a square, hence not below zero"""
    g = gate_generic(ctx, c)
    if g is not None:
        return g
    if c.op == "flt":
        a, b = c.args
        if b.op == "const" and b.args[0] == 0:
            v = ctx.ev(a)
            return not fp.is_qr(v.v)
        if a.op == "const" and a.args[0] == 0:
            v = ctx.ev(b)
            return v.v != 0 and fp.is_qr(v.v)
        if a.op == "const" and a.args[0] == 1:      # 1 < |w| cannot hold for a unit quaternion
            return False
        if b.op == "const" and b.args[0] == 1:
            return True
        if a.op == "const" and a.args[0] == -1:
            return True
        if b.op == "const" and b.args[0] == -1:
            return False
    return None


def known(v):
    """the rational number with small numerator and denominator that v stands for, or None"""
    r0, r1, t0, t1 = fp.P, v % fp.P, 0, 1
    while r1 >= 1 << 20:
        q = r0 // r1
        r0, r1, t0, t1 = r1, r0 - q * r1, t1, t0 - q * t1
    return r1 / t1 if t1 and abs(t1) < 1 << 20 else None


limits = set()


def pole_gate(ctx, c):
    """as in_range_gate; notes limits that treat angles away from the pole like the pole"""
    if c.op == "flt":
        for n in c.args:
            if n.op == "const" and .9 <= abs(n.args[0]) < 1 - 1e-9:
                limits.add(float(n.args[0]))
    return in_range_gate(ctx, c)


def special_gate(ctx, c):
    """known numbers compare as numbers; equal ones (that differ by rounding errors in practice) and unknown ones either way"""
    if c.op == "flt":
        a, b = c.args
        p, q = (float(n.args[0]) if n.op == "const" else known(ctx.ev(n).v) for n in (a, b))
        if p is not None and q is not None and p != q:
            return p < q
        if p is None and q is None and ctx.ev(a).v != ctx.ev(b).v:
            return None
        if p is None and abs(q) >= 1 or q is None and abs(p) >= 1:      # nothing here exceeds 1 in magnitude
            return q > 0 if p is None else p < 0
        if p is None and q == 0 or q is None and p == 0:
            return None
        return bool(fp.H(ctx.salt, "tie", a.id, b.id) & 1)
    return None


def exact_gate(ctx, c):
    """as above, but everything here is computed without rounding errors"""
    return None if c.op == "flt" and ctx.ev(c.args[0]).v == ctx.ev(c.args[1]).v else special_gate(ctx, c)


def special(C):
    """identity and half turns: limits of the general formulas, where rounding decides between their branches"""
    def one(c, *q):
        return [c.N(v) for v in q]
    rots = {"no rotation": lambda c: one(c, 0, 0, 0, 1), "full turn": lambda c: one(c, 0, 0, 0, -1), "half turn": lambda c: unit3(c) + [c.N(0)]}
    for k in range(3):
        for sg in (1, -1):
            rots["half turn about %saxis %d" % ("" if sg > 0 else "negative ", k)] = lambda c, k=k, sg=sg: [c.N(sg * (k == m)) for m in range(4)]

    def mat(n):
        def f(c, q):
            r = R(q)
            return flat(r) if n == 3 else flat([r[k] + [c.var()] for k in range(3)] + [free(c, 4)])
        return f
    asq = lambda c, q: q
    rot = lambda f: (lambda c, x, o: [("row %d column %d" % (k // 3, k % 3), a, b) for k, (a, b) in enumerate(zip(flat(R(f(c, o))), flat(R(c.q))))])
    aa = lambda c, o: qof(c, [v if any(w.v for w in o[:3]) else c.N(1) for v in o[:3]] + [o[3]]) if any(w.v for w in o) else [c.N(0)] * 3 + [c.N(1)]

    def vec(c, o):
        n = c.sqrt(dot(o, o))
        return [c.N(0)] * 3 + [c.N(1)] if n.v == 0 else qof(c, [v / n for v in o] + [n])
    for what, f in rots.items():
        def dom(c, f=f, conv=asq):
            if (0, 1) not in c.inv:
                c.reg(0, 0, 1)
            c.q = f(c)
            return conv(c, c.q)
        for e, conv, n, res, anchor in (
                ("vf_qfrommat3", mat(3), 4, lambda c, o: o, QC + " Quaternion(Matrix)"), ("vf_qfrommat4", mat(4), 4, lambda c, o: o, QC + " Quaternion(Matrix)"),
                ("vf_rc_q_m3", mat(3), 4, lambda c, o: o, RC), ("vf_rc_q_m4", mat(4), 4, lambda c, o: o, RC),
                ("vf_rc_a4_q", asq, 4, aa, RC), ("vf_rc_a4_m3", mat(3), 4, aa, RC), ("vf_rc_a4_m4", mat(4), 4, aa, RC),
                ("vf_rc_a3_q", asq, 3, vec, RC), ("vf_rc_a3_m3", mat(3), 3, vec, RC),
                ("vf_qtoaxang", asq, 4, aa, QH + " toAxisAngle"), ("vf_qlog", asq, 3, vec, QC + " toLogarithm")):
            C.equal(D, e, lambda c, dom=dom, conv=conv: dom(c, conv=conv), rot(res), n, anchor, what, samples=16, gate=special_gate if what == "half turn" else exact_gate, zero_ok=False)

    # a quaternion that rounding made longer than 1: nothing outside [-1, 1] reaches an inverse cosine, nothing negative a root
    def shadow(c, v):
        k = known(v)
        return k if k is not None else c.shadow.get(v % fp.P)

    def gate(c, n):
        if n.op == "flt":
            p, q = (float(m.args[0]) if m.op == "const" else shadow(c, c.ev(m).v) for m in n.args)
            if p is not None and q is not None:
                return p < q
        return None

    def long(k, sg):
        def dom(c):
            if (0, 1) not in c.inv:
                c.reg(0, 0, 1)
            w = c.var() * sg
            c.shadow = {}
            for n, v in ((1, 1 + 1e-15), (2, 1 + 2e-15), (4, 1 + 4e-15)):
                p = (w if n == 1 else w * w if n == 2 else w * w * w * w).v
                c.shadow[p] = v * (sg if n == 1 else 1)
                c.shadow[-p % fp.P] = -v * (sg if n == 1 else 1)
                c.shadow[(1 - p) % fp.P] = 1 - v
            c.outside = []

            def guard(name, f, lo, hi):
                def g(x):
                    v = shadow(c, x.v)
                    if v is None or not lo <= v <= hi:
                        c.outside.append(name)
                        return c.N(1)
                    return f(x)
                return g
            for name, lo, hi in (("acos", -1, 1), ("asin", -1, 1), ("sqrt", 0, 1e9)):
                setattr(c, name, guard(name, getattr(c, name), lo, hi))
            return ([c.N(0)] * 3 + [w]) * k + ([c.var()] if k > 1 else [])
        return dom
    for e, k, n in (("vf_qtoaxang", 1, 4), ("vf_qangle", 1, 1), ("vf_qlog", 1, 3), ("vf_rc_a4_q", 1, 4), ("vf_rc_a3_q", 1, 3), ("vf_slerp", 2, 4)):
        for sg in (1, -1):
            C.equal(D, e, long(k, sg), lambda c, x, o: [("argument of " + f, c.N(1), c.N(0)) for f in c.outside[:1]], n, QC + ", " + QH + ", " + RC, "length exceeding 1 by rounding", samples=6, gate=gate)


def run(C):
    special(C)
    rm = lambda c: (lambda q: flat(R(q)))(unitq(c))
    # --- matrix -> quaternion: every branch
    for f, n in (("vf_qfrommat3", 3), ("vf_qfrommat4", 4)):
        def dom(c, n=n):
            c.q = unitq(c)
            r = R(c.q)
            if n == 4:
                r = [r[k] + [c.var()] for k in range(3)] + [free(c, 4)]
            return flat(r)
        C.equal(D, f, dom, lambda c, x, o: same_rot(o, c.q), 4, QC + " Quaternion(Matrix)", "same-rotation(all branches)", samples=24, gate=None)
    # --- axis angle
    C.equal(D, "vf_qaxang", lambda c: axang(c)[:3] + [c.angle()], lambda c, x, o: qof(c, x), 4, QH + " Quaternion(axis,angle)", "axis-angle", gate=gate_generic)
    def dom_s(c):
        ax = unit3(c); s = pos(c)[0]; c.ax = ax
        return [s * a for a in ax] + [c.angle()]
    C.equal(D, "vf_qaxang", dom_s, lambda c, x, o: qof(c, c.ax + [x[3]]), 4, QH + " Quaternion(axis,angle)", "axis length irrelevant")
    def domq(c):
        c.aa = axang(c)
        return qof(c, c.aa)
    C.equal(D, "vf_qtoaxang", domq, lambda c, x, o: c.aa, 4, QH + " toAxisAngle", "axis-angle", gate=main_gate)
    # rotation angle is independent of the representative's sign
    C.equal(D, "vf_qangle", domq, lambda c, x, o: [c.aa[3]], 1, QH + " angle", "angle", gate=main_gate)
    C.equal(D, "vf_qangle", lambda c: smul(-1, domq(c)), lambda c, x, o: [c.aa[3]], 1, QH + " angle", "angle of -q", gate=main_gate)
    # --- log / exp
    rv = lambda c: smul(c.aa[3], c.aa[:3])
    C.equal(D, "vf_qlog", domq, lambda c, x, o: rv(c), 3, QC + " toLogarithm", "logarithm", gate=main_gate)
    C.equal(D, "vf_qlog", lambda c: smul(-1, domq(c)), lambda c, x, o: rv(c), 3, QC + " toLogarithm", "logarithm of -q", gate=main_gate)
    def domrv(c):
        c.aa = axang(c)
        a = c.aa[3]
        if not fp.is_qr(a.v):
            raise fp.Resample("angle>0")
        return rv(c)
    C.equal(D, "vf_qexp", domrv, lambda c, x, o: qof(c, c.aa), 4, QC + " fromLogarithm", "exponential")
    C.equal(D, "vf_qexp", lambda c: [c.N(0)] * 3, lambda c, x, o: [0, 0, 0, 1], 4, QC + " fromLogarithm", "exponential at 0", gate=gate_small)
    # --- Euler constructor: R = Ry(y) * Rz(x) * Rx(z)
    def eul3(c, x, o):
        def ax(k, a):
            e = [c.N(0)] * 3
            e[k] = c.N(1)
            return qof(c, e + [a])
        return qmul(qmul(ax(1, x[1]), ax(2, x[0])), ax(0, x[2]))
    C.equal(D, "vf_qeuler3", lambda c: [c.angle() for _ in range(3)], eul3, 4, QH + " Quaternion(x,y,z)", "euler-constructor")
    # --- Euler extraction, away from gimbal lock
    def axq(c, k, a):
        e = [c.N(0)] * 3
        e[k] = c.N(1)
        return qof(c, e + [a])
    ax = {"X": 0, "Y": 1, "Z": 2}

    def euler(entry, seq, order, perm):
        """seq: rotation axes applied first-to-last give q; perm: result slots"""
        def dom(c):
            c.E = [c.angle() for _ in range(3)]
            for a in c.E:
                s, co = c.sincos(a.v)
                if not fp.is_qr(co):
                    raise fp.Resample("cos>0")
            q = [c.N(0), c.N(0), c.N(0), c.N(1)]
            for k, a in zip(seq, c.E):
                q = qmul(q, axq(c, k, a)) if order == "intrinsic" else qmul(axq(c, k, a), q)
            return q
        C.equal(D, entry, dom, lambda c, x, o: [c.E[p] for p in perm], 3, QC + " getEulerAngles", "euler-extraction " + entry, gate=pole_gate)
        for v in sorted(limits):
            C.violate(entry + "/pole", "%s getEulerAngles: every rotation whose sine of the middle angle exceeds %g gets the angles of the pole" % (QC, v))
        limits.clear()
        for sg in (1, -1):
            def pole(c, sg=sg):
                h = c.N(math.pi) / 2
                for k in (1, -1):
                    if (k % fp.P, 0) not in c.inv:
                        c.reg((h * k).v, k % fp.P, 0)
                c.E = [c.angle(), h * sg, c.angle()]
                r2 = c.sqrt(c.N(1) / 2)
                e = [c.N(0)] * 3
                e[seq[1]] = r2 * sg
                m = [axq(c, seq[0], c.E[0]), e + [r2], axq(c, seq[2], c.E[2])]
                c.q = qmul(qmul(m[2], m[1]), m[0])
                return c.q

            def spec(c, x, o):
                ang = [o[p] for p in perm]
                m = [axq(c, k, a) for k, a in zip(seq, ang)]
                s, co = c.sincos(ang[1].v)
                r2 = c.sqrt(c.N(1) / 2)
                e = [c.N(0)] * 3
                e[seq[1]] = r2 * c.N(s)
                m[1] = e + [r2]
                return [("sine of the middle angle", c.N(s), c.N(sg)), ("cosine of the middle angle", c.N(co), c.N(0))] + same_rot(qmul(qmul(m[2], m[1]), m[0]), c.q)
            C.equal(D, entry, pole, spec, 3, QC + " getEulerAngles", "middle angle of %d degrees, %s" % (90 * sg, entry), samples=6, gate=special_gate)
    # default: rotation about x first, then y, then z in the fixed frame
    euler("vf_qeul", (0, 1, 2), "extrinsic", (0, 1, 2))
    C.SEQ = {}
    for s in ("XYZ", "YZX", "ZXY", "ZYX", "XZY", "YXZ"):
        euler("vf_qeul_" + s, tuple(ax[ch] for ch in s), "extrinsic", (0, 1, 2))
    # --- RotationCast
    def domm(c):
        c.aa = axang(c)
        c.q = qof(c, c.aa)
        return flat(R(c.q))
    def domm4(c):
        r = rows(domm(c), 3, 3)
        return flat([r[k] + [c.var()] for k in range(3)] + [free(c, 4)])
    def domaa(c):
        c.aa = axang(c)
        c.q = qof(c, c.aa)
        if not fp.is_qr(c.aa[3].v):
            raise fp.Resample("angle>0")
        return c.aa
    def domrv2(c):
        domaa(c)
        return rv(c)
    def domq2(c):
        c.aa = axang(c); c.q = qof(c, c.aa)
        return c.q
    g = main_gate
    def posmax(dom):
        return dom
    C.equal(D, "vf_rc_q_m3", domm, lambda c, x, o: c.q, 4, RC, "matrix->quaternion", gate=g)
    C.equal(D, "vf_rc_q_m4", domm4, lambda c, x, o: c.q, 4, RC, "matrix->quaternion", gate=g)
    C.equal(D, "vf_rc_q_a4", domaa, lambda c, x, o: c.q, 4, RC, "axis-angle->quaternion")
    C.equal(D, "vf_rc_q_a3", domrv2, lambda c, x, o: c.q, 4, RC, "rotvec->quaternion")
    C.equal(D, "vf_rc_q_a3", lambda c: [c.N(0)] * 3, lambda c, x, o: [0, 0, 0, 1], 4, RC, "rotvec->quaternion at 0", gate=gate_small)
    C.equal(D, "vf_rc_q_q", domq2, lambda c, x, o: c.q, 4, RC, "identity")
    C.equal(D, "vf_rc_a4_q", domq2, lambda c, x, o: c.aa, 4, RC, "quaternion->axis-angle", gate=main_gate)
    C.equal(D, "vf_rc_a4_a3", domrv2, lambda c, x, o: c.aa, 4, RC, "rotvec->axis-angle")
    def sinpos(dom):
        def f(c):
            r = dom(c)
            if not fp.is_qr(c.sincos(c.aa[3].v)[0]):
                raise fp.Resample("angle<pi")
            return r
        return f
    C.equal(D, "vf_rc_a4_m3", sinpos(domm), lambda c, x, o: c.aa, 4, RC, "matrix->axis-angle", gate=in_range_gate)
    C.equal(D, "vf_rc_a4_m4", sinpos(domm4), lambda c, x, o: c.aa, 4, RC, "matrix->axis-angle", gate=in_range_gate)
    C.equal(D, "vf_rc_a3_a4", domaa, lambda c, x, o: rv(c), 3, RC, "axis-angle->rotvec")
    C.equal(D, "vf_rc_a3_q", domq2, lambda c, x, o: rv(c), 3, RC, "quaternion->rotvec", gate=main_gate)
    C.equal(D, "vf_rc_a3_m3", sinpos(domm), lambda c, x, o: rv(c), 3, RC, "matrix->rotvec", gate=in_range_gate)
    C.equal(D, "vf_rc_m3_q", domq2, lambda c, x, o: flat(R(c.q)), 9, RC, "quaternion->matrix")
    C.equal(D, "vf_rc_m3_a4", domaa, lambda c, x, o: flat(R(c.q)), 9, RC, "axis-angle->matrix")
    C.equal(D, "vf_rc_m3_a3", domrv2, lambda c, x, o: flat(R(c.q)), 9, RC, "rotvec->matrix")
