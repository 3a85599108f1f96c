"""Statistics: moments, Mahalanobis distance, density, mixtures, clusters, correlation, backward propagation and random values equal their definitions."""
import math
from vlib import *
from alg import *
from checks_common import *
from lapack import LA
import lapack
import fp
import vg
FLOOR = 30
D = "d_sto.cpp"
S = "src/utMath/Stochastic/"


def minv(c, A):
    n = len(A)
    return rows(lapack.mx_inv(c, (n,), flat(A)), n, n)


def less(a, b):
    d = (b.v - a.v) % fp.P
    return d != 0 and fp.is_qr(d)


def moments(c, xs, w=None):
    n = len(xs[0])
    w = w or [c.N(1) / c.N(len(xs))] * len(xs)
    m = [sum((w[k] * xs[k][a] for k in range(len(xs))), c.N(0)) for a in range(n)]
    C = [sum((w[k] * (xs[k][a] - m[a]) * (xs[k][b] - m[b]) for k in range(len(xs))), c.N(0)) for a in range(n) for b in range(n)]
    t = sum((C[a * n + a] for a in range(n)), c.N(0))
    return m + C + [t, c.sqrt(t)]


def groups(x, n, k):
    return [x[n * q:n * q + n] for q in range(k)]


def maha2(c, m, C, x):
    d = vsub(x, m)
    n = len(m)
    I = minv(c, rows(C, n, n))
    return dot(d, [dot(r, d) for r in I])


def numeric(n):
    """value of a node without inputs"""
    if not isinstance(n, vg.Node):
        return float(n)
    if n.op == "const":
        return float(n.args[0])
    a = [numeric(k) for k in n.args if isinstance(k, vg.Node) and not vg.iscond(k)]
    f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y, "neg": lambda x: -x}
    if n.op in f:
        return f[n.op](*a)
    if n.op.startswith("fn:"):
        return {"sqrt": math.sqrt, "exp": math.exp, "pow": math.pow, "fabs": abs, "log": math.log}[n.op[3:]](*a)
    raise Broken("no number: %s" % n.op)


def small(c, v):
    """arbitrary but fixed outcome of 'v is below the tolerance'"""
    return bool(fp.H(c.salt, "small", v.v) & 1)


def constant(n):
    return not isinstance(n, vg.Node) or n.op == "const" or (n.op in ("mul", "div") or n.op.startswith("fn:")) and all(constant(a) for a in n.args if isinstance(a, vg.Node))


def tolgate(ctx, c):
    if c.op == "flt" and constant(c.args[1]) and not constant(c.args[0]):
        return small(ctx, ctx.ev(c.args[0]))
    if c.op == "flt" and constant(c.args[0]) and not constant(c.args[1]):
        return not small(ctx, ctx.ev(c.args[1]))
    return None


def relgate(ctx, c):
    """singular values are not negligible"""
    tiny = lambda n: n.op == "mul" and any(isinstance(a, vg.Node) and a.op == "const" and 0 < a.args[0] <= 1e-6 for a in n.args)
    if c.op == "flt" and tiny(c.args[1]):
        return False
    if c.op == "flt" and tiny(c.args[0]):
        return True
    return None


def kmeans(N, K, n):
    def sp(c, x, o):
        m, v = groups(x, N, K), groups(x[N * K:], N, n)
        dist = lambda a, b: dot(vsub(a, b), vsub(a, b))

        def near(p):
            b, d = 0, dist(p, m[0])
            for k in range(1, K):
                e = dist(p, m[k])
                if less(e, d):
                    b, d = k, e
            return b
        ix = [near(p) for p in v]
        for _ in range(100):
            new = []
            for k in range(K):
                mem = [v[j] for j in range(n) if ix[j] == k]
                new.append([sum((p[a] for p in mem), c.N(0)) / c.N(len(mem)) for a in range(N)] if mem else m[k])
            diff = sum((dist(m[k], new[k]) for k in range(K)), c.N(0)) / c.N(K)
            m = new
            ix = [near(p) for p in v]
            if small(c, diff):
                break
        return [diff] + [a for p in m for a in p] + [n] + ix
    return sp


def run(ck):
    def gau(e, N, n):
        ck.equal(D, e, lambda c: [c.var() for _ in range(max(2, N * n))], lambda c, x, o: [1] + moments(c, groups(x, N, n)), 1 + N + N * N + 2, S + "Gaussian.h estimate_gaussian", "mean, covariance, variance, deviation", gate=None)
    for e, N, n in (("vf_gau2", 2, 3), ("vf_gau3", 3, 4), ("vf_gau131", 3, 131), ("vf_gau1", 2, 1), ("vf_gaul", 2, 3)):
        gau(e, N, n)
    for e, N, n in (("vf_gauw2", 2, 3), ("vf_gauw3", 3, 3), ("vf_gauw131", 2, 131)):
        ck.equal(D, e, lambda c, N=N, n=n: [c.var() for _ in range(N * n + n)], lambda c, x, o, N=N, n=n: [1] + moments(c, groups(x, N, n), x[N * n:]), 1 + N + N * N + 2, S + "Gaussian.h weighted estimate_gaussian", "weighted moments", gate=None)
    for e in ("gau0", "gauw0", "gaui3"):
        ck.equal(D, "vf_" + e, lambda c: [c.var() for _ in range(10)], lambda c, x, o: [0] * 9, 9, S + "Gaussian.h", "nothing to estimate from", gate=None)
    for e, sel in (("vf_gaui0", (1,)), ("vf_gaui1", (0, 2, 4))):
        ck.equal(D, e, lambda c: [c.var() for _ in range(10)], lambda c, x, o, sel=sel: [1] + moments(c, [x[2 * k:2 * k + 2] for k in sel]), 9, S + "Gaussian.h estimate_gaussian_index", "moments of the selected values", gate=None)
    ck.equal(D, "vf_reset", lambda c: [c.var() for _ in range(6)], lambda c, x, o: [0] * 8, 8, S + "Gaussian.h reset", "zero", gate=None)
    # distance and density
    gdom = lambda N: (lambda c: [c.var() for _ in range(N)] + sym(c, N))
    for N in (2, 3):
        ck.equal(D, "vf_mah%d" % N, lambda c, N=N: gdom(N)(c) + [c.var() for _ in range(N)],
                 lambda c, x, o, N=N: [c.sqrt(maha2(c, x[:N], x[N:N + N * N], x[N + N * N:]))], 1, S + "MahalanobisDistance.h", "sqrt(d^T C^-1 d)", gate=None)

        def dens(c, x, o, N=N):
            L = N + N * N
            d1, d2 = det(rows(x[N:L], N, N)), det(rows(x[L + N:2 * L], N, N))
            return [("density relative to its maximum", o[0], o[1] * c.exp(c.N(-1) / c.N(2) * maha2(c, x[:N], x[N:L], x[2 * L:2 * L + N]))),
                    ("maximum proportional to det^-1/2", o[1] * o[1] * o[1] * o[1] * d1 * d1, o[2] * o[2] * o[2] * o[2] * d2 * d2)]

        ck.equal(D, "vf_pro%d" % N, lambda c, N=N: gdom(N)(c) + gdom(N)(c) + [c.var() for _ in range(N)], dens, 3, S + "expectation_maximization.h Probability", "Gaussian density")
    for e in ("mahs", "mahz"):
        ck.raises(D, "vf_" + e, lambda c: [c.var() for _ in range(15)], 1, S + "MahalanobisDistance.h", "singular covariance")

    for e in ("prs2", "prs3"):
        try:
            g = Graph(ck.unit(D), "vf_" + e, 1, 1)
            v, n = numeric(g.out[0]), int(e[-1])
            w = (2 * math.pi) ** (-n / 2)
            bad = abs(v - w) > 1e-4 * w
            if bad:
                ck.violate("vf_%s/constant" % e, S + "expectation_maximization.h Probability: the density of the %d-dimensional standard normal distribution at its mean is %g, not %g" % (n, v, w))
            ck.rules["normalising constant"] = ck.rules.get("normalising constant", 0) + 1
            ck.nfun += 1
            ck.steps += g.steps
            ck.note(entry="vf_" + e, anchor=S + "expectation_maximization.h", rule="normalising constant", ok=not bad)
        except Broken as b:
            ck.broken.append("vf_%s: %s" % (e, b))
            ck.note(entry="vf_" + e, ok=False, undecided=str(b)[:200])
    # correlation coefficient over the common length
    cov = lambda c, a, b: sum(((p - sum(a, c.N(0)) / c.N(len(a))) * (q - sum(b, c.N(0)) / c.N(len(b))) for p, q in zip(a, b)), c.N(0))
    rho = lambda c, a, b: cov(c, a, b) / c.sqrt(cov(c, a, a) * cov(c, b, b))
    for e, n1, n2 in (("cor3", 3, 3), ("cor131", 131, 131), ("corl", 4, 2), ("corr", 3, 5), ("cora", 3, 3)):
        def cs(c, x, o, n1=n1, n2=n2):
            n = min(n1, n2)
            return [rho(c, x[:n], x[n1:n1 + n])]
        ck.equal(D, "vf_" + e, lambda c, n=n1 + n2: [c.var() for _ in range(n)], cs, 1, S + "Correlation.h", "correlation coefficient of %d and %d values" % (n1, n2), gate=None)
    ck.equal(D, "vf_cor0", lambda c: [c.var()], lambda c, x, o: [1, 1], 2, S + "Correlation.h", "empty sequences", gate=None)
    # clusters
    for e, N, K, n in (("km23", 2, 2, 3), ("km34", 2, 3, 4)):
        ck.equal(D, "vf_" + e, lambda c, k=N * (K + n): [c.var() for _ in range(k)], kmeans(N, K, n), 1 + N * K + 1 + n, S + "k_means.h k_means", "assignment to the nearest mean, means of the members", gate=tolgate, samples=12 * ck.samples)
    ck.equal(D, "vf_kg", lambda c: [c.var() for _ in range(8)], lambda c, x, o: [3] + x[:6], 7, S + "k_means.h copy_greedy", "the first values", gate=None)

    def kp(K, f):
        def sp(c, x, o):
            v = groups(x, 2, 3)
            d2 = lambda a, b: c.sqrt(dot(vsub(a, b), vsub(a, b)))
            out = [v[f]]
            dist = [c.N(0) if k == f else d2(v[f], v[k]) for k in range(3)]
            for q in range(1, K):
                tot = sum(dist, c.N(0))
                if not less(c.N(0), tot):
                    break
                r = tot * x[6 + q - 1]
                for k in range(3):
                    if k == 2 or not less(dist[k], r):
                        break
                    r = r - dist[k]
                out.append(v[k])
                new = [d2(v[k], p) for p in v]
                new[k] = c.N(0)
                dist = [b if less(b, a) else a for a, b in zip(dist, new)]
            n = len(out)
            return [n] + [a for p in out + [[c.N(0)] * 2] * (K - n) for a in p]
        return sp
    for e, K, f in (("kp0", 2, 0), ("kp1", 2, 1), ("kp2", 2, 2), ("kp3", 3, 1)):
        ck.equal(D, "vf_" + e, lambda c: [c.var() for _ in range(8)], kp(K, f), 1 + 2 * K, S + "k_means.h copy_probability", "start values drawn by distance to the closest chosen one", gate=None, samples=8 * ck.samples)
    # covariance of parameters
    def jdom(c, k):
        A, s, U, V = svd_known(c, 3, 2)
        c.A = A
        return A

    def bpi(c):
        A = jdom(c, 0)
        s = c.var()
        return [s * s] + flat(A)

    def bpd(c):
        A = jdom(c, 0)
        e = [c.var() for _ in range(3)]
        e2 = [v * v for v in e]
        e1 = [c.sqrt(v) for v in e2]
        return e2 + flat([[e1[r] * A[r][q] for q in range(2)] for r in range(3)])
    inf = lambda c: minv(c, mm(tr(c.A), c.A))
    ck.equal(D, "vf_bpi", bpi, lambda c, x, o: [x[0] * v for v in flat(inf(c))], 4, S + "BackwardPropagation.h backwardPropagationIdentity", "s (J^T J)^-1", handlers=LA().handlers(), gate=relgate)
    ck.equal(D, "vf_bpd", bpd, lambda c, x, o: flat(inf(c)), 4, S + "BackwardPropagation.h backwardPropagationDiagonal", "(J^T E^-1 J)^-1", handlers=LA().handlers(), gate=relgate)
    # weights
    ck.equal(D, "vf_wei", lambda c: [c.var(), c.var()], lambda c, x, o: [int(less(x[0], x[1])), int(less(x[1], x[0])), 0, 1], 4, S + "Weighted.h", "order by weight", gate=None, samples=4 * ck.samples)

    def same(c):
        v = c.var()
        return [v, v]
    ck.equal(D, "vf_wei", same, lambda c, x, o: [0, 0, 1, 0], 4, S + "Weighted.h", "equal weights", gate=None)
    ck.equal(D, "vf_weic", lambda c: [c.var() for _ in range(7)], lambda c, x, o: x[:6] + [0, 0, x[6]] + x[:6] + [0, 0, 0, 0], 19, S + "Weighted.h", "construction", gate=None)
    # random values from the drawn numbers
    R = "src/utMath/Random/"
    ck.equal(D, "vf_ru", lambda c: [c.var() for _ in range(6)], lambda c, x, o: [x[4] + (x[5] - x[4]) * x[0], x[4] + (x[5] - x[4]) * x[1], x[4] + x[5] * x[2], x[4] + x[5] * x[3]], 4, R + "Scalar.h", "limits and parameters", gate=None)

    def drawn(c, o, lims, draws):
        """every value is low + (high-low) u for a drawn number u of its own"""
        r, used = [], set()
        for k, (v, (lo, hi)) in enumerate(zip(o, lims)):
            q = [n for n, u in enumerate(draws) if n not in used and (lo + (hi - lo) * u).v == v.v]
            used.update(q[:1])
            r.append(("value %d" % k, c.N(len(q[:1])), c.N(1)))
        return r
    lim = lambda a, b: (a, b) if less(a, b) else (b, a)
    nrm = lambda m, d: (m, m + d)
    ck.equal(D, "vf_ruv", lambda c: [c.var() for _ in range(20)], lambda c, x, o: drawn(c, o, [lim(x[12], x[13])] * 3 + [(x[14 + k], x[17 + k]) for k in range(3)] + [lim(x[12], x[13])] * 6, x[:12]), 12, R + "Vector.h, Matrix.h", "limits", gate=None, samples=4 * ck.samples)
    ck.equal(D, "vf_rvu", lambda c: [c.var() for _ in range(5)], lambda c, x, o: drawn(c, o, [lim(x[3], x[4])] * 3, x[:3]), 3, R + "Vector.h distribute_uniform", "limits", gate=None, samples=4 * ck.samples)
    ck.equal(D, "vf_rvn", lambda c: [c.var() for _ in range(17)], lambda c, x, o: drawn(c, o, [nrm(x[9], x[10])] * 3 + [nrm(x[11 + k], x[14 + k]) for k in range(3)] + [nrm(x[9], x[10])] * 3, x[:9]), 9, R + "Vector.h Normal", "mean and deviation", gate=None)
    for e, lims in (("rp", lambda x: [lim(x[6], x[7])] * 3), ("rp3", lambda x: [(x[6 + k], x[9 + k]) for k in range(3)])):
        ck.equal(D, "vf_" + e, lambda c: [c.var() for _ in range(12)], lambda c, x, o, lims=lims: [("rotation length", dot(o[:4], o[:4]), c.N(1))] + drawn(c, o[4:7], lims(x), x[:6]), 7, R + "Pose.h", "unit rotation, translation within its limits", gate=None, samples=4 * ck.samples)
    def uniq(c, x, o):
        """share u of the squared length for one pair of components and 1-u for the other, a full-turn angle of its own in each pair"""
        def pair(a, b, sh, u):
            t = c.pi * 2 * u
            sn, cs = c.sin(t), c.cos(t)
            m = [(a * a).v, (b * b).v]
            w = [(sh * sn * sn).v, (sh * cs * cs).v]
            k = (a * b).v
            return m in (w, w[::-1]) and k in ((sh * sn * cs).v, (-(sh * sn * cs)).v)
        ok = any(pair(o[a], o[b], sh, x[k1]) and pair(o[e], o[f], 1 - sh, x[k2])
                 for k0, k1, k2 in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)) for sh in (x[k0], 1 - x[k0])
                 for a, b, e, f in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)))
        return [("length", dot(o, o), c.N(1)), ("one number shares the length, two choose full-turn angles", c.N(int(ok)), c.N(1))]
    ck.equal(D, "vf_rq", lambda c: [c.var() for _ in range(3)], lambda c, x, o: uniq(c, x, o), 4, R + "Rotation.h", "uniformly distributed unit quaternion", gate=None)

    # mixtures of Gaussians: expectation and maximisation until the relative change of the likelihood is below the threshold
    def emdom(c):
        return [v for _ in range(2) for v in gdom(2)(c) + [c.var()]] + [c.var() for _ in range(6)]

    def em(c, x, o, least=1):
        mix = [(x[7 * k:7 * k + 2], x[7 * k + 2:7 * k + 6], x[7 * k + 6]) for k in range(2)]
        v = groups(x[14:], 2, 3)
        ab = lambda y: y if less(c.N(0), y) or y.v == 0 else -y
        dt = lambda C: ab(det(rows(C, 2, 2)))
        ex = lambda m, C, p: c.exp(c.N(-1) / c.N(2) * maha2(c, m, C, p))
        m, C, w = mix[0]
        K = ex(m, C, v[0]) / o[0]
        K = K * K / dt(C)
        pdf = lambda m, C, p: c.N(1) / c.sqrt(K * dt(C)) * ex(m, C, p)
        r = [("density of component %d" % k, o[3 * k + j], pdf(mix[k][0], mix[k][1], v[j])) for k in range(2) for j in range(3)]
        like = lambda mx: sum((c.log(sum((w * pdf(m, C, p) for m, C, w in mx), c.N(0))) for p in v), c.N(0)) / c.N(3)
        l = like(mix)
        for it in range(100):
            if it > 3:
                raise fp.Resample()
            g = [[w * pdf(m, C, p) for p in v] for m, C, w in mix]
            nrm = [g[0][j] + g[1][j] for j in range(3)]
            new = []
            for k in range(2):
                q = [g[k][j] / nrm[j] for j in range(3)]
                s = q[0] + q[1] + q[2]
                mo = moments(c, v, [t / s for t in q])
                new.append((mo, s / c.N(3)))
            mix = [(mo[:2], mo[2:6], w) for mo, w in new]
            n = like(mix)
            if less(ab(l - n), c.N(1) / c.N(100000) * ab(l)):
                break
            l = n
        if it + 1 < least:
            raise fp.Resample()
        for k in range(2):
            r.append(("weight %d" % k, o[6 + 9 * k], new[k][1]))
            r += [("component %d entry %d" % (k, j), o[7 + 9 * k + j], new[k][0][j]) for j in range(8)]
        return r + [("log likelihood", o[24], n)]
    g = ck.equal(D, "vf_em", emdom, em, 26, S + "expectation_maximization.h expectation_maximization", "responsibilities, weights and moments")
    ck.equal(D, "vf_em", emdom, lambda c, x, o: em(c, x, o, 2), 26, S + "expectation_maximization.h expectation_maximization", "second iteration", graph=g)
