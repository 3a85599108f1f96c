"""Linear-algebra kernels: products, norms, distances, determinants, inverses and comparisons equal their definitions."""
from vlib import *
from alg import *
from checks_common import *
import lapack
from checks.P06 import minv
FLOOR = 40
D = "d_la.cpp"


def fr(n):
    return lambda c: free(c, n)


def run(C):
    C.preload(D)
    V, M, B = "src/utMath/VectorFunctions.h", "src/utMath/MatrixOperations.h", "src/utMath/"
    LA = lambda **k: lapack.LA(**k).handlers()

    # level 1
    for e, n in (("b1_2", 2), ("b1_3", 3), ("b1_4", 4), ("b1_7", 7), ("b1_d5", 5)):
        def spec(c, x, o, n=n):
            a, b = x[:n], x[n:2 * n]
            n1 = sum((c.fabs(v) for v in a), c.N(0))
            n2 = c.sqrt(dot(a, a))
            return [dot(a, b), dot(a, a), n1, n2, n2, n1, dot(a, b)]
        C.equal(D, "vf_" + e, fr(2 * n), spec, 7, B + "Blas1.h", "definition of inner product and norms")
    # level 2
    for e, m, n in (("op22", 2, 2), ("op33", 3, 3), ("op23", 2, 3), ("op34", 3, 4), ("op42", 4, 2)):
        C.equal(D, "vf_" + e, fr(m + n), lambda c, x, o, m=m, n=n: [x[r] * x[m + q] for r in range(m) for q in range(n)] * 2, 2 * m * n, B + "Blas2.h", "outer product")
    for e, m, n in (("mv22", 2, 2), ("mv33", 3, 3), ("mv34", 3, 4), ("mv44", 4, 4), ("mv23", 2, 3), ("mv52", 5, 2)):
        C.equal(D, "vf_" + e, fr(m * n + n), lambda c, x, o, m=m, n=n: mv(rows(x, m, n), x[m * n:]) * 2, 2 * m, B + "Blas2.h", "matrix-vector product")
    # level 3
    for e, m, k, n in (("mm222", 2, 2, 2), ("mm333", 3, 3, 3), ("mm344", 3, 4, 4), ("mm444", 4, 4, 4), ("mm234", 2, 3, 4), ("mm532", 5, 3, 2)):
        C.equal(D, "vf_" + e, fr(m * k + k * n), lambda c, x, o, m=m, k=k, n=n: flat(mm(rows(x, m, k), rows(x[m * k:], k, n))), m * n, B + "Blas3.h", "matrix-matrix product")
    # vector functions
    for e, n in (("vf2", 2), ("vf3", 3), ("vfd", 4)):
        def spec(c, x, o, n=n):
            d = vsub(x[:n], x[n:])
            l = c.sqrt(dot(x[:n], x[:n]))
            return [c.sqrt(dot(d, d)), dot(d, d)] + [v / l for v in x[:n]]
        C.equal(D, "vf_" + e, fr(2 * n), spec, 2 + n, V, "distance and normalisation")

    def spec(c, x, o):
        a = rows(x[:9], 3, 3)
        b = rows(x[9:], 3, 3)
        d = [dot(vsub(p, q), vsub(p, q)) for p, q in zip(a, b)]
        s = [dot(p, p) for p in a]
        return [c.sqrt(v) for v in d] + d + [c.sqrt(v) for v in s] + s + [v / c.sqrt(dot(p, p)) for p in a for v in p]
    C.equal(D, "vf_vfit", fr(18), spec, 21, V, "distance and normalisation of ranges")
    C.equal(D, "vf_cross", fr(6), lambda c, x, o: cross(x[:3], x[3:]), 3, V, "cross product")
    C.equal(D, "vf_rowmajor", fr(12), lambda c, x, o: x[:6] + x[:9] + x[:12] + x[:3], 30, B + "Matrix.h", "element order of array construction")

    def spec(c, x, o):
        z, u = c.N(0), c.N(1)
        return flat(eye(c, 3)) + [z] * 6 + [u, z, z, u] + [z, z] + [x[0], x[0]] + [z] * 3
    C.equal(D, "vf_consts", fr(1), spec, 26, B + "Matrix.h", "constant matrices")

    # comparison: equal iff every element (and the size) is equal
    def deq(n, diff):
        def dom(c):
            a = free(c, n)
            b = list(a)
            if diff is not None:
                b[diff] = c.var()
            return a + b
        return dom
    for e, n in (("eqv", 3), ("eqm", 6)):
        for k in [None] + list(range(n)):
            C.equal(D, "vf_" + e, deq(n, k), lambda c, x, o, k=k: [int(k is None), int(k is None), 0], 3, B + ("Vector.h" if n == 3 else "Matrix.h"), "equal iff every element is equal",
                    samples=1, gate=None)

    # lexicographic order (sign of the first differing component)
    for k in range(4):
        for up in (0, 1):
            def dom(c, k=k, up=up):
                a = free(c, 3)
                b = list(a)
                if k < 3:
                    d = c.var()
                    b[k] = a[k] + (d * d if up else -(d * d))
                    for q in range(k + 1, 3):
                        d = c.var()
                        b[q] = a[q] + (-(d * d) if up else d * d)
                return a + b
            C.equal(D, "vf_lt", dom, lambda c, x, o, k=k, up=up: [int(k < 3 and up)], 1, B + "Vector.h", "lexicographic order", gate=None, samples=1)
    C.equal(D, "vf_lerpv", fr(7), lambda c, x, o: [(1 - x[6]) * x[k] + x[6] * x[3 + k] for k in range(3)], 3, B + "Vector.h", "linear interpolation")
    C.equal(D, "vf_vset", fr(6), lambda c, x, o: x[:2] + x[:3] + x[:4] + vadd(x[:3], x[3:]), 12, B + "Vector.h", "element order")
    C.equal(D, "vf_scalar", fr(1), lambda c, x, o: [x[0], x[0]], 2, B + "Scalar.h", "value wrapper")

    # determinant, inverse
    F = B + "Functors/MatrixFunctors.h"
    for n in (2, 3):
        C.equal(D, "vf_det%d" % n, fr(n * n), lambda c, x, o, n=n: [det(rows(x, n, n))], 1, F, "determinant")
        C.equal(D, "vf_inv%d" % n, fr(n * n), lambda c, x, o, n=n: flat(minv(c, rows(x, n, n))), n * n, F, "inverse")
    for n, pivs in ((2, ([1, 2], [2, 2])), (3, ([1, 2, 3], [3, 3, 3], [1, 3, 3], [2, 3, 3])), (4, ([1, 2, 3, 4], [4, 2, 4, 4], [3, 4, 4, 4]))):
        for pv in pivs:
            C.equal(D, "vf_ldet%d" % n, fr(n * n), lambda c, x, o, n=n: [det(rows(x, n, n))], 1, M, "determinant for row interchanges %s" % pv, handlers=LA(piv=pv))
    for e, n in (("linv3", 3), ("linv4", 4), ("linvd", 3)):
        C.equal(D, "vf_" + e, fr(n * n), lambda c, x, o, n=n: flat(minv(c, rows(x, n, n))), n * n, M, "inverse", handlers=LA())
    # pseudo inverse V S^+ U^T, also for rank-deficient matrices
    for e, m, n, zs in (("pinv33", 3, 3, ((), (2,), (1, 2))), ("pinv42", 4, 2, ((), (1,))), ("pinv23", 2, 3, ((), (1,)))):
        for z in zs:
            def dom(c, m=m, n=n, z=z):
                A, s, U, Vv = svd_known(c, m, n, z)
                c.kn = (s, U, Vv)
                return flat(A)

            def spec(c, x, o, m=m, n=n):
                s, U, Vv = c.kn
                k = min(m, n)
                return [sum((Vv[i][q] * U[j][q] / s[q] for q in range(k) if s[q].v), c.N(0)) for i in range(n) for j in range(m)]
            C.equal(D, "vf_" + e, dom, spec, m * n, M, "Moore-Penrose inverse, %d zero singular values" % len(z), handlers=LA())
