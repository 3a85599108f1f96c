"""helpers shared by the specifications"""
from fp import N
from alg import *


def seed_dual(c, p, k=0):
    """p as independent dual variables number k, k+1, ..."""
    out = []
    for j, v in enumerate(p):
        d = [0] * c.nd
        d[k + j] = 1
        out.append(N(v.v, d, c))
    return out


def jac(c, vals):
    return [[N(v.d[k] if v.d else 0, None, c) for k in range(c.nd)] for v in vals]


def mats(m):
    return [list(r) for r in m]


def sym(c, n):
    m = [[None] * n for _ in range(n)]
    for a in range(n):
        for b in range(a, n):
            m[a][b] = m[b][a] = c.var()
    return flat(m)


def prop(Jm, C):
    return mm(mm(Jm, C), tr(Jm))


def orth(c, n, refl=None):
    """random rational orthogonal matrix (product of reflections; refl = number of them)"""
    M = eye(c, n)
    for _ in range(refl if refl is not None else n):
        v = free(c, n)
        d = dot(v, v)
        h = [[(1 if i == j else 0) - 2 * v[i] * v[j] / d for j in range(n)] for i in range(n)]
        M = mm(M, h)
    return M


def svd_known(c, m, n, zero=()):
    """random m x n matrix with known singular value decomposition (recorded for the gesvd contract); singular values
    listed in `zero` vanish"""
    U, V = orth(c, m), orth(c, n)
    k = min(m, n)
    s = [c.N(0) if q in zero else c.var() * c.N(1) for q in range(k)]
    s = [x * x for x in s]
    A = [[sum((U[i][q] * s[q] * V[j][q] for q in range(k)), c.N(0)) for j in range(n)] for i in range(m)]
    kn = getattr(c, "svds", None)
    if kn is None:
        kn = c.svds = []

        def hint(ctx, B):
            for A_, s_, U_, Vt_ in kn:
                if len(A_) == len(B) and len(A_[0]) == len(B[0]) and all(x.v == y.v for p, q in zip(A_, B) for x, y in zip(p, q)):
                    return s_, U_, Vt_
            return None
        c.svd_hint = hint
    kn.append((A, s, U, tr(V)))
    return A, s, U, V
