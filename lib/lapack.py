"""Contracts of the BLAS/LAPACK routines the library calls, as models over value graphs.

The routines themselves are trusted (reference LAPACK semantics); what the library passes to them and what it does with
the results is analysed.  Level-3 BLAS is expanded into arithmetic nodes.  Factorisations and solvers become nodes
"mx:<name>" whose meaning is evaluated exactly over the value domain (see MX below)."""
import vg, fp
from vg import mk, Ptr, const, add, sub, neg
from fp import N, P, H, Resample, is_qr

mul_ = vg.mul_


class Call:
    __slots__ = ("name", "mats", "ints", "loc", "cond")

    def __init__(s, name, mats, ints, loc, cond):
        s.name, s.mats, s.ints, s.loc, s.cond = name, mats, ints, loc, cond


def _int(e, mem, p):
    v = e.load(mem, p, 4, "i32")
    if isinstance(v, vg.Node) and v.op == "ic":
        v = v.args[0]
    if not isinstance(v, int):
        raise vg.Unsupported("symbolic LAPACK dimension %r" % (v,))
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def _chr(e, mem, p):
    v = e.load(mem, p, 1, "i8")
    return chr(v & 255)


class LA:
    """handlers for one analysis; info = {routine: value} overrides the success indicator"""

    def __init__(self, info=None, piv=None):
        self.info = info or {}
        self.piv = piv
        self.calls = []

    def handlers(self):
        h = {}
        for nm in ("potrf", "potri", "getrf", "getri", "symm", "syrk", "gemm", "trsm", "gesvd", "gels", "gelss", "syev", "posv", "gesv", "gerq2", "orgr2",
                   "axpy", "copy", "dot", "nrm2", "scal", "gemv"):
            f = getattr(self, nm, None)
            if f is None:
                continue
            for t, es in (("d", 8), ("s", 4)):
                h[t + nm + "_"] = self.wrap(nm, f, es)
        return h

    def wrap(self, nm, f, es):
        def hh(e, ins, name, args, mem):
            self.es = es
            self.e = e
            self.mem = mem
            self.ft = "double" if es == 8 else "float"
            r = f(*args)
            return ("ok", r, mem)
        return hh

    # ---- access
    def I(self, p):
        return _int(self.e, self.mem, p)

    def C(self, p):
        return _chr(self.e, self.mem, p).upper()

    def F(self, p):
        return self.e.load(self.mem, p, self.es, self.ft)

    def get(self, p, m, n, ld, tri=None):
        o = []
        for i in range(m):
            r = []
            for j in range(n):
                a, b = i, j
                if tri == "U" and i > j or tri == "L" and i < j:
                    a, b = j, i
                r.append(self.e.load(self.mem, vg.padd(p, self.es * (a + b * ld)), self.es, self.ft))
            o.append(r)
        return o

    def put(self, p, M, ld, tri=None):
        for i, r in enumerate(M):
            for j, v in enumerate(r):
                if tri == "U" and i > j or tri == "L" and i < j:
                    continue
                self.e.store(self.mem, vg.padd(p, self.es * (i + j * ld)), v, self.es)

    def setinfo(self, nm, p):
        v = self.info if isinstance(self.info, int) else self.info.get(nm, 0)
        self.e.store(self.mem, p, v & 0xffffffff, 4)
        return v

    def log(self, nm, mats, ints=()):
        self.calls.append(Call(nm, mats, ints, self.e.curloc, None))

    def opaque(self, nm, m, n, ent):
        return [[mk("mxo:" + nm, i, j, *ent) for j in range(n)] for i in range(m)]

    def fun(self, nm, m, n, ints, ent, base=0):
        return [[mk("mx:" + nm, base + i * n + j, tuple(ints), *ent) for j in range(n)] for i in range(m)]

    def wsquery(self, work, lwork):
        if self.I(lwork) == -1:
            self.e.store(self.mem, work, const(64.0), self.es)
            return True
        return False

    # ---- level 3
    def mmul(self, A, B):
        return [[self.dotn(A[i], [B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]

    def dotn(self, a, b):
        s = const(0.0)
        for x, y in zip(a, b):
            s = add(s, mul_(x, y))
        return s

    def lin(self, al, X, be, C):
        z = be.op == "const" and be.args[0] == 0
        return [[mul_(al, X[i][j]) if z else add(mul_(al, X[i][j]), mul_(be, C[i][j])) for j in range(len(X[0]))] for i in range(len(X))]

    def _c(self, p, m, n, ld, be):
        if be.op == "const" and be.args[0] == 0:
            return None
        return self.get(p, m, n, ld)

    def symm(self, side, uplo, m, n, al, a, lda, b, ldb, be, c, ldc, *_):
        m, n, lda, ldb, ldc = map(self.I, (m, n, lda, ldb, ldc))
        k = m if self.C(side) == "L" else n
        A = self.get(a, k, k, lda, self.C(uplo))
        B = self.get(b, m, n, ldb)
        X = self.mmul(A, B) if self.C(side) == "L" else self.mmul(B, A)
        al, be = self.F(al), self.F(be)
        self.put(c, self.lin(al, X, be, self._c(c, m, n, ldc, be)), ldc)

    def gemm(self, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc, *_):
        m, n, k, lda, ldb, ldc = map(self.I, (m, n, k, lda, ldb, ldc))
        A = self.get(a, m, k, lda) if self.C(ta) == "N" else [list(r) for r in zip(*self.get(a, k, m, lda))]
        B = self.get(b, k, n, ldb) if self.C(tb) == "N" else [list(r) for r in zip(*self.get(b, n, k, ldb))]
        al, be = self.F(al), self.F(be)
        self.put(c, self.lin(al, self.mmul(A, B), be, self._c(c, m, n, ldc, be)), ldc)

    def syrk(self, uplo, trans, n, k, al, a, lda, be, c, ldc, *_):
        n, k, lda, ldc = map(self.I, (n, k, lda, ldc))
        A = self.get(a, n, k, lda) if self.C(trans) == "N" else [list(r) for r in zip(*self.get(a, k, n, lda))]
        X = self.mmul(A, [list(r) for r in zip(*A)])
        al, be = self.F(al), self.F(be)
        u = self.C(uplo)
        C = None if be.op == "const" and be.args[0] == 0 else self.get(c, n, n, ldc)
        Y = self.lin(al, X, be, C)
        self.put(c, Y, ldc, u)

    def trsm(self, side, uplo, ta, diag, m, n, al, a, lda, b, ldb, *_):
        m, n, lda, ldb = map(self.I, (m, n, lda, ldb))
        side, uplo, ta, diag = map(self.C, (side, uplo, ta, diag))
        k = m if side == "L" else n
        A = self.get(a, k, k, lda)
        z = const(0.0)
        for i in range(k):
            for j in range(k):
                if uplo == "U" and i > j or uplo == "L" and i < j:
                    A[i][j] = z
            if diag == "U":
                A[i][i] = const(1.0)
        if ta != "N":
            A = [list(r) for r in zip(*A)]
            uplo = "L" if uplo == "U" else "U"
        B = self.get(b, m, n, ldb)
        al = self.F(al)
        B = [[mul_(al, v) for v in r] for r in B]
        if side == "R":      # X A = B  <=>  A^T X^T = B^T
            A = [list(r) for r in zip(*A)]
            uplo = "L" if uplo == "U" else "U"
            B = [list(r) for r in zip(*B)]
        nn, mm_ = len(B[0]), len(B)
        X = [[None] * nn for _ in range(mm_)]
        order = range(mm_) if uplo == "L" else range(mm_ - 1, -1, -1)
        for j in range(nn):
            for i in order:
                s = B[i][j]
                for q in range(mm_):
                    if X[q][j] is not None and q != i:
                        s = sub(s, mul_(A[i][q], X[q][j]))
                X[i][j] = vg.div(s, A[i][i])
        if side == "R":
            X = [list(r) for r in zip(*X)]
        self.put(b, X, ldb)

    # ---- factorisations
    def flat(self, M):
        return [v for r in M for v in r]

    def potrf(self, uplo, n, a, lda, info, *_):
        n, lda = self.I(n), self.I(lda)
        u = self.C(uplo)
        A = self.get(a, n, n, lda, u)
        self.log("potrf", [A])
        self.setinfo("potrf", info)
        self.put(a, self.opaque("potrf" + u + ("!" if self.info.get("potrf") else ""), n, n, self.flat(A)), lda, u)

    def pair(self, X, tag, n):
        """entries of a factor produced by `tag` -> the factored matrix"""
        ent = None
        for i in range(n):
            for j in range(n):
                v = X[i][j]
                if v.op != "mxo:" + tag or v.args[0] != i or v.args[1] != j:
                    return None
                if ent is None:
                    ent = v.args[2:]
                elif ent != v.args[2:]:
                    return None
        return list(ent)

    def potri(self, uplo, n, a, lda, info, *_):
        n, lda = self.I(n), self.I(lda)
        u = self.C(uplo)
        X = self.get(a, n, n, lda)
        for i in range(n):
            for j in range(n):
                if u == "U" and i > j or u == "L" and i < j:
                    v = X[j][i]
                    X[i][j] = mk(v.op, i, j, *v.args[2:]) if v.op.startswith("mxo:") else v
        ent = self.pair(X, "potrf" + u, n)
        self.setinfo("potri", info)
        M = self.fun("inv", n, n, (n,), ent) if ent else self.opaque("potri", n, n, self.flat(X))
        self.put(a, M, lda, u)

    def getrf(self, m, n, a, lda, ipiv, info, *_):
        m, n, lda = map(self.I, (m, n, lda))
        A = self.get(a, m, n, lda)
        self.log("getrf", [A])
        self.setinfo("getrf", info)
        pv = self.piv if self.piv is not None and len(self.piv) == n and m == n else list(range(1, min(m, n) + 1))
        self.put(a, self.fun("lu", m, n, (m, n) + tuple(pv), self.flat(A)), lda)
        for k in range(min(m, n)):
            self.e.store(self.mem, vg.padd(ipiv, 4 * k), pv[k], 4)

    def getri(self, n, a, lda, ipiv, work, lwork, info, *_):
        if self.wsquery(work, lwork):
            self.e.store(self.mem, info, 0, 4)
            return
        n, lda = self.I(n), self.I(lda)
        X = self.get(a, n, n, lda)
        x0 = X[0][0]
        ent = None
        if x0.op == "mx:lu" and x0.args[1][:2] == (n, n):
            ent = list(x0.args[2:])
            for i in range(n):
                if self.I(vg.padd(ipiv, 4 * i)) != x0.args[1][2 + i]:
                    ent = None
                    break
                for j in range(n):
                    if X[i][j].op != "mx:lu" or X[i][j].args != (i * n + j,) + x0.args[1:]:
                        ent = None
                        break
                if ent is None:
                    break
        self.setinfo("getri", info)
        self.put(a, self.fun("inv", n, n, (n,), ent) if ent else self.opaque("getri", n, n, self.flat(X)), lda)

    def posv(self, uplo, n, nrhs, a, lda, b, ldb, info, *_):
        n, nrhs, lda, ldb = map(self.I, (n, nrhs, lda, ldb))
        u = self.C(uplo)
        A = self.get(a, n, n, lda, u)
        B = self.get(b, n, nrhs, ldb)
        self.log("posv", [A, B])
        bad = self.setinfo("posv", info)
        self.put(a, self.opaque("posvA", n, n, self.flat(A)), lda, u)
        if not bad:
            self.put(b, self.fun("solve", n, nrhs, (n, nrhs), self.flat(A) + self.flat(B)), ldb)

    def gesv(self, n, nrhs, a, lda, ipiv, b, ldb, info, *_):
        n, nrhs, lda, ldb = map(self.I, (n, nrhs, lda, ldb))
        A = self.get(a, n, n, lda)
        B = self.get(b, n, nrhs, ldb)
        self.log("gesv", [A, B])
        bad = self.setinfo("gesv", info)
        self.put(a, self.opaque("gesvA", n, n, self.flat(A)), lda)
        self.put(b, self.opaque("gesv!", n, nrhs, self.flat(A)) if bad else self.fun("solve", n, nrhs, (n, nrhs), self.flat(A) + self.flat(B)), ldb)

    def gels(self, trans, m, n, nrhs, a, lda, b, ldb, work, lwork, info, *_):
        if self.wsquery(work, lwork):
            self.e.store(self.mem, info, 0, 4)
            return
        m, n, nrhs, lda, ldb = map(self.I, (m, n, nrhs, lda, ldb))
        if self.C(trans) != "N":
            raise vg.Unsupported("gels 'T'")
        A = self.get(a, m, n, lda)
        B = self.get(b, m, nrhs, ldb)
        self.log("gels", [A, B])
        bad = self.setinfo("gels", info)
        ent = self.flat(A) + self.flat(B)
        if not bad:
            self.put(b, self.fun("lsq", n, nrhs, (m, n, nrhs), ent), ldb)
            if m > n:
                self.put(vg.padd(b, self.es * n), self.opaque("gelsres", m - n, nrhs, ent), ldb)
        self.put(a, self.opaque("gelsA", m, n, ent), lda)

    def gelss(self, m, n, nrhs, a, lda, b, ldb, s, rcond, rank, work, lwork, info, *_):
        if self.wsquery(work, lwork):
            self.e.store(self.mem, info, 0, 4)
            return
        m, n, nrhs, lda, ldb = map(self.I, (m, n, nrhs, lda, ldb))
        A = self.get(a, m, n, lda)
        B = self.get(b, m, nrhs, ldb)
        self.log("gelss", [A, B])
        bad = self.setinfo("gelss", info)
        ent = self.flat(A) + self.flat(B)
        if not bad:
            self.put(b, self.fun("lsq", n, nrhs, (m, n, nrhs), ent), ldb)
        self.put(a, self.opaque("gelssA", m, n, ent), lda)
        for k in range(min(m, n)):
            self.e.store(self.mem, vg.padd(s, self.es * k), mk("mxo:gelssS", k, 0, *ent), self.es)
        self.e.store(self.mem, rank, n, 4)

    def gesvd(self, ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, info, *_):
        if self.wsquery(work, lwork):
            self.e.store(self.mem, info, 0, 4)
            return
        ju, jv = self.C(ju), self.C(jv)
        m, n, lda, ldu, ldvt = map(self.I, (m, n, lda, ldu, ldvt))
        A = self.get(a, m, n, lda)
        self.log("gesvd", [A], (ju, jv, m, n))
        bad = self.setinfo("gesvd", info)
        ent = self.flat(A)
        k = min(m, n)
        if bad:
            fun = lambda nm, r, c, ii, en, base=0: self.opaque(nm + "!%d" % base, r, c, en)
        else:
            fun = self.fun
        S = fun("svd", 1, k, (m, n), ent, 0)[0]
        for q in range(k):
            self.e.store(self.mem, vg.padd(s, self.es * q), S[q], self.es)
        nu = {"A": m, "S": k, "O": k, "N": 0}[ju]
        nv = {"A": n, "S": k, "O": k, "N": 0}[jv]
        U = fun("svd", m, m, (m, n), ent, k)
        V = fun("svd", n, n, (m, n), ent, k + m * m)
        if ju in "AS":
            self.put(u, [r[:nu] for r in U], ldu)
        if jv in "AS":
            self.put(vt, V[:nv], ldvt)
        if ju == "O":
            self.put(a, [r[:k] for r in U], lda)
        elif jv == "O":
            self.put(a, V[:k], lda)
        else:
            self.put(a, self.opaque("gesvdA", m, n, ent), lda)

    def syev(self, jz, uplo, n, a, lda, w, work, lwork, info, *_):
        if self.wsquery(work, lwork):
            self.e.store(self.mem, info, 0, 4)
            return
        n, lda = self.I(n), self.I(lda)
        A = self.get(a, n, n, lda, self.C(uplo))
        self.log("syev", [A])
        bad = self.setinfo("syev", info)
        ent = self.flat(A)
        nm = "syev"
        if bad:
            W = self.opaque("syevW!", n, 1, ent)
            V = self.opaque("syev!", n, n, ent)
        else:
            W = [[x] for x in self.fun(nm, 1, n, (n,), ent, 0)[0]]
            V = self.fun(nm, n, n, (n,), ent, n)
        for q in range(n):
            self.e.store(self.mem, vg.padd(w, self.es * q), W[q][0], self.es)
        if self.C(jz) == "V":
            self.put(a, V, lda)
        else:
            self.put(a, self.opaque("syevA", n, n, ent), lda, self.C(uplo))

    def gerq2(self, m, n, a, lda, tau, work, info, *_):
        m, n, lda = map(self.I, (m, n, lda))
        A = self.get(a, m, n, lda)
        self.log("gerq2", [A])
        self.setinfo("gerq2", info)
        ent = self.flat(A)
        X = self.opaque("gerq2", m, n, ent)
        Rm = self.fun("rq", m, n, (m, n), ent, 0)
        d = n - m
        for i in range(m):
            for j in range(n):
                if i + d <= j:
                    X[i][j] = Rm[i][j]
        self.put(a, X, lda)
        for k in range(min(m, n)):
            self.e.store(self.mem, vg.padd(tau, self.es * k), mk("mxo:rqtau", k, 0, *ent), self.es)

    def orgr2(self, m, n, k, a, lda, tau, work, info, *_):
        m, n, k, lda = map(self.I, (m, n, k, lda))
        X = self.get(a, m, n, lda)
        T = [self.e.load(self.mem, vg.padd(tau, self.es * q), self.es, self.ft) for q in range(k)]
        ent = None
        ok = m == n == k
        d = n - m
        for q in range(k):
            if T[q].op != "mxo:rqtau" or T[q].args[0] != q:
                ok = False
                break
            if ent is None:
                ent = T[q].args[2:]
            ok = ok and ent == T[q].args[2:]
        for i in range(m):
            for j in range(n):
                if ok and i + d > j and (X[i][j].op != "mxo:gerq2" or X[i][j].args[:2] != (i, j) or X[i][j].args[2:] != ent):
                    ok = False
        self.setinfo("orgr2", info)
        self.put(a, self.fun("rq", m, n, (m, n), list(ent), m * n) if ok else self.opaque("orgr2", m, n, self.flat(X) + T), lda)


# ------------------------------------------------------------------ meaning of the mx nodes over the value domain
def _inv(v):
    return pow(v, P - 2, P)


def _solve(ctx, A, B):
    """Gaussian elimination, A square; Resample when singular"""
    n = len(A)
    A = [list(r) for r in A]
    B = [list(r) for r in B]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c].v % P), None)
        if p is None:
            raise Resample("singular system")
        A[c], A[p] = A[p], A[c]
        B[c], B[p] = B[p], B[c]
        d = A[c][c]
        A[c] = [x / d for x in A[c]]
        B[c] = [x / d for x in B[c]]
        for r in range(n):
            if r != c and (A[r][c].v % P or A[r][c].d):
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
                B[r] = [x - f * y for x, y in zip(B[r], B[c])]
    return B


def _mat(e, m, n):
    return [list(e[i * n:(i + 1) * n]) for i in range(m)]


def _T(A):
    return [list(r) for r in zip(*A)]


def _mm(A, B):
    return [[_dot(A[i], [B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]


def _dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        s = s + x * y
    return s


def nullspace(A):
    """basis of the right null space over the field (values only); list of vectors of ints"""
    M = [[x.v % P for x in r] for r in A]
    n = len(M[0])
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(M)) if M[i][c]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = _inv(M[r][c])
        M[r] = [x * iv % P for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c]:
                f = M[i][c]
                M[i] = [(x - f * y) % P for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == len(M):
            break
    out = []
    for c in range(n):
        if c in piv:
            continue
        v = [0] * n
        v[c] = 1
        for k, pc in enumerate(piv):
            v[pc] = (P - M[k][c]) % P
        out.append(v)
    return out


def mx_inv(ctx, ints, ent):
    n = ints[0]
    I = [[ctx.N(1 if i == j else 0) for j in range(n)] for i in range(n)]
    return [x for r in _solve(ctx, _mat(ent, n, n), I) for x in r]


def mx_lu(ctx, ints, ent):
    """P A = L U for the row interchanges ints[2:], packed as LAPACK does"""
    m, n = ints[:2]
    A = _mat(ent, m, n)
    for k, p in enumerate(ints[2:]):
        A[k], A[p - 1] = A[p - 1], A[k]
    for k in range(min(m, n)):
        for i in range(k + 1, m):
            A[i][k] = A[i][k] / A[k][k]
            for j in range(k + 1, n):
                A[i][j] = A[i][j] - A[i][k] * A[k][j]
    return [x for r in A for x in r]


def mx_solve(ctx, ints, ent):
    n, k = ints
    return [x for r in _solve(ctx, _mat(ent[:n * n], n, n), _mat(ent[n * n:], n, k)) for x in r]


def mx_lsq(ctx, ints, ent):
    m, n, k = ints
    A = _mat(ent[:m * n], m, n)
    B = _mat(ent[m * n:], m, k)
    At = _T(A)
    if m >= n:
        X = _solve(ctx, _mm(At, A), _mm(At, B))
    else:
        X = _mm(At, _solve(ctx, _mm(A, At), B))
    return [x for r in X for x in r]


def unitv(ctx, v, key):
    """unit vector along v with an arbitrary (but fixed) sign"""
    s = sum(x * x for x in v) % P
    if s == 0 or not is_qr(s):
        raise Resample()
    r = ctx.sqrt(ctx.N(s)).v
    iv = _inv(r)
    sg = 1 if H(ctx.salt, "sign", key) & 1 else P - 1
    return [N(x * iv % P * sg % P, None, ctx) for x in v]


def poly_eig(ctx, A):
    """eigenvalues of a symmetric matrix when they all lie in the field, else Resample (n <= 4, by brute polynomial gcd)"""
    raise Resample()


def _charpoly(M):
    """Faddeev-LeVerrier: coefficients c[n..0] of det(xI - M)"""
    n = len(M)
    c = [1]
    Mk = [[0] * n for _ in range(n)]
    for k in range(1, n + 1):
        # Mk = M*Mk + c_{k-1} I
        new = [[sum(M[i][q] * Mk[q][j] for q in range(n)) % P for j in range(n)] for i in range(n)]
        for i in range(n):
            new[i][i] = (new[i][i] + c[-1]) % P
        Mk = new
        t = sum(sum(M[i][q] * Mk[q][i] for q in range(n)) for i in range(n)) % P
        c.append((P - t) * _inv(k) % P)
    return c       # c[0]=1 is the leading coefficient


def _pmod(a, b):
    a = list(a)
    ib = _inv(b[0])
    while len(a) >= len(b):
        if a[0]:
            f = a[0] * ib % P
            for k in range(len(b)):
                a[k] = (a[k] - f * b[k]) % P
        a.pop(0)
    while len(a) > 1 and a[0] == 0:
        a.pop(0)
    return a or [0]


def _pmul(a, b, m):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = (r[i + j] + x * y) % P
    return _pmod(r, m)


def _ppow(b, e, m):
    r = [1]
    while e:
        if e & 1:
            r = _pmul(r, b, m)
        b = _pmul(b, b, m)
        e >>= 1
    return r


def _pgcd(a, b):
    while not (len(b) == 1 and b[0] == 0):
        a, b = b, _pmod(a, b)
    iv = _inv(a[0])
    return [x * iv % P for x in a]


def roots(ctx, c):
    """all roots of the monic polynomial c in the field if it splits into distinct linear factors, else None"""
    while len(c) > 1 and c[0] == 0:
        c = c[1:]
    n = len(c) - 1
    if n == 0:
        return []
    if n == 1:
        return [(P - c[1]) * _inv(c[0]) % P]
    xp = _ppow([1, 0], P, c)
    d = [0] * max(2 - len(xp), 0) + xp
    d = list(d)
    d[-2] = (d[-2] - 1) % P if len(d) >= 2 else 0
    while len(d) > 1 and d[0] == 0:
        d.pop(0)
    if not (len(d) == 1 and d[0] == 0):
        return None

    def split(f):
        k = len(f) - 1
        if k == 0:
            return []
        if k == 1:
            return [(P - f[1]) * _inv(f[0]) % P]
        for t in range(1, 60):
            s = H(ctx.salt, "split", t, *f)
            g = _ppow([1, s], (P - 1) // 2, f)
            g = list(g)
            g[-1] = (g[-1] - 1) % P
            while len(g) > 1 and g[0] == 0:
                g.pop(0)
            if len(g) == 1 and g[0] == 0:
                continue
            h = _pgcd(f, g)
            if 1 < len(h) < len(f):
                q = []
                rem = list(f)
                ih = _inv(h[0])
                while len(rem) >= len(h):
                    ff = rem[0] * ih % P
                    q.append(ff)
                    for z in range(len(h)):
                        rem[z] = (rem[z] - ff * h[z]) % P
                    rem.pop(0)
                return split(h) + split(q)
        raise Resample()
    return split(c)


def eigsym(ctx, A, key):
    """orthonormal eigen-decomposition over the field (distinct eigenvalues, all in the field), else Resample"""
    M = [[x.v % P for x in r] for r in A]
    n = len(M)
    rt = roots(ctx, _charpoly(M))
    if rt is None or len(set(rt)) != n:
        raise Resample()
    rt = sorted(rt)
    vs = []
    for l in rt:
        B = [[N((M[i][j] - (l if i == j else 0)) % P, None, ctx) for j in range(n)] for i in range(n)]
        ns = nullspace(B)
        if len(ns) != 1:
            raise Resample()
        vs.append(unitv(ctx, ns[0], (key, l)))
    return rt, vs


def mx_svd(ctx, ints, ent):
    """outputs: s (min(m,n)), U (m*m), Vt (n*n).  Exact contracts used: if the null space of A is one-dimensional and
    n<=m or n==m+1, the last row of Vt spans it.  If ctx.full_svd, A = U S Vt with orthogonal U, Vt (square A)."""
    m, n = ints
    A = _mat(ent, m, n)
    k = min(m, n)
    ks = [e.v for e in ent]
    hv = lambda *t: N(H(ctx.salt, "svd", t, *ks), None, ctx)
    hint = getattr(ctx, "svd_hint", None)
    if hint is not None:
        got = hint(ctx, A)
        if got is not None:
            s, U, Vt = got
            return list(s) + [x for r in U for x in r] + [x for r in Vt for x in r]
    fs = getattr(ctx, "full_svd", False)
    if fs and m == n and (fs is True or fs == n):
        AtA = _mm(_T(A), A)
        ns = nullspace(A)
        if len(ns) > 1:
            return [hv(q) for q in range(k + m * m + n * n)]
        rt, vs = eigsym(ctx, AtA, "svd")
        order = [i for i in range(n) if rt[i]] + [i for i in range(n) if not rt[i]]
        s, V, U = [], [], []
        for i in order:
            V.append(vs[i])
            if rt[i]:
                if not is_qr(rt[i]):
                    raise Resample()
                sv = ctx.sqrt(ctx.N(rt[i]))
                s.append(sv)
                U.append([x / sv for x in [_dot(r, vs[i]) for r in A]])
            else:
                s.append(ctx.N(0))
                l = nullspace(_T(A))
                U.append(unitv(ctx, l[0], "svdU"))
        return s + [U[j][i] for i in range(m) for j in range(m)] + [x for r in V for x in r]
    S = [hv("s", q) for q in range(k)]
    U = [hv("u", q) for q in range(m * m)]
    V = [hv("v", q) for q in range(n * n)]
    ns = nullspace(A)
    if len(ns) == 1:
        V[n * (n - 1):] = unitv(ctx, ns[0], tuple(ks))
        if m >= n:
            S[-1] = ctx.N(0)
    return S + U + V


def mx_syev(ctx, ints, ent):
    n = ints[0]
    A = _mat(ent, n, n)
    ks = [e.v for e in ent]
    hv = lambda *t: N(H(ctx.salt, "syev", t, *ks), None, ctx)
    if getattr(ctx, "full_syev", False):
        rt, vs = eigsym(ctx, A, "syev")
        return [ctx.N(l) for l in rt] + [vs[j][i] for i in range(n) for j in range(n)]
    W = [hv("w", q) for q in range(n)]
    V = [[hv("v", i, j) for j in range(n)] for i in range(n)]
    # hints: (position, vector): if it is an eigenvector of A, it occupies that column (with an arbitrary sign)
    for pos, vec in getattr(ctx, "eig_hint", ()):
        w = [_dot(r, vec) for r in A]
        q = next((i for i in range(n) if vec[i].v), None)
        if q is None:
            continue
        lam = w[q] / vec[q]
        if all((w[i].v - (lam * vec[i]).v) % P == 0 for i in range(n)):
            u = unitv(ctx, [x.v for x in vec], ("syev", pos) + tuple(ks))
            W[pos] = lam
            for i in range(n):
                V[i][pos] = u[i]
    return W + [V[i][j] for i in range(n) for j in range(n)]


def mx_rq(ctx, ints, ent):
    """outputs: R (m*n), Q (m*n) for square A = R Q; row signs arbitrary"""
    m, n = ints
    A = _mat(ent, m, n)
    ks = [e.v for e in ent]
    Q = [None] * n
    Rm = [[ctx.N(0)] * n for _ in range(m)]
    for i in range(m - 1, -1, -1):
        v = list(A[i])
        for j in range(i + 1, n):
            c = _dot(A[i], Q[j])
            Rm[i][j] = c
            v = [x - c * y for x, y in zip(v, Q[j])]
        u = unitv(ctx, [x.v for x in v], ("rq", i) + tuple(ks))
        Q[i] = u
        Rm[i][i] = _dot(A[i], u)
    return [x for r in Rm for x in r] + [x for r in Q for x in r]


MX = {"lu": mx_lu, "inv": mx_inv, "solve": mx_solve, "lsq": mx_lsq, "svd": mx_svd, "syev": mx_syev, "rq": mx_rq}


def ev_mx(ctx, op, A):
    name = op[3:]
    k, ints, ent = A[0], A[1], A[2:]
    key = ("mx", name, ints, tuple((e.v, tuple(e.d) if e.d else None) for e in ent))
    r = ctx.memo.get(key)
    if r is None:
        r = MX[name](ctx, ints, list(ent))
        ctx.memo[key] = r
    return r[k]


fp.EV_MX = ev_mx
