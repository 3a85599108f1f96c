"""Algebraic value numbers for value-graph nodes (random interpretation over GF(p)).

A node's value number is its image under a random homomorphism from the real
expressions into GF(p), p = 2^61-1, extended with dual numbers for derivatives.
Ring/field axioms (commutativity, associativity, distributivity, cancellation)
therefore never distinguish two forms of the same value; two different rational
functions of total degree d collide with probability <= d/p per sample.

  sqrt / fabs     the quadratic-residue root: multiplicative, sqrt(x)^2 = x,
                  sqrt(x*x) = fabs(x) = +-x
  a < b           "b-a is a quadratic residue" (-1 is a non-residue, residues are
                  closed under products), or decided by the obligation's gate policy
  sin,cos,atan2.. an angle table with sin^2+cos^2=1, double/half and sum formulas
  anything else   an uninterpreted function of its argument value numbers
"""
import hashlib, random
from fractions import Fraction

P = (1 << 61) - 1


class Resample(Exception):
    pass


class UndefUse(Exception):
    def __init__(self, tag):
        self.tag = tag


class NotInterpreted(Exception):
    pass


def inv(x):
    x %= P
    if x == 0:
        raise Resample("division by zero")
    return pow(x, P - 2, P)


def is_qr(x):
    x %= P
    return x == 0 or pow(x, (P - 1) // 2, P) == 1


def root(x):
    x %= P
    if x == 0:
        return 0
    r = pow(x, (P + 1) // 4, P)
    if r * r % P != x:
        raise Resample("non residue")
    return r


def H(*a):
    h = hashlib.blake2b(repr(a).encode(), digest_size=16).digest()
    return int.from_bytes(h, "little") % P


class N:
    """field element with a vector of partial derivatives"""
    __slots__ = ("v", "d", "c")

    def __init__(self, v, d=None, c=None):
        self.v = v % P
        self.d = d
        self.c = c

    def _co(self, o):
        if isinstance(o, N):
            return o
        if isinstance(o, Fraction):
            return N(o.numerator * inv(o.denominator), None, self.c)
        if isinstance(o, int):
            return N(o, None, self.c)
        if isinstance(o, float):
            return self._co(Fraction(repr(o)))
        raise TypeError(o)

    def __add__(self, o):
        o = self._co(o)
        return N(self.v + o.v, _dadd(self.d, o.d), self.c or o.c)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._co(o)
        return N(self.v - o.v, _dadd(self.d, _dscale(o.d, P - 1)), self.c or o.c)

    def __rsub__(self, o):
        return self._co(o) - self

    def __neg__(self):
        return N(-self.v, _dscale(self.d, P - 1), self.c)

    def __mul__(self, o):
        o = self._co(o)
        return N(self.v * o.v, _dadd(_dscale(self.d, o.v), _dscale(o.d, self.v)), self.c or o.c)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        i = inv(o.v)
        q = self.v * i % P
        return N(q, _dadd(_dscale(self.d, i), _dscale(o.d, (P - q) * i % P)), self.c or o.c)

    def __rtruediv__(self, o):
        return self._co(o) / self

    def __pow__(self, k):
        r = N(1, None, self.c)
        for _ in range(k):
            r = r * self
        return r

    def __eq__(self, o):
        return self.v == self._co(o).v

    __hash__ = None

    def chain(self, v, dv):
        return N(v, _dscale(self.d, dv % P), self.c)


def _dadd(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return [(x + y) % P for x, y in zip(a, b)]


def _dscale(a, s):
    if a is None or s == 0:
        return None
    return [x * s % P for x in a]


class Ctx:
    """one sample point: variable assignment, angle table, gate policy"""

    free_sqrt = False

    def __init__(self, rng, gate=None, nd=0):
        self.rng = rng
        self.nd = nd
        self.gate = gate
        self.ang = {}
        self.inv = {}
        self.logs = {}
        self.vars = {}
        self.memo = {}
        self.salt = rng.getrandbits(64)
        self.unint = set()
        self.coins = {}
        self.coin = False
        pi = self.rnd()
        self.pi = N(pi, None, self)
        h = inv(2)
        self.reg(pi * h, 1, 0)
        self.reg(pi, 0, P - 1)
        self.reg(-pi * h, P - 1, 0)
        self.reg(pi * 2, 0, 1, False)
        self.nohalf = {0}
        self.reg(0, 0, 1)
        self.vars["$pi"] = self.pi

    def rnd(self):
        return self.rng.randrange(2, P)

    def N(self, v, d=None):
        if isinstance(v, Fraction):
            v = v.numerator * inv(v.denominator)
        return N(v, d, self)

    def var(self, k=None):
        d = None
        if k is not None:
            d = [0] * self.nd
            d[k] = 1
        return N(self.rnd(), d, self)

    # ---- angles
    def reg(self, v, s, c, invert=True):
        v %= P
        s %= P
        c %= P
        self.ang[v] = (s, c)
        if invert and (s, c) not in self.inv:
            self.inv[(s, c)] = v

    def angle(self):
        """fresh angle value whose half is registered too"""
        v = self.rnd()
        self._freshang(v)
        return N(v, None, self)

    def _freshang(self, v, t=None):
        v %= P
        t = t or H(self.salt, "ang", v) or 3
        i = inv(1 + t * t)
        s2, c2 = 2 * t * i % P, (1 - t * t) * i % P
        h = v * inv(2) % P
        if h not in self.ang:
            self.reg(h, s2, c2)
            self.reg(-h, -s2, c2)
        self.reg(v, 2 * s2 * c2, c2 * c2 - s2 * s2)
        self.reg(-v, -2 * s2 * c2, c2 * c2 - s2 * s2)

    def _known(self, v, half=True):
        """sin/cos of v when it follows from the table by negation, doubling or halving"""
        v %= P
        if v in self.ang:
            return self.ang[v]
        if (-v) % P in self.ang:
            s, c = self.ang[(-v) % P]
            return (-s % P, c)
        h = v * inv(2) % P
        if h in self.ang:
            s, c = self.ang[h]
            r = (2 * s * c % P, (c * c - s * s) % P)
            self.reg(v, *r)
            return r
        d = 2 * v % P
        if half and d in self.ang and d not in self.nohalf:
            s, c = self.ang[d]          # principal values lie in (-pi, pi]: the half angle has a non-negative cosine
            ch = root((1 + c) * inv(2))
            r = (s * inv(2 * ch) % P, ch)
            self.reg(v, *r)
            return r
        return None

    def sincos(self, v):
        v %= P
        r = self._known(v)
        if r is not None:
            return r
        keys = list(self.ang)
        if len(keys) <= 256:
            for a in keys:
                if a == 0:
                    continue
                q = self._known(v - a)
                if q is not None:
                    s1, c1 = self.ang[a]
                    s2, c2 = q
                    r = ((s1 * c2 + c1 * s2) % P, (c1 * c2 - s1 * s2) % P)
                    self.reg(v, *r)
                    return r
        self._freshang(v)
        return self.ang[v]

    def angle_of(self, s, c):
        s %= P
        c %= P
        if (s, c) in self.inv:
            return self.inv[(s, c)]
        if ((-s) % P, c) in self.inv:
            return -self.inv[((-s) % P, c)] % P
        v = H(self.salt, "atan", s, c)
        self.reg(v, s, c)
        self.reg(-v, -s, c)
        return v

    def sin(self, x):
        s, c = self.sincos(x.v)
        return x.chain(s, c)

    def cos(self, x):
        s, c = self.sincos(x.v)
        return x.chain(c, -s)

    def tan(self, x):
        return self.sin(x) / self.cos(x)

    def sqrt(self, x):
        if self.free_sqrt and not is_qr(x.v):
            r = H(self.salt, "sqrt", x.v)     # uninterpreted: only congruence is used
        else:
            r = root(x.v)
        if x.d is None or not any(x.d):
            return N(r, None, self)
        return x.chain(r, inv(2 * r))

    def fabs(self, x):
        return x if is_qr(x.v) else -x

    def atan2(self, y, x):
        r = root(x.v * x.v + y.v * y.v)
        i = inv(r)
        v = self.angle_of(y.v * i, x.v * i)
        i2 = i * i % P
        return N(v, _dadd(_dscale(y.d, x.v * i2 % P), _dscale(x.d, (P - y.v) * i2 % P)), self)

    def acos(self, x):
        s = root(1 - x.v * x.v)
        v = self.angle_of(s, x.v)
        return x.chain(v, -inv(s)) if x.d else N(v, None, self)

    def asin(self, x):
        c = root(1 - x.v * x.v)
        v = self.angle_of(x.v, c)
        return x.chain(v, inv(c)) if x.d else N(v, None, self)

    def atan(self, x):
        return self.atan2(x, self.N(1))

    def exp(self, x):
        if x.v == 0:
            return x.chain(1, 1)
        v = self.logs.get(("e", x.v))
        if v is None:
            v = H(self.salt, "exp", x.v)
            v = v * v % P
            self.logs[("e", x.v)] = v
            self.logs[("l", v)] = x.v
        return x.chain(v, v)

    def log(self, x):
        if x.v == 1:
            return x.chain(0, 1)
        v = self.logs.get(("l", x.v))
        if v is None:
            v = H(self.salt, "log", x.v)
            self.logs[("l", x.v)] = v
            self.logs[("e", v)] = x.v
        return x.chain(v, inv(x.v)) if x.d else N(v, None, self)

    # ---- graph evaluation
    def ev(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            if isinstance(r, Exception):
                raise r
            return r
        # iterative post-order to keep Python's stack shallow
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            if x.op == "ite":
                c = self.cond(x.args[0])
                ch = x.args[1] if c else x.args[2]
                m = self.memo.get(ch.id)
                if m is None:
                    stack.append(ch)
                    continue
                self.memo[x.id] = m
                stack.pop()
                continue
            todo = [a for a in x.args if hasattr(a, "op") and a.id not in self.memo and not _iscond(a)]
            if todo:
                stack.extend(todo)
                continue
            self.memo[x.id] = self.ev1(x)
            stack.pop()
        r = self.memo[n.id]
        return r

    def ev1(self, x):
        op = x.op
        A = [self.memo[a.id] if hasattr(a, "op") and not _iscond(a) else a for a in x.args]
        if op == "const":
            return self.N(A[0])
        if op == "var" and A[0] == "$nan":
            raise UndefUse("not a number")
        if op == "var":
            nm = A[0]
            v = self.vars.get(nm)
            if v is None:
                v = N(H(self.salt, "var", nm), None, self)
                self.vars[nm] = v
            return v
        if op == "add":
            return A[0] + A[1]
        if op == "sub":
            return A[0] - A[1]
        if op == "mul":
            return A[0] * A[1]
        if op == "div":
            return A[0] / A[1]
        if op.startswith("fn:"):
            f = op[3:]
            if f in ("sqrt", "sin", "cos", "tan", "acos", "asin", "atan", "exp", "log", "fabs"):
                return getattr(self, f)(A[0])
            if f == "atan2":
                return self.atan2(A[0], A[1])
            if f == "pow":
                return self.exp(A[1] * self.log(A[0]))
            if f == "uitofp" and hasattr(x.args[0], "op") and x.args[0].op == "isub" and hasattr(x.args[0].args[1], "op"):
                # the difference of two unknown integers may be negative, taken as unsigned it is no difference
                return self.N(H(self.salt, "uwrap", A[0].v))
            if f in ("sitofp", "uitofp"):
                return A[0]
        if op.startswith("mx:"):
            return EV_MX(self, op, A)
        if op == "undef":
            raise UndefUse(str(A[0]))
        if op == "ic":
            return self.N(A[0] if A[0] < (1 << 63) else A[0] - (1 << 64))
        if op in ("iadd", "isub", "imul"):
            # known integers count modulo 2^w, everything else as an unbounded integer
            k = [_wrap(v.v, A[2]) for v in A[:2]]
            w, A = A[2], [v if i is None else self.N(i) for v, i in zip(A, k)]
            r = A[0] + A[1] if op == "iadd" else A[0] - A[1] if op == "isub" else A[0] * A[1]
            k = None in k or _wrap(r.v, w)
            return r if k is True or k is None else self.N(k)
        if op in ("zext", "sext"):
            return A[0]
        if op in ("iudiv", "iurem") and isinstance(A[0], N) and isinstance(A[1], N):
            d = N(H(self.salt, "iudiv", A[0].v, A[1].v), None, self)
            return d if op == "iudiv" else A[0] - A[1] * d
        if op in ("fptosi", "fptoui") and A[0].v == 0:
            return self.N(0)
        # uninterpreted
        k = []
        for a in A:
            if isinstance(a, N):
                k.append(a.v)
            elif hasattr(a, "op"):
                k.append(self.cond(a))
            else:
                k.append(a)
        self.unint.add(op)
        return N(H(self.salt, op, *k), None, self)

    def cond(self, c):
        key = ("c", c.id)
        r = self.memo.get(key)
        if r is None:
            self.coin = False
            r = self.cond1(c)
            if self.coin:       # decided by the fingerprint, not by the domain: both outcomes are wanted
                self.coins[c.id] = r
                self.coin = False
            self.memo[key] = r
        return r

    def cond1(self, c):
        op = c.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not self.cond(c.args[0])
        if op == "and":
            return self.cond(c.args[0]) and self.cond(c.args[1])
        if op == "ite":
            return self.cond(c.args[1]) if self.cond(c.args[0]) else self.cond(c.args[2])
        if self.gate:
            g = self.gate(self, c)
            if g is not None:
                return g
        if op == "flt":
            a, b = self.ev(c.args[0]), self.ev(c.args[1])
            d = (b.v - a.v) % P
            self.coin = d != 0 and not _small(d)
            return d != 0 and is_qr(d)
        if op == "feq":
            return self.ev(c.args[0]).v == self.ev(c.args[1]).v
        if op == "icmp" and c.args[0] == "eq":
            return self.ev(c.args[1]).v == self.ev(c.args[2]).v
        if op == "icmp" and c.args[0] in ("slt", "ult"):
            # two known integers compare as such, anything else by a fixed arbitrary order
            p, q = (_wrap(self.ev(n).v, c.args[3]) for n in c.args[1:3])
            if p is not None and q is not None:
                return p < q if c.args[0] == "slt" or (p < 0) == (q < 0) else q < 0
            d = (self.ev(c.args[2]).v - self.ev(c.args[1]).v) % P
            self.coin = d != 0
            return d != 0 and bool(H(self.salt, c.args[0], d) & 1)
        if op == "icmp":
            return bool(H(self.salt, "icmp", c.args[0], self.ev(c.args[1]).v, self.ev(c.args[2]).v) & 1)
        if op == "bvar":
            return bool(H(self.salt, "bvar", self.ev(c.args[0]).v) & 1)
        raise NotInterpreted(op)


def _small(d):
    return d < 1 << 40 or P - d < 1 << 40


EV_MX = None


def _wrap(v, w):
    """the signed value of a known integer of w bits, or None"""
    v = v if v < 1 << 40 else v - P if P - v < 1 << 40 else None
    if v is None:
        return None
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


_COND = {"true", "false", "not", "and", "flt", "feq", "icmp", "bvar"}


def _iscond(n):
    return n.op in _COND
