"""specification-side algebra over value numbers (fp.N)"""
from fp import N, Ctx, P, Resample


def free(ctx, n):
    return [ctx.var() for _ in range(n)]


def unitq(ctx, wpos=False):
    """random unit quaternion (x,y,z,w): p*p/|p|^2 covers every rotation rationally"""
    p = free(ctx, 4)
    q = qmul(p, p)
    n = sum((a * a for a in p), ctx.N(0))
    return [a / n for a in q]


def qmul(a, b):
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return [aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw,
            aw * bw - ax * bx - ay * by - az * bz]


def qconj(a):
    return [-a[0], -a[1], -a[2], a[3]]


def qrot(q, v):
    """q v q* / |q|^2  (q need not be normalised)"""
    z = v[0] - v[0]
    n = dot(q, q)
    r = qmul(qmul(q, list(v) + [z]), qconj(q))
    return [a / n for a in r[:3]]


def R(q):
    """3x3 rotation matrix of a quaternion (row lists), normalising"""
    z = q[0] - q[0]
    o = z + 1
    cols = [qrot(q, e) for e in ([o, z, z], [z, o, z], [z, z, o])]
    return [[cols[c][r] for c in range(3)] for r in range(3)]


def flat(m):
    return [x for r in m for x in r]


def rows(x, m, n):
    return [list(x[r * n:(r + 1) * n]) for r in range(m)]


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), a[0][0] - a[0][0]) for j in range(len(b[0]))] for i in range(len(a))]


def mv(a, v):
    return [sum((a[i][k] * v[k] for k in range(len(v))), v[0] - v[0]) for i in range(len(a))]


def tr(a):
    return [list(c) for c in zip(*a)]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), a[0] - a[0])


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def smul(s, a):
    return [s * x for x in a]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def det(m):
    if len(m) == 1:
        return m[0][0]
    s = m[0][0] - m[0][0]
    for j in range(len(m)):
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        t = m[0][j] * det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def eye(ctx, n):
    return [[ctx.N(1 if i == j else 0) for j in range(n)] for i in range(n)]


def pose(ctx):
    return unitq(ctx) + free(ctx, 3)


def pmat(p):
    """4x4 homogeneous matrix of pose p = (qx,qy,qz,qw,tx,ty,tz)"""
    z = p[0] - p[0]
    r = R(p[:4])
    return [r[i] + [p[4 + i]] for i in range(3)] + [[z, z, z, z + 1]]


def papply(p, v):
    return vadd(qrot(p[:4], v), p[4:7])


def pos(ctx, k=1):
    """positive values (quadratic residues)"""
    r = []
    for _ in range(k):
        a = ctx.var()
        r.append(a * a)
    return r


def unit3(ctx):
    """rational unit 3-vector"""
    a, b = ctx.var(), ctx.var()
    d = 1 + a * a + b * b
    return [2 * a / d, 2 * b / d, (1 - a * a - b * b) / d]


def axisR(ax, s, c):
    """Rodrigues matrix of unit axis with sin s / cos c"""
    x, y, z = ax
    t = 1 - c
    return [[c + x * x * t, x * y * t - z * s, x * z * t + y * s],
            [x * y * t + z * s, c + y * y * t, y * z * t - x * s],
            [x * z * t - y * s, y * z * t + x * s, c + z * z * t]]


def eqm(label, a, b):
    out = []
    for i, (ra, rb) in enumerate(zip(a, b)):
        for j, (x, y) in enumerate(zip(ra, rb)):
            out.append(("%s(%d,%d)" % (label, i, j), x, y))
    return out


def eqv(label, a, b):
    return [("%s[%d]" % (label, k), x, y) for k, (x, y) in enumerate(zip(a, b))]
