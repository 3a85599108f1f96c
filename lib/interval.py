"""interval analysis of unsigned integer value-graph nodes, with refinement by the gates on the way"""
from vg import Node, iscond


def bounds(n, w=64, env=None, depth=0):
    env = env or {}
    top = (1 << w) - 1
    if isinstance(n, int):
        return n, n
    if not isinstance(n, Node) or depth > 60:
        return 0, top
    r = None
    op, a = n.op, n.args
    B = lambda k, ww=w: bounds(a[k], ww, env, depth + 1)
    if op == "ic":
        return a[0], a[0]
    if iscond(n):
        return 0, 1
    if op == "ite":
        c = a[0]
        x = bounds(a[1], w, refine(env, c, True), depth + 1)
        y = bounds(a[2], w, refine(env, c, False), depth + 1)
        if x[0] > x[1]:
            r = y
        elif y[0] > y[1]:
            r = x
        else:
            r = min(x[0], y[0]), max(x[1], y[1])
    elif op in ("iadd", "isub", "imul", "iudiv", "iurem", "ishl", "ilshr", "iand", "ior"):
        ww = a[2]
        x, y = B(0, ww), B(1, ww)
        m = (1 << ww) - 1
        if op == "iadd":
            s = x[0] + y[0], x[1] + y[1]
            if y[0] == y[1] and y[0] > m >> 1:        # adding a negative constant
                s = x[0] + y[0] - m - 1, x[1] + y[0] - m - 1
            r = s if 0 <= s[0] and s[1] <= m else (0, m)
        elif op == "isub":
            r = (x[0] - y[1], x[1] - y[0]) if x[0] >= y[1] else (0, m)
        elif op == "imul":
            r = (x[0] * y[0], x[1] * y[1]) if x[1] * y[1] <= m else (0, m)
        elif op == "iudiv":
            r = (x[0] // y[1], x[1] // y[0]) if y[0] > 0 else (0, m)
        elif op == "iurem":
            r = (0, m) if y[0] == 0 else x if x[1] < y[0] else (0, y[1] - 1)
        elif op == "ilshr" and y[0] == y[1] < ww:
            r = x[0] >> y[0], x[1] >> y[0]
        elif op == "ishl" and y[0] == y[1] < ww:
            r = (x[0] << y[0], x[1] << y[0]) if x[1] << y[0] <= m else (0, m)
        elif op == "iand":
            r = 0, min(x[1], y[1])
        else:
            r = 0, m
    elif op == "zext":
        r = bounds(a[0], a[1] if len(a) > 1 and isinstance(a[1], int) else w, env, depth + 1)
    elif op in ("i:umin", "i:umax"):
        x, y = B(0), B(1)
        r = (min(x[0], y[0]), min(x[1], y[1])) if op == "i:umin" else (max(x[0], y[0]), max(x[1], y[1]))
    else:
        r = 0, top
    e = env.get(n.id)
    if e:
        r = max(r[0], e[0]), min(r[1], e[1])
    return r


def refine(env, c, val):
    if c.op == "not":
        return refine(env, c.args[0], not val)
    if c.op == "and" and val:
        return refine(refine(env, c.args[0], True), c.args[1], True)
    if c.op != "icmp" or c.args[0] not in ("ult", "ugt", "slt", "sgt", "ule", "uge", "eq"):
        return env
    p, x, y = c.args[:3]
    k = lambda n: n if isinstance(n, int) else n.args[0] if isinstance(n, Node) and n.op == "ic" else None
    big = 1 << 62
    kx, ky = k(x), k(y)
    if (kx is None) == (ky is None):
        return env
    n, v = (x, ky) if ky is not None else (y, kx)
    if v > big:
        return env
    if kx is not None:
        p = {"ult": "ugt", "ugt": "ult", "slt": "sgt", "sgt": "slt", "ule": "uge", "uge": "ule", "eq": "eq"}[p]
    lo, hi = 0, (1 << 64) - 1
    if p in ("ult", "slt"):
        if val:
            hi = v - 1
        else:
            lo = v
    elif p in ("ugt", "sgt"):
        if val:
            lo = v + 1
        else:
            hi = v
    elif p == "ule":
        lo, hi = (0, v) if val else (v + 1, hi)
    elif p == "uge":
        lo, hi = (v, hi) if val else (0, v - 1)
    elif val:
        lo = hi = v
    if p[0] == "s" and not (p == "slt" and val is False or p == "sgt" and val):
        lo = 0      # signed comparisons only refine values known to be non-negative; callers pass sizes
    e = env.get(n.id, (0, (1 << 64) - 1))
    env = dict(env)
    env[n.id] = max(lo, e[0]), min(hi, e[1])
    return env
