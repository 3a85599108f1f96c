"""msgpack storage: what is packed, streamed or boxed, is the documented tree and comes back unchanged."""
from vlib import *
from alg import *
from checks_common import *
FLOOR = 60
D = "d_mp.cpp"
PI, F32, F64, AR = 2, 0x0a, 4, 7
S = "src/utSerialization/MsgpackSerializer.h"


def arr(*t):
    return ["A", len(t)] + list(t)


def flatten(t, it, k=None):
    """tree of leaf kinds -> [(kind, what)] with `it` delivering the leaf values in order"""
    if isinstance(t, list):
        r = [(AR, t[1])]
        for s in t[2:]:
            r += flatten(s, it)
        return r
    return [(t, next(it))]


def run(C):
    C.preload(D)
    v = lambda n, k=F64: arr(*[k] * n)
    pose = arr(v(4), v(3))
    ep = arr(v(4), v(3), v(36))
    ev = lambda n: arr(v(n), v(n * n))
    m = lambda t: arr(PI, t)
    # entry -> (tree, number of leaf cells, number of cells of the object)
    tab = {"v2": v(2), "v3": v(3), "v4": v(4), "v8": v(8), "v3f": v(3, F32), "v2u": v(2, PI), "m33": v(9), "m34": v(12), "m44": v(16), "m34f": v(12, F32), "m26": v(12),
           "q": v(4), "p": pose, "ep": ep, "ev2": ev(2), "ev3": ev(3), "sd": F64, "su": PI, "rv": v(3), "lp": arr(pose, pose, pose), "lv": arr(v(3), v(3), v(3)), "lu": v(3, PI),
           "mp": m(pose), "mr": m(v(4)), "mv": m(v(3)), "mm": m(v(12)), "mep": m(ep), "mev": m(ev(3)), "mlv": m(arr(v(3), v(3), v(3)))}
    short = set(tab)
    lv = arr(*[v(3)] * 40)
    tab.update({"lpL": arr(*[pose] * 20), "lvL": lv, "lv0": arr(), "luL": v(131, PI), "mlvL": m(lv)})
    nleaf = lambda t: sum(nleaf(s) for s in t[2:]) if isinstance(t, list) else 1
    ncell = lambda t: 2 + sum(ncell(s) for s in t[2:]) if isinstance(t, list) else 2
    for e, t in sorted(tab.items()):
        n = nleaf(t)
        lst = {"lp": 0, "lv": 0, "lu": 0, "mlv": 1}.get(e.rstrip("L0"))
        nx = n + (lst is not None)
        nc = ncell(t)

        def tree(c, X, t=t, lst=lst):
            X = list(X)
            if lst is not None:
                del X[lst]
            r = []
            for k, (a, b) in enumerate(flatten(t, iter(X))):
                r += [c.N(a), c.N(b) if isinstance(b, int) else b]
            return r

        def spec(c, x, o, nx=nx, nc=nc, tree=tree):
            X = o[:nx]
            r = [("one object", o[nx], c.N(1)), ("all announced elements written", o[nx + 1], c.N(0))]
            T = tree(c, X)
            r += [("stream item %d" % k, o[nx + 2 + k], T[k]) for k in range(nc)]
            r += [("element %d after reading" % k, o[nx + 2 + nc + k], X[k]) for k in range(nx)]
            return r
        C.equal(D, "vf_mp_" + e, lambda c, n=n: free(c, n), spec, 2 * nx + 2 + nc, S, "packed, then read back; tree of items", gate=None)
        C.equal(D, "vf_as_" + e, lambda c, n=n: free(c, n), lambda c, x, o, nx=nx: [("element %d" % k, o[nx + k], o[k]) for k in range(nx)], 2 * nx, S, "packed, then converted by value", gate=None)
        if e in short:
            C.equal(D, "vf_mov_" + e, lambda c, n=n: free(c, 3 * n), lambda c, x, o, nx=nx: [("element %d after reading" % k, o[k], o[nx + k]) for k in range(nx)], 2 * nx, S, "read into an object that held another value", gate=None)
        if e in ("v3", "v4", "m33", "m34", "m26", "q", "p", "ep", "ev2", "ev3", "sd", "rv", "mp", "mm"):
            C.equal(D, "vf_zn_" + e, lambda c, n=n: free(c, n), lambda c, x, o, nc=nc: [("item %d boxed as streamed" % k, o[nc + k], o[k]) for k in range(nc)], 2 * nc, S, "boxed in memory equals streamed", gate=None)
    for e in "abcde":
        C.equal(D, "vf_int_" + e, lambda c: [c.N(0)], lambda c, x, o: [("streamed", o[0], o[2]), ("by value", o[1], o[2])], 3, S, "integers", gate=None)
    C.equal(D, "vf_dyn_grow", lambda c: free(c, 5), lambda c, x, o: [c.N(5)] + x + [c.N(5)] + x, 12, S, "dynamically sized vector takes the stored size", gate=None)
    C.equal(D, "vf_dyn_shrink", lambda c: free(c, 7), lambda c, x, o: [c.N(2)] + x[:2], 3, S, "dynamically sized vector takes the stored size", gate=None)
    ct = {0: 0, 2: 1, 3: 2, 6: 3, 4: 4}
    for n in ct:
        for s, k in (("d", F64), ("f", F32)):
            t = arr(PI, v(2, PI), v(9, k), PI, v(6, k), v(2, k))
            nc = ncell(t)

            def spec(c, x, o, n=n, t=t, nc=nc):
                X = x[:11] + [c.N(n), c.N(ct[n])] + x[11:19]
                items = [c.N(ct[n])] + x[9:11] + x[:9] + [c.N(n)] + x[11:19]
                r = [("component %d %s" % (j, w), o[q * 21 + j], X[j]) for q, w in enumerate(("before", "after reading", "by value")) for j in range(21)]
                T = []
                for a, b in flatten(t, iter(items)):
                    T += [c.N(a), c.N(b) if isinstance(b, int) else b]
                r += [("stream item %d" % j, o[63 + j], T[j]) for j in range(nc)]
                r += [("boxed item %d" % j, o[63 + nc + j], T[j]) for j in range(nc)]
                return r
            C.equal(D, "vf_mcam%d_%s" % (n, s), lambda c: free(c, 38), spec, 63 + 2 * nc, S, "camera model, whatever the target held before", gate=None)
    C.equal(D, "vf_nil", lambda c: free(c, 7), lambda c, x, o: [c.N(1)] * 5, 5, S, "a measurement without a value stays without a value", gate=None)
    C.equal(D, "vf_two", lambda c: free(c, 14), lambda c, x, o: x, 14, S, "several objects in one stream", gate=None)
