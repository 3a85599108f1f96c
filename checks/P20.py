"""Measurements: timestamp and payload travel together, copies share the payload, clones do not, time zero means invalid."""
from vlib import *
from alg import *
from checks_common import *
FLOOR = 90
D = "d_meas.cpp"
F = "src/utMeasurement/Measurement.h"
TYPES = {"pose": (7, 0), "pos": (3, 0), "dist": (1, 0), "id": (1, 0), "rot": (4, 0), "m33": (9, 0), "epose": (43, 0), "epos": (12, 0), "plist": (9, 1), "idlist": (3, 1)}


def run(C):
    for ty, (n, lst) in TYPES.items():
        for zero in (0, 1):
            def tv(c):
                return c.N(0) if zero else c.var()

            def vs(c):
                return [c.var() for _ in range(n)]
            w = lambda v: ([3] + v) if lst else v
            st = lambda t, nul=0: [t, 1 if t.v == 0 else 0, nul]
            nn = n + lst

            def E(e, dom, spec, nout, rule):
                C.equal(D, "vf_%s_%s" % (ty, e), dom, spec, nout, F, "%s (%s%s)" % (rule, ty, ", time zero" if zero else ""), gate=None, samples=2)
            E("t", lambda c: [tv(c)], lambda c, x, o: st(x[0], 1), 3, "from a timestamp: empty payload")
            E("tp", lambda c: [tv(c)] + vs(c), lambda c, x, o: [1] + st(x[0]) + w(x[1:]), 4 + nn, "from timestamp and pointer: shared payload")
            E("tv", lambda c: [tv(c)] + vs(c) + vs(c), lambda c, x, o: st(x[0]) + w(x[1:1 + n]), 3 + nn, "from timestamp and value: copied payload")
            E("clone0", lambda c: [tv(c)], lambda c, x, o: st(x[0], 1) * 2, 6, "clone of an empty measurement")
            E("clone", lambda c: [tv(c)] + vs(c) + vs(c) + vs(c) + [tv(c)], lambda c, x, o: st(x[0]) + w(x[1 + n:1 + 2 * n]) + st(x[1 + 3 * n]) + w(x[1:1 + n]) + st(x[0]) + w(x[1 + 2 * n:1 + 3 * n]), 9 + 3 * nn, "a clone has the same content and is independent")
            E("share", lambda c: [tv(c)] + vs(c) + vs(c) + [tv(c)], lambda c, x, o: st(x[0]) + w(x[1 + n:1 + 2 * n]) + st(x[1 + 2 * n]) + w(x[1 + n:1 + 2 * n]) + st(x[0]) + w(x[1 + n:1 + 2 * n]), 9 + 3 * nn, "copies share the payload, not the timestamp")
            E("inv", lambda c: [tv(c)] + vs(c), lambda c, x, o: st(c.N(0)) + w(x[1:]) + st(x[0]) + w(x[1:]), 6 + 2 * nn, "invalidation resets the timestamp of this measurement only")
            E("cast", lambda c: [tv(c)] + vs(c) + vs(c), lambda c, x, o: [1] + st(x[0]) + w(x[1 + n:]) + [x[0]] + w(x[1 + n:]), 5 + 2 * nn, "constness cast shares payload and keeps the timestamp")
            if not zero:
                z = [0, 1]
                E("def", lambda c: [], lambda c, x, o: z + [1], 3, "default: invalid and empty")
                E("p", lambda c: vs(c), lambda c, x, o: [1] + z + [0] + w(x), 4 + nn, "from pointer: shared payload, time zero")
                E("v", lambda c: vs(c) + vs(c), lambda c, x, o: z + [0] + w(x[:n]), 3 + nn, "from value: copied payload, time zero")
