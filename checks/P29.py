"""String archives are lossless text with blanks between the items; the protocol chosen for storage is the protocol used, unknown ones are refused."""
from vlib import *
from alg import *
from checks_common import *
FLOOR = 36
D, D2 = "d_str.cpp", "d_prt.cpp"
DB, FL, IN, UN, UL, ULL, CH = 1, 2, 3, 4, 6, 8, 11
INTS = (3, 4, 5, 6, 7, 8)


def run(C):
    C.preload(D, D2)
    A = "src/utUtil/SimpleStringOArchive.h"
    I = "src/utUtil/SimpleStringIArchive.h"
    n = {"d": 1, "f": 1, "i": 1, "ull": 1, "v2": 2, "v3": 3, "v3f": 3, "m33": 9, "m34": 12, "q": 4, "p": 7, "ep": 43, "ev3": 12, "sd": 1, "si": 1, "rv": 3}
    tab = {e: [None] * k for e, k in n.items()}
    # lists: length and item version come first
    tab.update(lp=["n", "v"] + [None] * 21, lv=["n", "v"] + [None] * 9, ld=["n", "v"] + [None] * 3, mp=[None] * 8, mr=[None] * 5, mb=[None] * 2, mlv=[None, "n", "v"] + [None] * 9)
    short = set(tab)
    tab.update(lpL=["n", "v"] + [None] * 140, lvL=["n", "v"] + [None] * 120, lv0=["n", "v"], ldL=["n", "v"] + [None] * 131, mlvL=[None, "n", "v"] + [None] * 120)
    for e, items in sorted(tab.items()):
        nit, nver = len(items), items.count("v")
        nx = nit - nver

        def spec(c, x, o, items=items, nit=nit, nx=nx):
            X, o = o[:nx], o[nx:]
            r = [("items written", o[0], c.N(nit)), ("items not separated", o[1], c.N(0)), ("numbers with too few digits", o[2], c.N(0))]
            k = 0
            for j, what in enumerate(items):
                if what == "v":
                    continue
                r.append(("item %d in order" % j, o[4 + 2 * j], X[k]))
                k += 1
            r.append(("items left unread", o[3 + 2 * nit], c.N(0)))
            return r + [("element %d after reading" % k, o[4 + 2 * nit + k], X[k]) for k in range(nx)]
        C.equal(D, "vf_str_" + e, lambda c, n=nx: free(c, n), spec, nx + 3 + 2 * nit + 1 + nx, A, "written as text then read back: every item, in order, with all digits", gate=None)
        if e in short:
            C.equal(D, "vf_strov_" + e, lambda c, n=nx: free(c, 3 * n), lambda c, x, o, nx=nx: [("items left unread", o[0], c.N(0))] + [("element %d after reading" % k, o[1 + k], o[1 + nx + k]) for k in range(nx)],
                    1 + 2 * nx, I, "read into an object that held another value", gate=None)
    C.equal(D, "vf_str_seq", lambda c: free(c, 3), lambda c, x, o: [c.N(4), c.N(0), c.N(0), c.N(0), c.N(1), c.N(1), o[7], None, x[2]], 9, A, "values of several types one after the other", gate=None)
    for e, w in (("more", "more elements than the text holds"), ("none", "an empty text"), ("after", "another number after the last"), ("aftc", "another character after the last"),
                 ("type", "a number where there is none"), ("list", "a list longer than the text")):
        C.raises(D, "vf_str_" + e, lambda c: free(c, 3), 1, I, "reading " + w)
    S = "src/utSerialization/Serialization.h"
    for k, p in ((1, "text"), (2, "binary"), (3, "msgpack")):
        C.equal(D2, "vf_pw%d" % k, lambda c: free(c, 1), lambda c, x, o, k=k: [c.N(1), c.N(k), c.N(1), x[0]], 4, S, "writing with the %s protocol" % p, gate=None)
        C.equal(D2, "vf_pr%d" % k, lambda c: free(c, 1), lambda c, x, o, k=k: [c.N(1), c.N(10 + k), c.N(1), x[0]], 4, S, "reading with the %s protocol" % p, gate=None)
    for e in ("pw0", "pr0", "pw4", "pr4"):
        C.raises(D2, "vf_" + e, lambda c: free(c, 1), 1, S, "an unknown protocol is refused")
