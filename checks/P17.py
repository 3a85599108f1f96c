"""Malformed or incomplete msgpack input is refused."""
from vlib import *
from checks_common import *
from alg import *
FLOOR = 100
D = "d_mp.cpp"


def run(C):
    C.preload(D)
    S = "src/utSerialization/MsgpackSerializer.h"
    u = C.unit(D)
    for e in sorted(u.entries()):
        if e.startswith("vf_bad_") or e.startswith("vf_bas_"):
            C.raises(D, e, lambda c: free(c, 60), 1, S, "wrong shape or type of the stored object (%s)" % e[7:])
    C.raises(D, "vf_empty", lambda c: free(c, 1), 1, S, "no complete object in the stream")
