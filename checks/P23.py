"""Calibration files: every failure while opening, reading or writing is reported as the library's exception, and nothing else is."""
from vlib import *
from alg import *
from checks_common import *
import vg
FLOOR = 25
D = "d_cal.cpp"
F = "src/utUtil/CalibFile.h"
STEP = {0: "opening the file", 1: "the header of the file", 2: "the content of the file", 3: "opening the file", 4: "writing the header", 5: "writing the content", 6: "transferring the buffered data to the file", 7: "transferring the buffered data to the file (raising)"}
FUN = {"rd": ("readCalibFile", 7, (0, 1, 2), 10, 30), "rdb": ("readBinaryCalibFile", 7, (0, 1, 2), 11, 31), "rdm": ("readCalibFile (measurement)", 8, (0, 1, 2), 10, 30), "rdd": ("readCalibFileDropMeasurement", 8, (0, 1, 2), 10, 30),
       "wr": ("writeCalibFile", 7, (3, 4, 5, 6, 7), 12, 40), "wrb": ("writeBinaryCalibFile", 7, (3, 4, 5, 6, 7), 13, 41), "wrm": ("writeCalibFile (measurement)", 8, (3, 4, 5, 6, 7), 12, 40)}


KIND = {1: "", 2: " with a length error", 3: " for lack of memory"}


def one(C, u, fn, fail, kind=1):
    name, n, steps, mode, arch = FUN[fn]
    log = []

    def chk(e, ins, nm, a, mem):
        return ("ok", kind if a[0] in fail else 0, mem)

    def lg(e, ins, nm, a, mem):
        log.append(a[0])
        return ("ok", None, mem)
    g = Graph(u, "vf_" + fn, 9, 9, dict(string_handlers(), vf_chk=chk, vf_log=lg), eh=True)
    C.nfun += 1
    C.steps += g.steps
    what = "nothing fails" if not fail else " and ".join(STEP[k] for k in sorted(fail)) + " fails" + KIND[kind]
    r = g.out[0] if g.out else None
    r = int(r.args[0]) if isinstance(r, vg.Node) and r.op in ("const", "ic") else r
    bad = None
    if g.status == "throw":
        bad = "an exception escapes while another is handled"
    elif any(ev[0] in MEMBAD for ev in g.events):
        bad = "accesses storage outside an object"
    elif fail and r == 2:
        bad = "an exception of another library escapes"
    elif fail and r != 1:
        bad = "the failure is not reported"
    elif not fail and r != 0:
        bad = "raises although nothing fails"
    elif not fail:
        if mode not in log or arch not in log:
            bad = "file or archive is opened in the wrong mode"
        if arch >= 40 and 20 not in log:
            bad = "data never reaches the file"
        rng = random.Random(C.seed)
        ctx = Ctx(rng, None)
        x = [ctx.var() for _ in range(9)]
        for k, v in enumerate(x):
            ctx.vars["in%d" % k] = v
        src = x[1:8] if fn == "rdd" else x[:n]
        for k, w in enumerate(src):
            try:
                if ctx.ev(g.out[1 + k]).v != w.v:
                    bad = "value %d differs from the stored one" % k
            except UndefUse:
                bad = "value %d is never delivered" % k
    if bad:
        C.violate("%s/%s%s" % (fn, "".join(map(str, sorted(fail))) or "ok", KIND[kind]), "%s %s [%s]: %s" % (F, name, what, bad))
    C.rules["failure discipline"] = C.rules.get("failure discipline", 0) + 1
    C.note(entry="vf_" + fn, failing=[STEP[k] for k in sorted(fail)], ok=not bad)


def run(C):
    u = C.unit(D)
    try:
        for fn in FUN:
            one(C, u, fn, ())
            for k in FUN[fn][2]:
                one(C, u, fn, (k,))
            one(C, u, fn, FUN[fn][2][1:])
            for k in FUN[fn][2]:
                if k in (1, 2, 4, 5):
                    for kind in (2, 3):
                        one(C, u, fn, (k,), kind)
    except Broken:
        raise
    except Exception as x:
        if os.environ.get("VERIF_DEBUG"):
            raise
        raise Broken("internal %r" % x)
