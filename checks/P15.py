"""Storing a value in an archive and reading it back: lossless, in the documented item order, corrupt sizes refused."""
from vlib import *
from alg import *
from checks_common import *
FLOOR = 30
D = "d_ser.cpp"
DB, FL, IN, UL, ULL = 1, 2, 3, 6, 8


def run(C):
    C.preload(D)
    M = "src/utMath/"
    q = [DB] * 4
    tab = {  # entry -> (anchor, kinds of the items in order)
        "v2": ("Vector.h", [DB] * 2), "v3": ("Vector.h", [DB] * 3), "v4": ("Vector.h", [DB] * 4), "v8": ("Vector.h", [DB] * 8),
        "v3f": ("Vector.h", [FL] * 3), "v2u": ("Vector.h", [UL] * 2), "m33": ("Matrix.h", [DB] * 9), "m34": ("Matrix.h", [DB] * 12),
        "m44": ("Matrix.h", [DB] * 16), "m34f": ("Matrix.h", [FL] * 12), "q": ("Quaternion.h", q), "p": ("Pose.h", [DB] * 7),
        "ep": ("ErrorPose.h", [DB] * 43), "ev2": ("ErrorVector.h", [DB] * 6), "ev3": ("ErrorVector.h", [DB] * 12),
        "sd": ("Scalar.h", [DB]), "si": ("Scalar.h", [IN]), "su": ("Scalar.h", [UL]), "rv": ("RotationVelocity.h", [DB] * 3),
        "lp": ("Pose.h", [UL] + [DB] * 21), "lv": ("Vector.h", [UL] + [DB] * 9), "lu": ("Scalar.h", [UL] * 4),
    }
    m = "../utMeasurement/Measurement.h"
    tab.update({"mp": (m, [ULL] + [DB] * 7), "mr": (m, [ULL] + q), "mb": (m, [ULL, IN]), "mv": (m, [ULL] + [DB] * 3), "mm": (m, [ULL] + [DB] * 12),
                "mep": (m, [ULL] + [DB] * 43), "mev": (m, [ULL] + [DB] * 12), "mlv": (m, [ULL, UL] + [DB] * 9)})
    short = set(tab)
    tab.update({"lpL": ("Pose.h", [UL] + [DB] * 140), "lvL": ("Vector.h", [UL] + [DB] * 120), "lv0": ("Vector.h", [UL]), "luL": ("Scalar.h", [UL] * 132), "mlvL": (m, [ULL, UL] + [DB] * 120)})
    for e, (a, kinds) in sorted(tab.items()):
        nit = len(kinds)
        # what the object consists of; lists report their length first as well
        nx = nit

        def spec(c, x, o, nit=nit, nx=nx, kinds=kinds):
            X, o = o[:nx], o[nx:]
            r = [("number of items stored", o[0], c.N(nit)), ("items left unread", o[1], c.N(0))]
            for k in range(nit):
                r.append(("type of item %d" % k, o[2 + 2 * k], c.N(kinds[k])))
                r.append(("item %d in the documented order" % k, o[3 + 2 * k], X[k]))
            r += [("element %d after reading" % k, o[2 + 2 * nit + k], X[k]) for k in range(nx)]
            return r
        C.equal(D, "vf_ser_" + e, lambda c, n=nit: free(c, n), spec, nx + 2 + 2 * nit + nx, os.path.normpath(M + a), "written then read back, order of the items", gate=None)
        if e in short:
            # the target held another value (of a longer list) before
            C.equal(D, "vf_sov_" + e, lambda c, n=nit: free(c, 3 * n), lambda c, x, o, nx=nx: [("items left unread", o[0], c.N(0))] + [("element %d after reading" % k, o[1 + k], o[1 + nx + k]) for k in range(nx)],
                    1 + 2 * nx, os.path.normpath(M + a), "read into an object that held another value", gate=None)
    A = M + "CameraIntrinsics.h"
    types = {0: 0, 2: 1, 3: 2, 6: 3, 4: 4}
    for n in (0, 2, 3, 4, 6):
        for s in ("_d", "_f", "_over6", "_over3"):
            kd = FL if s == "_f" else DB
            kinds = [kd] * 9 + [UL] * 3 + [kd] * n + [UL] + [kd] * 2
            nit = len(kinds)

            def spec(c, x, o, n=n, nit=nit, kinds=kinds):
                items = x[:11] + [c.N(n)] + x[11:11 + n] + [c.N(2)] + x[17:19]
                r = [("number of items stored", o[0], c.N(nit)), ("items left unread", o[1], c.N(0))]
                for k in range(nit):
                    r.append(("type of item %d" % k, o[2 + 2 * k], c.N(kinds[k])))
                    r.append(("item %d in the documented order" % k, o[3 + 2 * k], items[k]))
                y = x[:11] + [c.N(n), c.N(types[n])] + x[11:11 + n] + [c.N(0)] * (6 - n) + x[17:19]
                r += [("component %d after reading" % k, o[2 + 2 * nit + k], y[k]) for k in range(21)]
                return r
            C.equal(D, "vf_cam%d%s" % (n, s), lambda c: free(c, 38), spec, 2 + 2 * nit + 21, A, "camera model written then read back, whatever the target held before", gate=None)
    for e in ("cam_bad7", "cam_badmax"):
        C.raises(D, "vf_" + e, lambda c: free(c, 19), 1, A, "more radial parameters announced than a camera model can hold")
    C.raises(D, "vf_mnull", lambda c: free(c, 1), 1, "src/utMeasurement/Measurement.h", "a measurement without a value is not stored")
