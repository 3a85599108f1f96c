"""Serial port: typestate of the descriptor in every port state and after every failing system call; line settings."""
from vlib import *
from alg import *
from checks_common import *
import vg
from vg import Ptr, Node, FnPtr
FLOOR = 40
D = "d_ser2.cpp"
F = "src/utUtil/SerialPort.cpp"
# termios layout on linux/glibc: iflag 0, oflag 4, cflag 8, lflag 12, line 16, cc 17.., ispeed 52, ospeed 56, size 60
CSIZE, CS8, PARENB, PARODD, CSTOPB, CREAD, CLOCAL, CBAUD = 0o60, 0o60, 0o400, 0o1000, 0o100, 0o200, 0o4000, 0o10017
VTIME, VMIN = 5, 6
SPEED = {9600: 0o15, 19200: 0o16, 38400: 0o17, 57600: 0o10001, 115200: 0o10002, 230400: 0o10003}


def mask32(v):
    return v & 0xffffffff if isinstance(v, int) else v


class Model:
    """the descriptor table and the terminal; fail = set of indices of system calls that fail"""

    def __init__(s, fail=(), orig=None):
        s.orig = orig
        s.fail, s.n, s.open, s.next, s.bad, s.ops, s.cur = set(fail), 0, set(), 11, [], [], []

    def fails(s):
        s.n += 1
        return s.n - 1 in s.fail

    def cint(s, v):
        if isinstance(v, Node) and v.op == "ic":
            v = v.args[0]
        return vg.sgn(v, 32) if isinstance(v, int) else v

    def use(s, name, fd, e):
        fd = s.cint(fd)
        if not isinstance(fd, int) or fd not in s.open:
            s.bad.append("%s with a descriptor that is not open (%s), at %s" % (name, fd if isinstance(fd, int) else "indeterminate", fmtloc(e.curloc)))
        return fd

    def termios(s, e, mem, p):
        g = lambda o, w: e.load(mem, Ptr(p.r, p.o + o), w, "i%d" % (8 * w))
        return dict(iflag=g(0, 4), oflag=g(4, 4), cflag=g(8, 4), lflag=g(12, 4), vtime=g(17 + VTIME, 1), vmin=g(17 + VMIN, 1), isp=g(52, 4), osp=g(56, 4))

    def handlers(s):
        ret = lambda ok, mem: ("ok", ok & 0xffffffff, mem)

        def h_open(e, ins, name, a, mem):
            f = s.fails()
            if f:
                s.cur.append(("open", None))
                return ret(-1, mem)
            fd = s.next
            s.next += 1
            s.open.add(fd)
            s.cur.append(("open", fd))
            return ret(fd, mem)

        def h_close(e, ins, name, a, mem):
            fd = s.use("close", a[0], e)
            s.open.discard(fd)
            s.cur.append(("close", fd))
            return ret(0, mem)

        def h_tcget(e, ins, name, a, mem):
            fd = s.use("tcgetattr", a[0], e)
            f = s.fails()
            s.cur.append(("tcgetattr", not f))
            if not f:
                for o in range(0, 60, 4):
                    v = s.orig[o] if s.orig is not None else mk("var", "orig%d.%d" % (fd if isinstance(fd, int) else 0, o))
                    e.store(mem, Ptr(a[1].r, a[1].o + o), v, 4)
            return ret(-1 if f else 0, mem)

        def h_tcset(e, ins, name, a, mem):
            s.use("tcsetattr", a[0], e)
            f = s.fails()
            s.cur.append(("tcsetattr", not f, s.termios(e, mem, a[2])))
            return ret(-1 if f else 0, mem)

        def h_raw(e, ins, name, a, mem):
            p = a[0]
            c = e.load(mem, Ptr(p.r, p.o + 8), 4, "i32")
            e.store(mem, Ptr(p.r, p.o + 8), (c & ~(CSIZE | PARENB)) | CS8 if isinstance(c, int) else mk("var", "rawc"), 4)
            for o in (0, 4, 12):
                v = e.load(mem, Ptr(p.r, p.o + o), 4, "i32")
                if not (isinstance(v, int) and v == 0):
                    e.store(mem, Ptr(p.r, p.o + o), mk("var", "raw%d" % o), 4)
            e.store(mem, Ptr(p.r, p.o + 17 + VMIN), 1, 1)
            e.store(mem, Ptr(p.r, p.o + 17 + VTIME), 0, 1)
            return ("ok", None, mem)

        def h_speed(off):
            def f(e, ins, name, a, mem):
                p = a[0]
                c = e.load(mem, Ptr(p.r, p.o + 8), 4, "i32")
                v = a[1] if isinstance(a[1], int) else None
                if v is not None:
                    if isinstance(c, int):
                        e.store(mem, Ptr(p.r, p.o + 8), (c & ~CBAUD) | v, 4)
                    e.store(mem, Ptr(p.r, p.o + off), v, 4)
                return ret(0, mem)
            return f

        def h_both(e, ins, name, a, mem):
            h_speed(52)(e, ins, name, a, mem)
            return h_speed(56)(e, ins, name, a, mem)

        def h_rw(nm, res):
            def f(e, ins, name, a, mem):
                s.use(nm, a[0], e)
                bad = s.fails()
                s.cur.append((nm, not bad, a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None))
                return ("ok", (1 << 64) - 1 if bad else res, mem)
            return f

        def h_ioctl(e, ins, name, a, mem):
            s.use("ioctl", a[0], e)
            bad = s.fails()
            s.cur.append(("ioctl", not bad, a[1]))
            if not bad:
                e.store(mem, a[2], 5, 4)
            return ret(-1 if bad else 0, mem)

        def h_tc(nm):
            def f(e, ins, name, a, mem):
                s.use(nm, a[0], e)
                s.cur.append((nm, True))
                return ret(0, mem)
            return f

        def h_mark(e, ins, name, a, mem):
            s.ops.append((a[0], s.cur, set(s.open)))
            s.cur = []
            return ("ok", None, mem)
        return {"open": h_open, "open64": h_open, "close": h_close, "tcgetattr": h_tcget, "tcsetattr": h_tcset, "cfmakeraw": h_raw, "cfsetospeed": h_speed(56), "cfsetispeed": h_speed(52), "cfsetspeed": h_both,
                "read": h_rw("read", 4), "write": h_rw("write", 6), "ioctl": h_ioctl, "tcsendbreak": h_tc("tcsendbreak"), "tcflush": h_tc("tcflush"), "vf_mark": h_mark}


SCEN = {"sp_cycle": "OO" + "RSB" + "bF" + "CC" + "RSB" + "bF" + "OR", "sp_closed": "RSBbFC", "sp_retry": "OROR"}
NAME = {"O": "open", "R": "read", "S": "send", "B": "bytesOnRead", "b": "sendBreak", "F": "flush", "C": "close"}
CALL = {"R": ("read", 4, 11), "S": ("write", 6, 13), "B": ("ioctl", 5, None)}


def scenario(C, u, entry, ops, fail, orig=None, what=""):
    m = Model(fail, orig)
    g = Graph(u, "vf_" + entry, 1, 40, m.handlers(), eh=True)
    C.nfun += 1
    C.steps += g.steps
    where = "%s (%s)" % (entry, "no failure" if not fail else "system call %s fails" % ",".join(str(k + 1) for k in sorted(fail)))
    where += what
    bad = list(m.bad)
    term = None
    if g.status == "throw":
        bad.append("an exception escapes a destructor or a handler")
        m.ops = []
    isopen = False
    k = 0
    val = lambda n: n if isinstance(n, int) else (int(n.args[0]) if n.op in ("const", "ic") else None)
    for (res, calls, fds), op in zip(m.ops, ops):
        name = NAME[op]
        r = val(g.out[k])
        k += 1
        v = None
        if op in CALL:
            v = val(g.out[k])
            k += 1
        names = [c[0] for c in calls]
        if op == "O":
            if isopen:
                if names:
                    bad.append("open of an open port touches the device (%s)" % names)
                want = 0
            else:
                ok = "open" in names and all(c[1] not in (None, False) for c in calls if c[0] in ("open", "tcgetattr", "tcsetattr")) and "tcgetattr" in names and "tcsetattr" in names
                want = 0 if ok else 1
                isopen = ok
                sets = [c for c in calls if c[0] == "tcsetattr"]
                if sets:
                    term = sets[-1][2]
        elif op == "C":
            want = 0
            if isopen:
                last = [c for c in calls if c[0] == "tcsetattr"]
                if "close" not in names:
                    bad.append("close leaves the descriptor open")
                if orig is not None:
                    now = last[-1][2] if last else term
                    if now is None or any(now[k] != orig[o] for k, o in FIELDS.items()):
                        bad.append("close does not restore the settings found at opening")
                elif not last or not restored(last[-1][2]):
                    bad.append("close does not restore the settings found at opening")
            elif names:
                bad.append("close of a closed port touches the device (%s)" % names)
            isopen = False
        elif not isopen:
            want = 1
            if names:
                bad.append("%s on a closed port touches the device (%s)" % (name, names))
        elif op in CALL:
            sysn, rv, size = CALL[op]
            cs = [c for c in calls if c[0] == sysn]
            want = 0 if cs and all(c[1] for c in cs) else 1
            if not cs:
                bad.append("%s does not reach the device" % name)
            elif want == 0 and v != rv:
                bad.append("%s returns %s instead of the device's %d" % (name, v, rv))
            if cs and size is not None and cs[0][3] != size:
                bad.append("%s transfers %s bytes instead of the requested %d" % (name, cs[0][3], size))
        else:
            want = 0
            if not names:
                bad.append("%s does not reach the device" % name)
        if res != want or r != want:
            bad.append("%s %s" % (name, "reports a failure with a foreign exception" if res == 2 else "must report the failure by an exception" if want == 1 else "fails although nothing went wrong"))
        if len(fds) != (1 if isopen else 0):
            bad.append("after %s %s %d descriptor(s) are open" % ("a failed" if want else "a successful", name, len(fds)))
        if bad:
            break
    if not bad and len(m.ops) > len(ops) and m.ops[len(ops)][2]:
        bad.append("the destructor leaves %d descriptor(s) open" % len(m.ops[len(ops)][2]))
    for b in bad[:2]:
        C.violate("%s/%s" % (entry, b.split(",")[0][:60]), "%s [descriptor typestate] %s: %s" % (F, where, b))
    C.rules["descriptor typestate"] = C.rules.get("descriptor typestate", 0) + 1
    C.note(entry=entry, failing=sorted(fail), ok=not bad, system_calls=m.n)
    return m.n, term


FIELDS = {"iflag": 0, "oflag": 4, "cflag": 8, "lflag": 12, "isp": 52, "osp": 56}


def found_settings(C, u, entry, ops, term):
    """what the device was set to before: every field different from what is requested, one field equal, one field different"""
    want = {o: term[k] if isinstance(term[k], int) else None for k, o in FIELDS.items()}
    base = {o: 0x01010101 * ((o % 100) + 1) & 0x7fffffff for o in range(0, 60, 4)}
    same = dict(base)
    for o, v in want.items():
        if v is not None:
            same[o] = v
    C.note(entry=entry, rule="settings found at opening", fields=[k for k, o in FIELDS.items() if want[o] is not None])
    scenario(C, u, entry, ops, (), base, ", all settings found differ from the requested ones")
    for k, o in FIELDS.items():
        if want[o] is None:
            continue
        v = dict(base)
        v[o] = want[o]
        scenario(C, u, entry, ops, (), v, ", only the %s found equals the requested one" % k)
        v = dict(same)
        v[o] = base[o]
        scenario(C, u, entry, ops, (), v, ", only the %s found differs from the requested one" % k)


def restored(t):
    f = lambda v: isinstance(v, Node) and v.op == "var" and str(v.args[0]).startswith("orig")
    return all(f(t[k]) for k in ("iflag", "oflag", "cflag", "lflag", "isp", "osp"))


def settings(C, u, entry, baud, bits, par, stop, vtime=7, vmin=3):
    m = Model()
    g = Graph(u, "vf_" + entry, 1, 4, m.handlers(), eh=True)
    C.nfun += 1
    C.steps += g.steps
    bad = list(m.bad)
    sets = [c for o in m.ops for c in o[1] if c[0] == "tcsetattr"]
    if not m.ops or m.ops[0][0] != 0 or not sets:
        bad.append("an admissible setting is refused")
    else:
        t = sets[-1][2]
        cf = t["cflag"]
        if not isinstance(cf, int):
            bad.append("control flags depend on the previous settings")
        else:
            want = {"character size": (CSIZE, {5: 0, 6: 0o20, 7: 0o40, 8: 0o60}[bits]), "parity": (PARENB | (PARODD if par else 0), 0 if par == 0 else PARENB | (PARODD if par == 1 else 0)),
                    "stop bits": (CSTOPB, CSTOPB if stop == 2 else 0), "receiver and local line": (CREAD | CLOCAL, CREAD | CLOCAL), "baud rate": (CBAUD, SPEED[baud])}
            for k, (ms, w) in want.items():
                if cf & ms != w:
                    bad.append("%s is not what was requested (flags %o)" % (k, cf & ms))
        if t["osp"] != SPEED[baud] or t["isp"] != SPEED[baud]:
            bad.append("line speed is not what was requested")
        if (t["vtime"], t["vmin"]) != (vtime, vmin):
            bad.append("timeout or minimum count is not what was requested")
    for b in bad[:3]:
        C.violate("%s/%s" % (entry, b[:40]), "%s SerialPort::open [line settings] %d baud %d bits parity %d stop %d: %s" % (F, baud, bits, par, stop, b))
    C.rules["line settings"] = C.rules.get("line settings", 0) + 1
    C.note(entry=entry, rule="line settings", ok=not bad)


def run(C):
    u = C.unit(D)
    try:
        for e, a in (("sp_9600_8n1", (9600, 8, 0, 1)), ("sp_19200_7e1", (19200, 7, 2, 1)), ("sp_38400_7o2", (38400, 7, 1, 2)), ("sp_57600_6n2", (57600, 6, 0, 2)), ("sp_115200_5e1", (115200, 5, 2, 1)), ("sp_230400_8o1", (230400, 8, 1, 1))):
            settings(C, u, e, *a)
        settings(C, u, "sp_deflt", 9600, 8, 0, 1, 5, 0)
        m = Model()
        g = Graph(u, "vf_sp_1234", 1, 4, m.handlers(), eh=True)
        ok = m.ops and m.ops[0][0] == 1 and not m.ops[0][2] and not m.bad
        if not ok:
            C.violate("sp_1234/refused", "%s SerialPort::open: an unsupported baud rate must be refused without leaving a descriptor open" % F)
        C.note(entry="sp_1234", rule="unsupported baud rate is refused", ok=bool(ok))
        for e, ops in SCEN.items():
            n, term = scenario(C, u, e, ops, ())
            if term is not None:
                found_settings(C, u, e, ops, term)
            for k in range(n + 2):
                scenario(C, u, e, ops, (k,))
            for k in range(n + 3):
                for l in range(k + 1, n + 3):
                    scenario(C, u, e, ops, (k, l))
    except Broken:
        raise
    except Exception as x:
        if os.environ.get("VERIF_DEBUG"):
            raise
        raise Broken("internal %r" % x)
