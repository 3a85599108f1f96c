"""File listing: the paths returned are exactly the directory entries asked for, sorted; everything else is refused."""
import itertools
import re
from vlib import *
from alg import *
import vg
FLOOR = 60
D = "d_glob.cpp"
F = "src/utUtil/GlobFiles.cpp globFiles"
OPENCV = r".*\.(jpg|JPG|png|PNG|bmp|BMP)"
# entry: documented expression, directories wanted
FUN = {"txt": (r".*\.txt", False), "txtd": (r".*\.txt", True), "alt": (r"a|ab", False), "def": (r".*\.txt", False), "again": (r".*\.txt", False), "img": (OPENCV, False),
       "cal": (r".*\.(cal)", False), "dir": (None, True), "bin": (r".*\.(BoostBinary)", False)}
NAMES = {"txt": ["b.txt", "a.txt", "x.txtz", "ztxt"], "alt": ["a", "ab", "abc", "xa"], "img": ["p.jpg", "o.BMP", "q.pngx", "png"],
         "cal": ["c2.cal", "c10.cal", "c.cal.bak", "cal"], "dir": ["e", "d1", "a.b", "x"], "bin": ["m.BoostBinary", "k.BoostBinary", "n.boostbinary", "BoostBinary"]}
NAMES["txtd"] = NAMES["def"] = NAMES["txt"]
MORE = {"img": ["a.jpg", "b.JPG", "c.png", "d.PNG", "e.bmp", "f.BMP", "g.gif", "h.jpeg", "i.Jpg"], "txt": ["k%d.txt" % k for k in (7, 3, 10, 1, 12, 2, 5, 11, 4)], "txtd": ["k%d.txt" % k for k in (7, 3, 10, 1, 12, 2, 5, 11, 4)],
        "dir": ["k%d" % k for k in (7, 3, 10, 1, 12, 2, 5, 11, 4)], "cal": ["k%d.cal" % k for k in (7, 3, 10, 1, 12, 2)]}
KIND = ("missing", "file", "directory")


def const(v):
    if isinstance(v, vg.Node):
        if v.op in ("const", "ic"):
            v = v.args[0]
        elif v.op in ("sitofp", "uitofp") and isinstance(v.args[0], int):
            v = v.args[0]
    if isinstance(v, (int, float)) or hasattr(v, "numerator"):
        return int(v)
    raise Broken("an output of the file listing does not depend on the scenario alone: %r" % (v,))


def one(C, u, fn, entries, top=2, before=None):
    """entries: [(name, kind)] in the order the directory delivers them; top: kind of the path given; before: entries at an earlier call"""
    pat, dirs = FUN[fn]
    final = entries
    ents, kinds = [], {}

    def put(es, t):
        kinds.clear()
        kinds.update({"d/" + nm: k for nm, k in es}, d=t)
        ents[:] = es
    put(entries if before is None else before, top if before is None else 2)
    cur, args = [], []

    def chr_(e, ins, nm, a, mem):
        cur.append(chr(a[0]))
        return ("ok", None, mem)

    def sep(e, ins, nm, a, mem):
        args.append("".join(cur))
        del cur[:]
        return ("ok", None, mem)

    def stat(e, ins, nm, a, mem):
        p = args[-1]
        del args[:]
        return ("ok", kinds.get(p, 0), mem)

    def match(e, ins, nm, a, mem):
        ex, s = args[-2:]
        del args[:]
        try:
            r = re.compile(ex)
        except re.error:
            raise Broken("expression %r not understood" % ex)
        return ("ok", int(bool(r.search(s) if a[0] else r.fullmatch(s))), mem)

    def count(e, ins, nm, a, mem):
        return ("ok", len(ents), mem)

    def char(e, ins, nm, a, mem):
        n = ents[a[0]][0]
        return ("ok", ord(n[a[1]]) if a[1] < len(n) else 0, mem)

    def nxt(e, ins, nm, a, mem):
        put(final, top)
        return ("ok", None, mem)
    h = dict(string_handlers(), vf_next=nxt, vf_chr=chr_, vf_sep=sep, vf_stat=stat, vf_match=match, vf_count=count, vf_char=char)
    h.pop("strlen", None)
    g = Graph(u, "vf_" + fn, 1, 2000, h, eh=True)
    C.nfun += 1
    C.steps += g.steps
    if top == 2:
        want = sorted("d/" + n for n, k in entries if (k == 2 and dirs) or (k == 1 and pat is not None and re.fullmatch(pat, n)))
    else:
        want = ["d"] if top else []
    bad = None
    if g.status == "throw":
        raise Broken("exception outside the protocol of the driver")
    st = const(g.out[0])
    if any(ev[0] in MEMBAD for ev in g.events):
        bad = "accesses storage outside an object"
    elif st == 2:
        bad = "an exception of another library escapes"
    elif not want:
        if st != 1:
            bad = "nothing suitable exists, but no exception is raised"
    elif st:
        bad = "raises although %s exist%s" % (", ".join(want), "s" if len(want) == 1 else "")
    else:
        got, k = [], 2
        for _ in range(const(g.out[1])):
            s = ""
            while const(g.out[k]):
                s += chr(const(g.out[k]))
                k += 1
            got.append(s)
            k += 1
        if got != want:
            bad = "returns %s instead of %s" % (got, want)
    what = "%s is a %s" % ("d", KIND[top]) + ("" if top != 2 else " with " + (", ".join("%s (%s)" % (n, KIND[k]) for n, k in entries) or "no entries")) + ("" if before is None else "; listed before with " + ", ".join("%s (%s)" % (n, KIND[k]) for n, k in before))
    if bad:
        C.violate("%s/%s" % (fn, what), "%s [%s]: %s" % (F, what, bad))
    C.rules["file listing scenario"] = C.rules.get("file listing scenario", 0) + 1
    C.note(entry="vf_" + fn, scenario=what, ok=not bad)


def run(C):
    u = C.unit(D)
    rng = random.Random(C.seed)
    e = [("b.txt", 1), ("q1", 1), ("q0", 2), ("a.txt", 1), ("c.txt", 2)]
    for before, after, top in ((e, e, 2), (e, e[:2], 2), (e[:2], e, 2), ([], e, 2), (e, [], 2), (e[:1], e, 2), (e, e[1:3], 2), (e, [], 0), (e, [], 1)):
        one(C, u, "again", after, top, before)
    for fn in NAMES:
        nm = NAMES[fn]
        for top in (0, 1):
            one(C, u, fn, [], top)
        one(C, u, fn, [])
        for n in nm:
            for k in range(3):
                one(C, u, fn, [(n, k)])
        for p in itertools.permutations(nm[:3], 3) if C.tier == "thorough" or fn in ("txt", "txtd", "dir") else [tuple(nm[:3])]:
            one(C, u, fn, [(n, 1) for n in p])
            one(C, u, fn, [(n, 2) for n in p])
            one(C, u, fn, [(n, rng.randrange(3)) for n in p])
        for _ in range(20 if C.tier == "thorough" else 3):
            e = list(nm) + MORE.get(fn, [])
            rng.shuffle(e)
            one(C, u, fn, [(n, rng.choice((0, 1, 1, 1, 2))) for n in e])
        if fn in MORE:
            e = list(MORE[fn])
            one(C, u, fn, [(n, 2 if fn == "dir" else 1) for n in e])
