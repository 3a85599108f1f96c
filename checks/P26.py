"""Storage discipline: accesses stay inside live objects, nothing is read before it is written, everything allocated is released once."""
import concurrent.futures as cf
import importlib
import os
import sys
import vlib
HERE = os.path.dirname(os.path.abspath(__file__))
FLOOR = 900
# every property whose entries are analysed one value graph at a time
MODS = ["P%02d" % k for k in range(1, 30) if k not in (19, 22, 23, 26)]


def one(mod, seed, samples):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    m = importlib.import_module(mod)
    c = vlib.MemCheck(mod, "")
    c.tier, c.seed, c.samples = "quick", seed, samples
    try:
        m.run(c)
    except vlib.Broken as b:
        c.broken.append("%s: %s" % (mod, b))
    return mod, c.viol, c.broken, c.instances, c.nfun, c.steps, getattr(c, "allocs", 0)


def run(ck):
    n = 1 if ck.tier == "quick" else 8
    with cf.ProcessPoolExecutor(max_workers=8) as ex:
        allocs = 0
        for mod, viol, broken, inst, nfun, steps, al in ex.map(one, MODS, [ck.seed] * len(MODS), [n] * len(MODS)):
            for key, text in viol:
                ck.violate(key, text)
            ck.broken += ["%s: %s" % (mod, b) for b in broken]
            ck.nfun += nfun
            ck.steps += steps
            allocs += al
            ck.rules["storage, entries of " + mod] = len(inst)
            ck.instances += inst
    ck.note(entry="heap objects", rule="every allocation followed to its release", count=allocs, ok=True)
