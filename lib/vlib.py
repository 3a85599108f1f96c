"""Shared machinery of the checks: compile drivers against /repo's working tree,
build value graphs, discharge obligations, write evidence."""
import copy
import os, sys, json, subprocess, time, random, hashlib, shutil, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "lib"))
import vg, fp
from vg import Engine, Mem, Ptr, Region, mk, Unsupported
from fp import Ctx, N, Resample, UndefUse, NotInterpreted, P

CLANG = "clang++-18"
FLAGS = ["-std=gnu++14", "-DHAVE_LAPACK", "-DHAVE_MSGPACK", "-DCOMPILER_USE_CXX11", "-DNDEBUG",
         "-I/opt/vp/cmake/compat",
         "-I%s/3rd/boost-bindings" % REPO, "-I%s/3rd/log4cpp/include" % REPO, "-I%s/3rd/tinyxml" % REPO,
         "-I%s/src" % REPO, "-I%s/drivers" % HERE, "-DLOG4CPP_DISABLE_LOGGING", "-DBOOST_SP_DISABLE_THREADS", "-w", "-fno-access-control", "-include", "ctime"]
OPT = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno", "-gline-tables-only",
       "-mllvm", "-inline-threshold=100000", "-mllvm", "-unroll-threshold=20000", "-fno-strict-aliasing"]


class Broken(Exception):
    """the analysis itself could not be carried out (not a verdict)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, encoding="latin-1", **kw)


_lock = threading.Lock()


def tool(name):
    """compile /verif/tools/<name>.cpp once (against LLVM)"""
    with _lock:
        os.makedirs(BUILD, exist_ok=True)
        src = os.path.join(HERE, "tools", name + ".cpp")
        out = os.path.join(BUILD, name)
        if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
            return out
        cf = sh(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"]).stdout.split()
        tmp = out + ".tmp%d" % os.getpid()
        r = sh([CLANG, "-O1"] + cf + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        if r.returncode:
            raise Broken("cannot build tool %s:\n%s" % (name, r.stderr[-3000:]))
        os.rename(tmp, out)
        return out


class Unit:
    def __init__(self, driver, flags=(), opt=None, keep_new=False):
        self.driver = driver
        self.keep_new = keep_new        # the optimiser may not drop allocations whose storage is never used
        self.flags = list(flags)
        self.opt = OPT if opt is None else opt
        self.mod = None

    def load(self):
        if self.mod is not None:
            return self
        dump = tool("irdump")
        d = tempfile.mkdtemp(prefix="u_", dir=BUILD)
        try:
            src = self.driver if os.path.isabs(self.driver) else os.path.join(HERE, "drivers", self.driver)
            bc = os.path.join(d, "a.bc")
            r = sh([CLANG] + FLAGS + self.flags + self.opt + (["-Xclang", "-disable-llvm-passes"] if self.keep_new else []) + ["-emit-llvm", "-c", src, "-o", bc])
            if r.returncode:
                raise Broken("driver %s does not compile against %s:\n%s" % (self.driver, REPO, r.stderr[-4000:]))
            if self.keep_new:
                r = sh(["opt-18", "-passes=default<O2>", "-vectorize-loops=false", "-vectorize-slp=false", "-inline-threshold=100000", "-unroll-threshold=20000"]
                       + ["-disable-builtin=" + f for f in ("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "malloc", "calloc", "realloc")] + [bc, "-o", bc])
                if r.returncode:
                    raise Broken("opt failed on %s: %s" % (self.driver, r.stderr[-1000:]))
            r = sh([dump, bc])
            if r.returncode:
                raise Broken("irdump failed on %s: %s" % (self.driver, r.stderr[-1000:]))
            self.mod = json.loads(r.stdout)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return self

    def entries(self, prefix="vf_"):
        return [n for n, f in self.mod["functions"].items() if n.startswith(prefix) and not f["decl"]]


def in_lazy(prefix):
    def lz(r, o, size, ty):
        if ty == "ptr":
            return vg.lazy_any(r, o, size, ty)
        return mk("var", "%s%d" % (prefix, o // 8))
    return lz


def changed_globals(e, mem):
    """the globals the run left with another content: {name: (region, initial cells)}"""
    out = {}
    for name, r in e.gmem.items():
        ini = {}
        if "init" in e.G[name]:
            e.initcells(ini, e.G[name]["init"], 0, mem)
        now = mem.d.get(r, {})
        if any(v != ini.get(k) and not (isinstance(ini.get(k), tuple) and isinstance(ini[k][1], tuple)) for k, v in now.items()):
            out[name] = r, ini
    return out


class Graph:
    """value graph of one driver entry"""

    def __init__(self, unit, name, nin, nout, handlers=None, extra=(), fuel=2000000, eh=False, bounded=None):
        if name not in unit.mod["functions"]:
            raise Broken("driver entry %s vanished" % name)
        self.name = name
        e = Engine(unit.mod, handlers, fuel, eh)
        self.e = e
        mem = Mem()
        ri = Region("in", "in", nin * 8, in_lazy("in"))
        ro = Region("out", "out", nout * 8)
        self.ri, self.ro = ri, ro
        if bounded:
            vg.PARTITION = vg.Bounded(bounded)
        try:
            st, val, mem = e.call(name, [Ptr(ri, 0), Ptr(ro, 0)] + list(extra), mem)
        except Unsupported as x:
            raise Broken("%s: %s (at %s)" % (name, x, fmtloc(e.curloc)))
        except RecursionError:
            raise Broken("%s: recursion limit" % name)
        finally:
            if bounded:
                vg.PARTITION = None
        self.status, self.thrown, self.mem = st, val, mem
        self.val = val
        self.out = []
        if st != "throw":
            for k in range(nout):
                self.out.append(e.load(mem, Ptr(ro, 8 * k), 8, "double"))
        self.out2 = None
        ch = changed_globals(e, mem)
        if st != "throw" and any("8Ubitrack" in n and not n.startswith("_ZGV") for n in ch):
            self.again(unit, name, nin, nout, handlers, extra, fuel, eh, bounded)
        self.events = e.events
        self.steps = e.steps

    def again(self, unit, name, nin, nout, handlers, extra, fuel, eh, bounded):
        """the library keeps state in a global: outputs of a second call, after one with other inputs (pin0..)"""
        e = Engine(unit.mod, handlers, fuel, eh)
        mem = Mem()
        if bounded:
            vg.PARTITION = vg.Bounded(bounded)
        try:
            for pre in ("pin", "in"):
                for n, (r, ini) in changed_globals(e, mem).items():
                    if "8Ubitrack" not in n:
                        mem.d[r] = ini
                e.fresh_n, e.alloc_log = {}, []
                ro = Region("out", "out", nout * 8)
                st, val, mem = e.call(name, [Ptr(Region(pre, "in", nin * 8, in_lazy(pre)), 0), Ptr(ro, 0)] + list(extra), mem)
                if st == "throw":
                    return
            self.out2 = [e.load(mem, Ptr(ro, 8 * k), 8, "double") for k in range(nout)]
        except Unsupported:
            pass
        finally:
            if bounded:
                vg.PARTITION = None

    def loc(self, k):
        return fmtloc(self.e.store_log.get((self.ro, 8 * k)))


def fmtloc(l):
    if not l:
        return "?"
    fr = [(f, n, s) for f, n, s in l]
    rep = [x for x in fr if "/src/ut" in x[0]]
    x = (rep or fr)[0]
    f = x[0]
    i = f.find("/src/ut")
    if i >= 0:
        f = f[i + 1:]
    return "%s:%d" % (f, x[1])


TINY = 2e-3


HUGE = 1e30


try:
    GATES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gates.json")))
except IOError:
    GATES = {}
SEEN_GATES = {}


def tiny(ctx, n):
    """is n a threshold below which values count as degenerate?  Only thresholds of the size the operation is known
    to have (gates.json; also for squares and roots of the compared value) are; both sides of any other are analysed"""
    if n.op != "const" or not 0 < n.args[0] <= TINY:
        return False
    e = getattr(ctx, "entry", None)
    if "VERIF_GATES" in os.environ:
        SEEN_GATES[str(e)] = max(SEEN_GATES.get(str(e), 0), float(n.args[0]))
        return True
    k = GATES.get(str(e), 0)
    return 0 < n.args[0] <= max(k, k ** .5) * (1 + 1e-6)


def gate_generic(ctx, c):
    """a comparison of a value with a tiny positive constant takes the not-tiny side, with a huge one the not-huge side"""
    if c.op == "flt":
        a, b = c.args
        if a.op == "const" and a.args[0] >= HUGE:
            return False
        if b.op == "const" and b.args[0] >= HUGE:
            return True
        if tiny(ctx, a):
            return True
        if tiny(ctx, b):
            return False
    return None


def gate_small(ctx, c):
    if c.op == "flt":
        a, b = c.args
        if tiny(ctx, a):
            return False
        if tiny(ctx, b):
            return True
    return None


MEMBAD = ("oob-load", "oob-store", "null-load", "null-store")


class Check:
    def __init__(self, prop, title):
        self.prop = prop
        self.title = title
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.instances = []     # dicts
        self.units = {}
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.samples = 3
        self.more, self.patience = 12, 3
        self.nfun = 0
        self.steps = 0
        self.assumptions = []
        self.rules = {}
        self.floor = 0
        self.broken = []

    def unit(self, driver, **kw):
        u = self.units.get(driver)
        if u is None:
            u = Unit(driver, **kw)
            self.units[driver] = u
        return u.load()

    def preload(self, *drivers):
        for d in drivers:
            if d not in self.units:
                self.units[d] = Unit(d)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda d: self.units[d].load(), drivers))

    def violate(self, key, text):
        self.viol.append((key, text))

    def note(self, **kw):
        self.instances.append(kw)

    # ---- core obligation: outputs of `entry` equal spec(ctx, x) for every input of the domain
    def equal(self, driver, entry, *a, **kw):
        try:
            return self._equal(driver, entry, *a, **kw)
        except Broken as b:
            self.broken.append("%s: %s" % (entry, b))
            self.note(entry=entry, ok=False, undecided=str(b)[:200])
        except Exception as b:      # the analyser met something it does not model: no verdict for this obligation
            self.broken.append("%s: internal %s: %s" % (entry, type(b).__name__, b))
            self.note(entry=entry, ok=False, undecided=repr(b)[:200])
            if os.environ.get("VERIF_DEBUG"):
                raise

    def uncovered(self, coins, extra, t0):
        """some comparison the domain leaves open was met with one outcome only: draw more (within reason)"""
        return extra < self.more and time.time() - t0 < self.patience and any(len(v) == 1 for v in coins.values())

    def stale(self, ctx, g, dom, x, out, rng):
        """a call must not depend on what an earlier call with other inputs, or with only some of them changed, left in a global"""
        other = list(dom(ctx))
        past = [other] + [x[:k] + other[k:] for k in (len(x) // 2,)] + [other[:k] + x[k:] for k in (len(x) // 2,)]
        past += [x[:k] + other[k:k + 1] + x[k + 1:] for k in rng.sample(range(len(x)), min(len(x), 24))]
        past += [other[:k] + x[k:k + 1] + other[k + 1:] for k in rng.sample(range(len(x)), min(len(x), 8))]
        bad = {}
        for h in past:
            c2 = copy.copy(ctx)
            c2.vars, c2.memo = dict(ctx.vars), {}
            for k, v in enumerate(h):
                c2.vars["pin%d" % k] = v
            for k, n in enumerate(g.out2):
                try:
                    v = c2.ev(n) if isinstance(n, vg.Node) else c2.N(n)
                except (UndefUse, Resample, NotInterpreted):
                    continue
                if v.v != out[k].v:
                    bad["state%d" % k] = "a second call gives another value than the first one, from state an earlier call left in a global"
        return bad

    def _equal(self, driver, entry, dom, spec, nout, anchor="", rule="value-equality", gate=gate_generic, names=None,
              handlers=None, nd=0, samples=None, throws="never", post=None, extra=(), graph=None, allow_undef=False, zero_ok=True, bounded=None):
        """dom(ctx) -> list of N (the driver's inputs); spec(ctx, x, out) -> list of expected N or of (label, got, want)"""
        u = self.unit(driver)
        key0 = entry
        tries = 0
        done = 0
        bad = {}
        g = graph
        rng = random.Random("%d/%s" % (self.seed, entry))
        want_samples = samples or self.samples
        nin = None
        stage, valued, zero = "", 0, 0
        coins, t0 = {}, None
        while done < want_samples or self.uncovered(coins, done - want_samples, t0):
            tries += 1
            if tries > 6000 and done < want_samples:
                raise Broken("%s: no sample point found for the domain" % entry)
            ctx = Ctx(rng, gate, nd)
            ctx.entry = driver + ":" + entry
            try:
                stage = "domain"
                x = dom(ctx)
                if nin is None:
                    nin = len(x)
                if g is None:
                    g = Graph(u, entry, len(x), nout, handlers, extra, bounded=bounded)
                    self.nfun += 1
                    self.steps += g.steps
                    if g.status == "throw":
                        bad["throw"] = "always raises (%s)" % (g.thrown,)
                        break
                    for ev in g.events:
                        if ev[0] in MEMBAD and not ev[4]:
                            bad[ev[0]] = "%s %s at %s" % (ev[0], ev[1], fmtloc(ev[3]))
                    if bad:
                        break
                for k, v in enumerate(x):
                    ctx.vars["in%d" % k] = v
                ctx.x = x
                out = []
                und = None
                stage = "code"
                for k, n in enumerate(g.out):
                    try:
                        out.append(ctx.ev(n) if isinstance(n, vg.Node) else ctx.N(n))
                    except UndefUse as ue:
                        if allow_undef:
                            out.append(None)
                            continue
                        und = (k, ue.tag)
                        break
                if und:
                    bad["out%d" % und[0]] = "output %s depends on uninitialised or out-of-range storage (%s)" % (
                        names[und[0]] if names else und[0], und[1])
                    break
                for ev in g.events:
                    if ev[0] in MEMBAD and ev[4] and all(ctx.cond(c) for c in ev[2]):
                        bad[ev[0]] = "%s %s at %s" % (ev[0], ev[1], fmtloc(ev[3]))
                if throws == "never":
                    for ev in g.events:
                        if ev[0] == "throw" and all(ctx.cond(c) for c in ev[2]):
                            bad["throw"] = "raises (%s) for an admissible input, at %s" % (ev[1], fmtloc(ev[3]))
                stage, valued = "spec", valued + 1
                exp = spec(ctx, x, out)
                for k, e in enumerate(exp):
                    if isinstance(e, tuple):
                        lab, got, want = e
                    else:
                        lab, got, want = (names[k] if names else "out%d" % k), out[k], e
                    if want is None:
                        continue
                    if isinstance(want, (int,)):
                        want = ctx.N(want)
                    if isinstance(got, int):
                        got = ctx.N(got)
                    if got.v != want.v:
                        if lab not in bad:
                            bad[lab] = "value differs from the specified value (computed at %s)" % (
                                g.loc(k) if not isinstance(e, tuple) else (anchor or "?"))
                if g.out2:      # last: the domain object is drawn again for the earlier call
                    bad.update(self.stale(ctx, g, dom, x, out, rng))
                t0 = t0 or time.time()
                for k, v in ctx.coins.items():
                    coins.setdefault(k, set()).add(v)
                done += 1
            except Resample as r:
                if stage == "code" and str(r) in ("division by zero", "singular system"):
                    zero += 1
                    if zero >= 100 and not valued or not zero_ok:
                        bad["value"] = str(r) + " for " + ("every admissible input" if zero_ok else "an admissible input")
                        break
                continue
            except NotInterpreted as x_:
                raise Broken("%s: %s" % (entry, x_))
        for lab, t in bad.items():
            self.violate("%s/%s" % (entry, lab), "%s [%s] %s: %s" % (anchor or entry, rule, lab, t))
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.note(entry=entry, anchor=anchor, rule=rule, outputs=nout, ir_steps=g.steps if g else 0, ok=not bad)
        return g

    def partitioned(self, driver, entry, dom, spec, nout, anchor="", rule="value-equality", handlers=None, limit=20000):
        """as equal(), with one value graph per class of the partition by outcomes of order comparisons;
        spec(ctx, x, less): less(a, b) is the outcome of a < b in the class"""
        try:
            u = self.unit(driver)
            rng = random.Random("%d/%s" % (self.seed, entry))
            part, n, steps, bad = vg.Partition(), 0, 0, {}
            while part is not None and not bad:
                n += 1
                if n > limit:
                    raise Broken("more than %d classes" % limit)
                ctx = Ctx(rng, None)
                x = dom(ctx)
                vg.PARTITION = part
                try:
                    g = Graph(u, entry, len(x), nout, handlers)
                finally:
                    vg.PARTITION = None
                steps += g.steps
                if g.status == "throw":
                    bad["throw"] = "raises (%s)" % (g.thrown,)
                for ev in g.events:
                    if ev[0] in MEMBAD or ev[0] == "throw":
                        bad[ev[0]] = "%s %s at %s" % (ev[0], ev[1], fmtloc(ev[3]))
                for _ in range(50):
                    try:
                        for k, v in enumerate(x):
                            ctx.vars["in%d" % k] = v
                        tab = {}
                        for a, b, r in part.atoms:
                            p, q = ctx.ev(a).v, ctx.ev(b).v
                            tab[p, q] = r
                            tab[q, p] = not r

                        def less(a, b):
                            a, b = (a if isinstance(a, N) else ctx.N(a)), (b if isinstance(b, N) else ctx.N(b))
                            r = tab.get((a.v, b.v))
                            return fp.is_qr((b.v - a.v) % P) if r is None else r
                        exp = spec(ctx, x, less)
                        for k, e in enumerate(exp):
                            try:
                                got = ctx.ev(g.out[k]) if isinstance(g.out[k], vg.Node) else ctx.N(g.out[k])
                            except UndefUse as ue:
                                bad["out%d" % k] = "depends on uninitialised or out-of-range storage (%s)" % ue.tag
                                continue
                            want = ctx.N(e) if isinstance(e, int) else e
                            if e is not None and got.v != want.v:
                                bad["out%d" % k] = "value differs from the specified value (computed at %s) in class %s" % (
                                    g.loc(k), "".join("01"[r] for _, _, r in part.atoms))
                        break
                    except Resample:
                        ctx = Ctx(rng, None)
                        x = dom(ctx)
                else:
                    raise Broken("no sample point")
                part = part.next()
            self.nfun += 1
            self.steps += steps
            for lab, t in bad.items():
                self.violate("%s/%s" % (entry, lab), "%s [%s] %s: %s" % (anchor or entry, rule, lab, t))
            self.rules[rule] = self.rules.get(rule, 0) + 1
            self.note(entry=entry, anchor=anchor, rule=rule, classes=n, ir_steps=steps, ok=not bad)
        except Exception as b:
            self.broken.append("%s: %s: %s" % (entry, type(b).__name__, b))
            self.note(entry=entry, ok=False, undecided=repr(b)[:200])
            if os.environ.get("VERIF_DEBUG"):
                raise

    def ordered(self, driver, entry, forms, spec, nout, anchor="", rule="value-equality", facts=(), limit=20000, prefix=()):
        """one value graph per class of mutually consistent outcomes of comparisons (vg.OrderPartition);
        forms: the inputs as linear forms over independent quantities (constant last), facts: forms known to be positive;
        spec(ctx, x, out, nonneg) -> [(label, holds)], nonneg(form): form >= 0 follows from the comparisons of the class"""
        try:
            u = self.unit(driver)
            rng = random.Random("%d/%s" % (self.seed, entry))
            ctx = Ctx(rng, None)
            forms = tuple(map(tuple, forms))
            base = [ctx.var() for _ in forms[0][:-1]]
            val = lambda f: sum((v * c for v, c in zip(base, f)), ctx.N(f[-1]))
            x = [val(f) for f in forms]
            for k, v in enumerate(x):
                ctx.vars["in%d" % k] = v
            part = vg.OrderPartition(lambda n: ctx.ev(n).v, prefix, [(val(f).v, tuple(f)) for f in facts], forms)
            n, steps, bad = 0, 0, {}
            while part is not None and not bad:
                n += 1
                if n > limit:
                    raise Broken("more than %d classes" % limit)
                vg.PARTITION = part
                try:
                    g = Graph(u, entry, len(x), nout)
                finally:
                    vg.PARTITION = None
                steps += g.steps
                cls = "".join("01"[r] for _, _, r in part.atoms)
                if g.status == "throw":
                    bad["throw"] = "raises (%s) in class %s" % (g.thrown, cls)
                    break
                for ev in g.events:
                    if ev[0] in MEMBAD or ev[0] == "throw":
                        bad[ev[0]] = "%s %s at %s in class %s" % (ev[0], ev[1], fmtloc(ev[3]), cls)
                if bad:
                    break
                out = []
                for k, nd in enumerate(g.out):
                    try:
                        out.append(ctx.ev(nd) if isinstance(nd, vg.Node) else ctx.N(nd))
                    except UndefUse as ue:
                        bad["out%d" % k] = "depends on uninitialised or out-of-range storage (%s)" % ue.tag
                if bad:
                    break
                for lab, ok in spec(ctx, x, out, lambda f: not any(f) or part.implied(val(f).v, tuple(f))):
                    if not ok:
                        bad[lab] = "does not hold in the class of comparison outcomes %s" % cls
                part = part.next()
            self.nfun += 1
            self.steps += steps
            for lab, t in bad.items():
                self.violate("%s/%s" % (entry, lab), "%s [%s] %s: %s" % (anchor or entry, rule, lab, t))
            self.rules[rule] = self.rules.get(rule, 0) + 1
            self.note(entry=entry, anchor=anchor, rule=rule, classes=n, ir_steps=steps, ok=not bad)
            return n
        except Broken as b:
            self.broken.append("%s: %s" % (entry, b))
            self.note(entry=entry, ok=False, undecided=str(b)[:200])
        except Exception as b:
            self.broken.append("%s: internal %s: %s" % (entry, type(b).__name__, b))
            self.note(entry=entry, ok=False, undecided=repr(b)[:200])
            if os.environ.get("VERIF_DEBUG"):
                raise

    def raises(self, driver, entry, dom, nout, anchor="", rule="refuses", gate=None, handlers=None, samples=None, extra=()):
        """for every input of the domain the entry ends with an exception"""
        try:
            u = self.unit(driver)
            rng = random.Random("%d/%s" % (self.seed, entry))
            g, done, bad, tries = None, 0, None, 0
            while done < (samples or self.samples) and not bad:
                tries += 1
                if tries > 6000:
                    raise Broken("%s: no sample point found for the domain" % entry)
                ctx = Ctx(rng, gate)
                ctx.entry = driver + ":" + entry
                try:
                    x = dom(ctx)
                    if g is None:
                        g = Graph(u, entry, len(x), nout, handlers, extra)
                        self.nfun += 1
                        self.steps += g.steps
                        for ev in g.events:
                            if ev[0] in MEMBAD and not ev[4]:
                                bad = "%s %s at %s before it is refused" % (ev[0], ev[1], fmtloc(ev[3]))
                    if g.status == "throw" or bad:
                        break
                    for k, v in enumerate(x):
                        ctx.vars["in%d" % k] = v
                    if not any(ev[0] == "throw" and all(ctx.cond(c) for c in ev[2]) for ev in g.events):
                        bad = "accepted without an exception"
                    done += 1
                except Resample:
                    continue
                except NotInterpreted as x_:
                    raise Broken("%s: %s" % (entry, x_))
            if bad:
                self.violate("%s/%s" % (entry, rule), "%s [%s]: %s" % (anchor or entry, rule, bad))
            self.rules[rule] = self.rules.get(rule, 0) + 1
            self.note(entry=entry, anchor=anchor, rule=rule, ir_steps=g.steps if g else 0, ok=not bad)
        except Broken as b:
            self.broken.append("%s: %s" % (entry, b))
            self.note(entry=entry, ok=False, undecided=str(b)[:200])
        except Exception as b:
            self.broken.append("%s: internal %s: %s" % (entry, type(b).__name__, b))
            self.note(entry=entry, ok=False, undecided=repr(b)[:200])

    # ---- end
    def finish(self, level="other", explanation="", floor=None, extra=None):
        if "VERIF_GATES" in os.environ:
            json.dump(SEEN_GATES, open(os.path.join(os.environ["VERIF_GATES"], "%s_%d.json" % (self.prop, self.seed)), "w"))
        kf = {}
        p = os.path.join(HERE, "known_findings.json")
        if os.path.exists(p):
            for e in json.load(open(p)):
                if e.get("property") == self.prop and e.get("status") == "known":
                    kf[e["key"]] = e
        floor = floor if floor is not None else self.floor
        ninst = len(self.instances)
        new = [(k, t) for k, t in self.viol if k not in kf]
        old = [(k, t) for k, t in self.viol if k in kf]
        for k, t in old:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, k, kf[k]["what"]))
        cov = {
            "obligations": ninst, "discharged": sum(1 for i in self.instances if i.get("ok")),
            "functions_analysed": self.nfun, "ir_instructions": self.steps,
            "rules": self.rules, "units": sorted(self.units), "instances": self.instances[:400],
            "floor": floor, "undecided": [b[:300] for b in self.broken],
            "explanation": explanation or "static value-graph analysis of the compiled source; see DESIGN.md",
        }
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions,
              "violations": len(new)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d functions, %d IR instructions, %.1fs" % (
            self.prop, ninst, cov["discharged"], self.nfun, self.steps, time.time() - self.t0))
        if new:
            rp = os.path.join(HERE, "evidence", self.prop + ".violation.txt")
            with open(rp, "w") as f:
                for k, t in new:
                    f.write("%s\n    %s\n" % (k, t))
            seen = {}
            for k, t in new:
                e = k.split("/")[0]
                seen[e] = seen.get(e, 0) + 1
                if seen[e] <= 2:
                    print("  violated: %s :: %s" % (k, t))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.broken:
            for b in self.broken:
                print("UNDECIDED property=%s %s" % (self.prop, b))
        dec = ninst - len(self.broken)
        if dec < floor or dec == 0:
            print("ANALYSIS-BROKEN: only %d rule instances decided, expected at least %d" % (dec, floor))
            return 2
        return 0


def string_handlers():
    """library calls on std::string, abstracted: a valid string of unknown content (messages are irrelevant to the effects)"""
    def mutate(e, ins, name, a, mem):
        p = a[0]
        if isinstance(p, Ptr) and isinstance(p.o, int):
            e.store(mem, p, Ptr(p.r, p.o + 16), 8)
            e.store(mem, Ptr(p.r, p.o + 8), 0, 8)
            e.store(mem, Ptr(p.r, p.o + 16), 0, 1)
        return ("ok", p if "t" in ins else None, mem)

    def create(e, ins, name, a, mem):
        return ("ok", Ptr(e.region("heap", "heap", 4096), 0), mem)
    pre = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
    h = {pre + "9_M_createERmm": create, pre + "10_M_disposeEv": lambda e, ins, n, a, m: ("ok", None, m), "strlen": lambda e, ins, n, a, m: ("ok", 1, m)}
    h[pre + "*"] = mutate
    h["_ZNSt7__cxx1112basic_string*"] = mutate
    return h


HEAPBAD = ("use-after-free", "double-free", "bad-free", "mismatched-free")


class MemCheck(Check):
    """runs the obligations of another property for their use of storage only: every access inside live objects, nothing read before
    it is written, everything allocated released exactly once (or still reachable)"""

    def unit(self, driver, **kw):
        return Check.unit(self, driver, keep_new=True, **kw)

    def preload(self, *drivers):
        for d in drivers:
            self.unit(d)

    def memory(self, driver, entry, dom, nout, anchor, gate, handlers, extra, part=None, eh=False, nd=0, samples=None, allow_undef=False, bounded=None):
        key = (driver, entry, eh)
        try:
            u = self.unit(driver)
            rng = random.Random("%d/%s" % (self.seed, entry))
            g, done, tries, bad, leaks, per = None, 0, 0, {}, [], []
            while done < (samples or self.samples):
                tries += 1
                if tries > 6000:
                    raise Broken("%s: no sample point found for the domain" % entry)
                ctx = Ctx(rng, gate, nd)
                ctx.entry = driver + ":" + entry
                try:
                    x = dom(ctx)
                    if g is None:
                        vg.MEMCHECK = True
                        try:
                            g = Graph(u, entry, len(x), nout, handlers, extra, eh=eh, bounded=bounded)
                        finally:
                            vg.MEMCHECK = False
                        self.nfun += 1
                        self.steps += g.steps
                        if g.status == "throw" and not eh:
                            break
                        leaks = g.e.leaks(g.mem, [g.ri, g.ro])
                    for k, v in enumerate(x):
                        ctx.vars["in%d" % k] = v
                    ctx.x = x
                    if not eh and any(ev[0] == "throw" and all(ctx.cond(c) for c in ev[2]) for ev in g.events):
                        done += 1
                        continue
                    for ev in g.events:
                        if ev[0] in MEMBAD + HEAPBAD and all(ctx.cond(c) for c in ev[2]):
                            bad[ev[0]] = "%s %s at %s" % (ev[0], ev[1], fmtloc(ev[3]))
                    for r, c in leaks:
                        if ctx.cond(c):
                            bad["leak"] = "storage allocated at %s is neither released nor reachable at the end" % fmtloc(r.where)
                    if not allow_undef and g.status != "throw":
                        for k, n in enumerate(g.out):
                            try:
                                isinstance(n, vg.Node) and ctx.ev(n)
                            except UndefUse as ue:
                                bad["uninitialised"] = "result %d depends on uninitialised or out-of-range storage (%s)" % (k, ue.tag)
                                break
                    done += 1
                except Resample:
                    continue
                except NotInterpreted as x_:
                    raise Broken("%s: %s" % (entry, x_))
            for lab, t in bad.items():
                self.violate("%s/%s" % (entry, lab), "%s: %s" % (anchor or entry, t))
            self.rules["storage"] = self.rules.get("storage", 0) + 1
            self.allocs = getattr(self, "allocs", 0) + (len(g.e.alloc_log) if g else 0)
            self.note(entry=entry + ("/raise" if eh else ""), anchor=anchor, rule="storage", ir_steps=g.steps if g else 0, ok=not bad)
            return g
        except Broken as b:
            self.broken.append("%s: %s" % (entry, b))
            self.note(entry=entry, ok=False, undecided=str(b)[:200])
        except Exception as b:
            self.broken.append("%s: internal %s: %s" % (entry, type(b).__name__, b))
            self.note(entry=entry, ok=False, undecided=repr(b)[:200])
            if os.environ.get("VERIF_DEBUG"):
                raise

    def equal(self, driver, entry, dom, spec, nout, anchor="", rule="", gate=gate_generic, names=None, handlers=None, nd=0, samples=None,
              throws="never", post=None, extra=(), graph=None, allow_undef=False, zero_ok=True, bounded=None):
        return self.memory(driver, entry, dom, nout, anchor, gate, handlers, extra, nd=nd, allow_undef=allow_undef, bounded=bounded)

    def raises(self, driver, entry, dom, nout, anchor="", rule="", gate=None, handlers=None, samples=None, extra=()):
        return self.memory(driver, entry, dom, nout, anchor, gate, handlers, extra, eh=True, allow_undef=True)

    def partitioned(self, driver, entry, dom, spec, nout, anchor="", rule="", handlers=None, limit=20000):
        pass

    def ordered(self, driver, entry, forms, spec, nout, anchor="", rule="", facts=(), limit=20000, prefix=()):
        if (driver, entry) in getattr(self, "seen_ordered", set()):
            return
        self.seen_ordered = getattr(self, "seen_ordered", set()) | {(driver, entry)}
        try:
            ctx = Ctx(random.Random("%d/%s" % (self.seed, entry)), None)
            forms = tuple(map(tuple, forms))
            base = [ctx.var() for _ in forms[0][:-1]]
            val = lambda f: sum((v * c for v, c in zip(base, f)), ctx.N(f[-1]))
            for k, f in enumerate(forms):
                ctx.vars["in%d" % k] = val(f)
            part = vg.OrderPartition(lambda n: ctx.ev(n).v, prefix, [(val(f).v, tuple(f)) for f in facts], forms)
            n, bad = 0, {}
            while part is not None and n < 12 and not bad:
                n += 1
                vg.PARTITION, vg.MEMCHECK = part, True
                try:
                    g = Graph(self.unit(driver), entry, len(forms), nout)
                finally:
                    vg.PARTITION, vg.MEMCHECK = None, False
                self.steps += g.steps
                self.allocs = getattr(self, "allocs", 0) + len(g.e.alloc_log)
                for ev in g.events:
                    if ev[0] in MEMBAD + HEAPBAD:
                        bad[ev[0]] = "%s %s at %s" % (ev[0], ev[1], fmtloc(ev[3]))
                for r, c in g.e.leaks(g.mem, [g.ri, g.ro]):
                    if ctx.cond(c):
                        bad["leak"] = "storage allocated at %s is neither released nor reachable at the end" % fmtloc(r.where)
                part = part.next()
            self.nfun += 1
            for lab, t in bad.items():
                self.violate("%s/%s" % (entry, lab), "%s: %s" % (anchor or entry, t))
            self.rules["storage"] = self.rules.get("storage", 0) + 1
            self.note(entry=entry, anchor=anchor, rule="storage", ir_steps=g.steps, classes=n, ok=not bad)
        except Broken as b:
            self.broken.append("%s: %s" % (entry, b))
            self.note(entry=entry, ok=False, undecided=str(b)[:200])
