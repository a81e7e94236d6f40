"""Compilation of instantiation units and execution of proofs."""
import os, re, subprocess, hashlib, time, sys, json
sys.setrecursionlimit(10000)
from ir import *
from core import *
from exec import *
from engine import *
import builtins_
import spec as specmod

REPO = os.environ.get("VC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = ["clang++", "-std=c++17", "-I" + REPO + "/include", "-I" + VERIF + "/inst", "-O0", "-w",
         "-fwhole-program-vtables", "-flto", "-fvisibility=hidden", "-fno-access-control",
         "-DBOOST_SP_USE_STD_ATOMIC", "-S", "-emit-llvm"]


class BuildError(Exception):
    pass


def compile_unit(src, flags, outdir):
    out = os.path.join(outdir, os.path.basename(src).replace(".cpp", "") + "_" +
                       hashlib.sha1(" ".join(flags).encode()).hexdigest()[:8] + ".ll")
    r = subprocess.run(CLANG + list(flags) + [src, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-3000:])
    return out


def use_allocator(e, flags):
    if "-DVC_ALLOC" in flags:
        e.allocator = True
        e.extra_intercepts = e.extra_intercepts + [(re.compile(r"^(\S+ )?vca::alloc<.*>::(de)?allocate\("), allocator_intercept)]


class Contract:
    """contract usable at call sites"""
    def __init__(self, name, spec=None, args=None, obs="full", requires=None, alts=None, sret=False):
        self.name, self.spec, self._args, self.obs = name, spec or name, args, obs
        self.requires, self._alts = requires, alts

    def map_args(self, ex, w, s, args):
        return self._args(ex, w, s, args) if self._args else list(args)

    def alts(self, e, w, args):
        return self._alts(e, w, args)


class OpSem:
    """semantics of an observable action: alternatives for its outcome"""
    def __init__(self, alts, args=None, obs="full", info=None):
        self._alts, self._args, self.obs, self._info = alts, args, obs, info

    def alts(self, e, w, args):
        return self._alts(e, w, args)

    def map_args(self, e, ex, w, s, args):
        return self._args(ex, w, s, args) if self._args else list(args)

    def bodyinfo(self, e, ex, w, s, args):
        return self._info(ex, w, s, args) if self._info else None


def probe(mod, name):
    g = mod.global_init(name)
    if g is None:
        raise BuildError("probe %s missing" % name)
    return g[1][1]


def off(mod, cls, f):
    return probe(mod, "off_%s__%s" % (cls, f))


class Finder:
    def __init__(self, mod):
        self.mod = mod
        self.idx = {}
        for n in mod.funcs:
            c, m, r = split_method(mod.dem(n))
            self.idx.setdefault(m, []).append((c or "", r, n))

    def find(self, cls, meth, args=None, many=False):
        out = [n for c, r, n in self.idx.get(meth, ()) if re.search(cls, c) and (args is None or re.search(args, r))]
        out = sorted(set(self.mod.aliases.get(n, n) for n in out))
        if len(out) > 1:
            out = [n for n in out if "{lambda" not in self.mod.dem(n)] or out
        if many:
            return out
        if len(out) != 1:
            raise Missing("%s::%s %s: %d candidates %s" % (cls, meth, args, len(out), [self.mod.dem(x)[:200] for x in out[:4]]))
        return out[0]


class Missing(Exception):
    pass


def vslots(mod, sym, names):
    """map vtable slots of a real class to action names"""
    rows = mod.vtable(sym)
    out = []
    for e in rows[0][2:]:
        if e[0] != "glob":
            out.append("?")
            continue
        n = e[1]
        _, m, _ = split_method(mod.dem(n))
        if m.startswith("~"):
            m = "delete" if "D0Ev" in n else "destroy"
        out.append(names.get(m, m))
    return out


class Proof:
    """one function under contract: its real body is proved to refine a specification program"""
    def __init__(self, unit, name, sym, spec, args, modes, uses, conform=None, init=None, props=(), pre=None, **kw):
        self.unit, self.name, self.sym, self.spec, self.args, self.modes = unit, name, sym, spec, args, modes
        self.uses, self.conform, self.init, self.props, self.pre, self.kw = uses, conform, init, props, pre, kw

    def run(self, deadline=None, uses=None):
        u = self.unit
        out = Result(self)
        t0 = time.time()
        for mode in self.modes:
            e = u.engine()
            e.deadline = deadline
            u.use(e, self.uses if uses is None else uses)
            try:
                fname = u.sym[self.sym]() if callable(u.sym[self.sym]) else u.sym[self.sym]
                e.top = fname
                w = World(e)
                ir, sp = u.setup(e, w, self, mode)
                if self.pre:
                    self.pre(e, w, sp)
                if not w.feasible():
                    raise Violation("vacuity", "precondition of %s is unsatisfiable" % self.name)
                if self.conform:
                    e.final_check = conform_check(e, w, self.conform, sp)
                w.gsyms = frozenset()
                e.loop = self.kw.get("loop")
                start(e, w, fname, ir, u.specs[self.spec], sp)
                v = e.run(w, self.name)
                if not v and e.stats.paths == 0:
                    v = [Violation("vacuity", "no path of %s reaches its end" % self.name)]
            except (Missing, Violation, Unsupported) as x:
                v = [x if isinstance(x, Violation) else Violation("verifier-reach", "%s" % x)]
            except Exception as x:      # a construct the verifier does not understand: undischarged
                import traceback
                v = [Violation("verifier-reach", "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-1500:]))]
            for x in v:
                x.mode = mode
            out.add(mode, e, v)
        out.wall = time.time() - t0
        return out


class Result:
    def __init__(self, proof):
        self.name, self.viol, self.obl, self.reached = proof.name, [], {}, set()
        self.paths = self.queries = self.steps = 0
        self.qtime = 0.0
        self.fns, self.assumed, self.ops = {}, {}, {}
        self.wall = 0

    def merge(self, r):
        self.viol += r.viol
        for k, (n, q) in r.obl.items():
            a = self.obl.setdefault(k, [0, 0])
            a[0] += n
            a[1] += q
        for k in ("paths", "queries", "qtime", "steps", "wall"):
            setattr(self, k, getattr(self, k) + getattr(r, k))
        self.reached |= r.reached
        for d, x in ((self.fns, r.fns), (self.assumed, r.assumed), (self.ops, r.ops)):
            for k, n in x.items():
                d[k] = d.get(k, 0) + n

    def add(self, mode, e, v):
        st = e.stats
        self.viol += v
        for k, (n, q) in st.obl.items():
            a = self.obl.setdefault(k, [0, 0])
            a[0] += n
            a[1] += q
        self.paths += st.paths
        self.queries += st.queries
        self.qtime += st.qtime
        self.steps += e.steps
        self.reached |= {"%s: %s" % (mode, r) for r in st.reached}
        for d, x in ((self.fns, st.fns), (self.assumed, st.assumed), (self.ops, st.ops)):
            for k, n in x.items():
                d[k] = d.get(k, 0) + n


def conform_check(e, w0, tab, args):
    init = w0.body.mem[e.M].copy()

    def f(e, w):
        st = e.stats.obl.setdefault("declared outcomes cover the function", [0, 0])
        st[0] += 1
        for r in tab.rows:
            if r.conforms(e, w, args, init):
                e.stats.reached.add("outcome " + r.label)
                return
        raise Violation("declared outcomes", "the final state matches none of the outcomes callers rely on (%s)" % show_out(w.body.outcome))
    return f


def start(eng, w, fname, ir_args, spec_code, spec_args):
    fn = eng.mod.funcs[fname]
    eng.ex.push_fn(w, w.body, fn, ir_args)
    w.spec.frames.append(SpecFrame(spec_code, spec_args, eng.env))
    # a fresh exception state
    return w


class Unit:
    """tasks of a unit whose proofs are independent of each other"""
    def tasks(self, only):
        self.plist = self.proofs()
        return [i for i, p in enumerate(self.plist) if only is None or re.search(only, p.name)]

    def run_task(self, i, deadline):
        return [self.plist[i].run(deadline)], []
