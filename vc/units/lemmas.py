"""Unit: lemma functions (inst/lemmas.cpp) over the real value classes of the library: history keys, type
identities, results, reference counts, copies of events.  Each must return true for all arguments."""
from unit import *
import exec as execmod


class LemmaExecutor(execmod.Executor):
    """pointers of unknown objects are bit vectors, addresses of objects are distinct unknown numbers"""
    def address(self, w, p):
        if is_sym(p):
            return p
        if not isinstance(p, tuple):
            return z3.BitVecVal(p, 64)
        p = w.resolve(p)
        if not isinstance(p, P):
            raise Unsupported("address of %s" % show(p))
        if p.o == 0:
            return z3.BitVecVal(p.off, 64)
        return z3.BitVec("address of %s" % (p.o,), 64) + p.off

    def icmp(self, w, s, pred, ty, a, b):
        pa, pb = isinstance(a, tuple), isinstance(b, tuple)
        if (pa or pb) and not (undef(a) or undef(b)):
            if is_sym(a) and b == NULL or is_sym(b) and a == NULL:
                return execmod.Executor.icmp(self, w, s, pred, ty, a if is_sym(a) else 0, b if is_sym(b) else 0)
            if pa and pb and pred not in ("eq", "ne"):
                x, y = w.resolve(a), w.resolve(b)
                if isinstance(x, P) and isinstance(y, P) and x.o != y.o:
                    A, B = self.address(w, x), self.address(w, y)
                    w.assume(A != B)
                    return z3.simplify({"ult": z3.ULT, "ugt": z3.UGT, "ule": z3.ULE, "uge": z3.UGE}[pred](A, B))
        return execmod.Executor.icmp(self, w, s, pred, ty, a, b)


IDENT = z3.Function("type denoted by", z3.BitVecSort(64), z3.BitVecSort(64))


def type_of(e, w, p):
    """type_info objects may denote the same type; those of different classes of the unit do not"""
    return IDENT(e.ex.address(w, p))


def distinct(e, w, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        x, y = w.resolve(a), w.resolve(b)
        if x.o != y.o:
            w.assume(type_of(e, w, x) != type_of(e, w, y))


def ti_equal(e, ex, w, s, a):
    distinct(e, w, *a)
    return ex.ret(w, s, z3.simplify(type_of(e, w, a[0]) == type_of(e, w, a[1])))


def ti_before(e, ex, w, s, a):
    distinct(e, w, *a)
    return ex.ret(w, s, z3.simplify(z3.ULT(type_of(e, w, a[0]), type_of(e, w, a[1]))))


def new(e, ex, w, s, a):
    """fails or returns a fresh block"""
    if w.decide_key("allocation %d" % len(s.mem), ("succeeds", "fails")) == "fails":
        s.flying = Exc("thrown _ZTISt9bad_alloc", "_ZTISt9bad_alloc")
        return None
    return ex.ret(w, s, P(s.new_private("allocated block", a[0], "heap"), 0))


def no_leak(e, w):
    e.stats.obl.setdefault("every allocated block is freed", [0, 0])[0] += 1
    for o in w.body.mem.values():
        if o.name == "allocated block" and o.alive:
            raise Violation("every allocated block is freed", "a block of %s bytes is never freed" % o.size)


class LemmaUnit(Unit):
    def __init__(self, flags=()):
        self.flags = ["-DBOOST_DISABLE_THREADS", "-fno-threadsafe-statics"] + list(flags)
        self.name = "lemmas" + "".join(re.sub(r"\W", "_", f) for f in flags)

    def load(self, outdir):
        self.mod = Module(compile_unit(VERIF + "/inst/lemmas.cpp", self.flags, outdir))
        self.finder = Finder(self.mod)
        self.specs = specmod.compile_specs("def holds():\n    return True\n")

    def engine(self):
        e = Engine(self.mod, {}, timeout_ms=20000)
        e.ex = LemmaExecutor(self.mod, e)
        e.specs = self.specs
        e.real_types = True
        e.static_globals = {g for g in self.mod.globals if re.search(r"^(_ZL\d+)?(alive|taken|odd)$", g) or "id_holder<E3>::" in self.mod.dem(g)}
        e.intercepts.update({"_ZNKSt9type_infoeqERKS_": ti_equal, "_ZNKSt9type_info6beforeERKS_": ti_before, "_Znwm": new,
                             "_ZNKSt9type_infoneERKS_": None})
        e.final_check = no_leak
        self.sym = {n: n for n in self.lemmas()}
        return e

    def lemmas(self):
        src = open(VERIF + "/inst/lemmas.cpp").read()
        return [n for n in re.findall(r"^LEMMA\( (\w+)", src, re.M) if n in self.mod.funcs]

    def proofs(self):
        return [Proof(self, n, n, "holds", [], ["any"], {}) for n in self.lemmas()]

    def use(self, e, uses):
        pass

    def setup(self, e, w, proof, mode):
        fn = self.mod.funcs[proof.name]
        ir = []
        for i, (_, t, _) in enumerate(fn.parse().params):
            t = self.mod.resolve(t)
            ir.append(w.bv("argument %d" % i, t.n if t.k == "int" else 64))
        return ir, []
