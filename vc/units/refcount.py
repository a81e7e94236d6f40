"""Unit: the reference count of an event shared between threads.

Thread-modular: other threads hold any number of references and change the count at any time, but never give up a reference
of this thread.  Every access to the count by the real code must be atomic; each atomic read-modify-write is an observable
action of the contract."""
from unit import *
import exec as execmod
from exec import Op


class SharedExecutor(execmod.Executor):
    def count_of(self, w, s, p):
        """the event whose count is at p, if any"""
        p = w.resolve(p)
        o = s.mem.get(p.o) if isinstance(p, P) and p.o else None
        return p if o is not None and o.cls == "event" and p.off == self.eng.fieldof("event", "count")[0] else None

    def step(self, w, s):
        f = s.frames[-1]
        if not f.spec:
            ins = f.fn.blocks[f.blk][f.ix]
            if ins.op in ("load", "store", "atomicrmw", "cmpxchg"):
                ptr = ins.a if ins.op == "load" else ins.a[1] if ins.op == "store" else ins.a[0]
                p = self.count_of(w, s, self.val(w, s, f, *ptr))
                if p is not None:
                    return self.shared(w, s, f, ins, p)
        return execmod.Executor.step(self, w, s)

    def shared(self, w, s, f, ins, p):
        e = self.eng
        st = e.stats.obl.setdefault("count of a shared event accessed atomically by a holder", [0, 0])
        st[0] += 1
        if not self.obj(w, s, p.o).alive:
            raise Violation("use after release", "the count is accessed after the reference has been given up")
        if ins.op == "atomicrmw" and ins.x in ("add", "sub"):
            v = self.val(w, s, f, *ins.a[1])
            if is_sym(v):
                raise Unsupported("change of the count by %s" % show(v))
            v = v - (1 << 32) if v >> 31 else v
            f.call = ins
            return Op("change_count", [P(p.o, 0), (v if ins.x == "add" else -v)])
        if ins.op == "load" and "load atomic" in ins.text or e.private:
            if e.private:
                return execmod.Executor.step(self, w, s)
            c = w.bv("count", 32)
            w.assume(c >= 1)
            f.regs[ins.dst] = c
            f.ix += 1
            return None
        raise Violation("data race", "%s of the reference count of a shared event is not one atomic step: %s" % (ins.op, ins.text.strip()))


def change_alts(e, w, args):
    """the number of references before the change; this thread holds one"""
    d = args[1]

    def last(e, w, a):
        return ("ret", 1)

    def others(e, w, a):
        c = w.bv("count", 32)
        w.assume(c >= (2 if d < 0 else 1))
        if d < 0:       # whoever is last may delete it from now on
            for s in (w.body, w.spec):
                s.wr(w.resolve(a[0]).o).alive = False
        return ("ret", c)
    if d not in (1, -1):
        raise Violation("reference count", "the count is changed by %d" % d)
    return [("last", last), ("others remain", others)] if d < 0 else [("shared", others)]


def delete_alts(e, w, args):
    def ok(e, w, a):
        for s in (w.body, w.spec):
            s.wr(w.resolve(a[0]).o).alive = False
        return ("ret", None)
    return [("deleted", ok)]


def clone_alts(e, w, args):
    def ok(e, w, a):
        return ("ret", P(e.make_opaque(w, w.fresh("clone"), "event"), 0))

    def thr(e, w, a):
        return ("throw", Exc(w.fresh("bad_alloc")))
    return [("cloned", ok), ("throws", thr)]


def sret_info(ex, w, s, args):
    dst = args[0]

    def f(e, w, side, v):
        e.ex.store(w, side, dst, v, 8)
        return None
    return f


class RefcountUnit(Unit):
    name = "refcount"

    def load(self, outdir):
        self.mod = Module(compile_unit(VERIF + "/inst/refcount.cpp", [], outdir))
        self.finder = Finder(self.mod)
        self.specs = specmod.compile_specs(open(VERIF + "/contracts/refcount.py").read())
        self.sym = {n: n for n in ("add_reference", "release_reference", "share")}

    def engine(self):
        mod = self.mod
        e = Engine(mod, {"event": Cls("event", probe(mod, "size_E1"), {"count": (off(mod, "E1", "count"), "i32")})})
        e.ex = SharedExecutor(mod, e)
        e.specs = self.specs
        e.private = False
        e.vslots = {"event": vslots(mod, "_ZTV2E1", {"delete": "delete_event"})}
        e.ops = {"change_count": OpSem(change_alts), "delete_event": OpSem(delete_alts),
                 "clone": OpSem(clone_alts, args=lambda ex, w, s, a: [a[1]], info=sret_info)}
        return e

    def use(self, e, uses):
        pass

    def proofs(self):
        return [Proof(self, n, n, n, a, m, {}) for n, a, m in (
            ("add_reference", [], ["shared"]), ("release_reference", [], ["shared"]), ("share", [], ["shared", "not counted"]))]

    def setup(self, e, w, proof, mode):
        o = e.make_opaque(w, "evt", "event")
        e.private = mode == "not counted"
        e.env["COUNTED"] = int(not e.private)
        w.set_both(o, e.fieldof("event", "count")[0], 0 if e.private else w.bv("count", 32), 4)
        return [P(o, 0)], [P(o, 0)]
