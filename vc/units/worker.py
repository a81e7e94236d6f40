"""Unit: fifo_worker<> over arbitrary work items."""
from unit import *
import engine
from workengine import WorkerEngine
from spec import Ref


def run_alts(e, w, args):
    """a work item is arbitrary code: it may queue further items (as may other threads), it may be the termination item"""
    def go(kind, stop):
        def f(e, w, a):
            t = e.member("terminated")
            for s in (w.body, w.spec):
                if stop:
                    e.ex.store(w, s, t, 1, 1)
            more(e, w)
            return (kind, Exc(w.fresh("x")) if kind == "throw" else None)
        return f
    return [("returns", go("ret", 0)), ("terminates", go("ret", 1)), ("throws", go("throw", 0))]


def more(e, w):
    """any queue (in particular the old one with further items at its end)"""
    q = e.member("queue")
    seg = w.fresh("queued")
    for s in (w.body, w.spec):
        s.wr(q.o).ghost[q.off] = EvList([("v", seg)])


def wait_alts(e, w, args):
    def woken(e, w, a):
        more(e, w)
        return ("ret", None)

    def interrupted(e, w, a):
        more(e, w)
        return ("throw", Exc(w.fresh("interrupted")))
    return [("woken", woken), ("interrupted", interrupted)]


def item_alts(e, w, args):
    def ok(e, w, a):
        return ("ret", P(e.make_opaque(w, w.fresh("made"), "item"), 0))

    def thr(e, w, a):
        return ("throw", Exc(w.fresh("bad_alloc")))
    return [("built", ok), ("no memory", thr)]


class WorkerUnit(Unit):
    src = "worker.cpp"

    def __init__(self, threads):
        self.threads = threads
        self.flags = [] if threads else ["-DBOOST_DISABLE_THREADS"]
        self.name = "worker" + ("_threads" if threads else "")

    def load(self, outdir):
        self.mod = Module(compile_unit(VERIF + "/inst/" + self.src, self.flags, outdir))
        self.finder = Finder(self.mod)
        self.specs = specmod.compile_specs(open(VERIF + "/contracts/worker.py").read())

    def engine(self):
        mod = self.mod
        o = lambda f: off(mod, "W", f)
        fields = {"queue": (o("queue"), "evlist"), "terminated": (o("terminated"), "bool")}
        if self.threads:
            fields["waits"] = (o("waits"), "bool")
        item = ("ptr", {"null": True, "opaque": "item"})
        e = WorkerEngine(mod, {"W": Cls("W", probe(mod, "size_W"), dict(fields)), "item": Cls("item", 32, {}),
                               "argument": Cls("argument", 32, {"fn": (0, item)})})
        if self.threads:
            for f in ("mutex", "cond"):
                e.classes["W"].fields[f] = (o(f), "none")
        e.threads = self.threads
        e.specs = self.specs
        e.env = {"THREADS": int(self.threads)}
        e.ops = {"run_item": OpSem(run_alts), "wait": OpSem(wait_alts), "make_item": OpSem(item_alts)}
        f = self.finder.find
        C = r"^boost::statechart::fifo_worker<"
        self.sym = {"queue_work_item": f(C, "queue_work_item", r"^\(boost::function0<void>&\)"),
                    "queue_copy": f(C, "queue_work_item", r"^\(boost::function0<void> const&\)"),
                    "terminate": f(C, "terminate"), "terminated": f(C, "terminated"), "run": f(C, "operator()"),
                    "construct": f(C, "fifo_worker")}
        e.havoc_all = lambda w: (e.init_fields(w, e.W, None, w.fresh("h")))
        return e

    def proofs(self):
        ps = []
        for n, args in (("construct", ["flag"] if self.threads else []), ("queue_work_item", ["item"]), ("queue_copy", ["item"]),
                        ("terminate", []), ("terminated", []), ("run", ["limit"])):
            ps.append(Proof(self, n, n, n, args, ["any"], {}))
        return ps

    def use(self, e, uses):
        pass

    def setup(self, e, w, proof, mode):
        c = e.classes["W"]
        e.W, e.woff = w.new_shared("W", c.size, "W"), 0
        e.env["W"] = P(e.W, 0)
        if proof.name == "construct":
            e.exclusive = True
        else:
            e.init_fields(w, e.W)
        e.new_lock(w)
        # operations any thread may perform must not touch the flag of the thread that runs the items
        if self.threads and proof.name in ("queue_work_item", "queue_copy", "terminate"):
            e.ex.watch = lambda w, s, p, size, what: foreign(e, w, s, p, size, what)
        ir, sp = [P(e.W, 0)], []
        for a in proof.args:
            if a == "item":
                h = w.new_shared("argument", 32, "argument")
                e.init_fields(w, h)
                v = P(h, 0)
            elif a == "limit":
                v = w.bv("limit", 64)
            elif a == "flag":
                v = w.boolean("flag")
            ir.append(v)
            sp.append(v)
        return ir, sp


def foreign(e, w, s, p, size, what):
    t = e.member("terminated")
    if s is w.body and p.o == t.o and p.off == t.off and any(not f.spec for f in s.frames) and not e.in_lemma:
        e.bad("%s of the termination flag by a thread that does not run the items" % what)
