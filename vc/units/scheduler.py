"""Unit: fifo_scheduler<> / processor_container<> / event_processor<> with arbitrary processors."""
from unit import *
from schedengine import SchedEngine
from worker import WorkerUnit, run_alts, wait_alts, item_alts, more
from machine import delete_alts


def user_alts(e, w, args):
    """code of a processor: may use the scheduler to queue further operations"""
    def ret(e, w, a):
        more(e, w)
        return ("ret", None)

    def thr(e, w, a):
        more(e, w)
        return ("throw", Exc(w.fresh("x")))
    return [("returns", ret), ("throws", thr)]


def destroy_alts(e, w, args):
    def ok(e, w, a):
        p = w.resolve(a[0])
        for s in (w.body, w.spec):
            s.wr(p.o).alive = False
        return ("ret", None)
    return [("destroyed", ok)]


def holder_alts(e, w, args):
    def ok(e, w, a):
        c, h = e.new_ctl(w, "pending", w.fresh("new"))
        w.set_both(c, e.fieldof("ctl", "use")[0], 1, 4)
        return ("ret", P(c, 0))

    def thr(e, w, a):
        return ("throw", Exc(w.fresh("bad_alloc")))
    return [("created", ok), ("no memory", thr)]


def result_check(e, w, r):
    """the handle returned: only looked at when the function returns"""
    if w.body.outcome[0] == "ret":
        for f in ("px", "pn"):
            c = e.fieldof("result", f)[0]
            x, y = (s.mem[r].cells.get(c, (UNDEF, 0))[0] for s in (w.body, w.spec))
            e.stats.obl.setdefault("returned handle", [0, 0])[0] += 1
            if not e.same(w, x, y):
                raise Violation("returned handle", "%s is %s in the code, %s in the contract" % (f, show(x), show(y)))


HANDLES = ["none", "expired", "live", "pending"]


class SchedulerUnit(WorkerUnit):
    src = "scheduler.cpp"
    base = 0        # offset of event_processor<> in a processor

    def __init__(self, threads=False):
        self.threads = threads
        self.flags = [] if threads else ["-DBOOST_DISABLE_THREADS", "-DBOOST_SP_DISABLE_THREADS"]
        self.name = "scheduler" + ("_threads" if threads else "")

    def load(self, outdir):
        self.mod = Module(compile_unit(VERIF + "/inst/" + self.src, self.flags, outdir))
        self.finder = Finder(self.mod)
        self.specs = specmod.compile_specs(open(VERIF + "/contracts/worker.py").read())
        self.specs.update(specmod.compile_specs(open(VERIF + "/contracts/scheduler.py").read()))

    def engine(self):
        mod = self.mod
        o = lambda c, f: off(mod, c, f)
        cell = lambda c, *fs: {f: (o(c, f), "none") for f in fs}
        S = {"queue": (o("S", "queue"), "evlist"), "terminated": (o("S", "terminated"), "bool"), "procs": (o("S", "procs"), "set")}
        if self.threads:
            S["waits"] = (o("S", "waits"), "bool")
            S.update(cell("S", "mutex", "cond"))
        item = ("ptr", {"null": True, "opaque": "item"})
        proc = Cls("proc", probe(mod, "size_Proc"), {})
        e = SchedEngine(mod, {
            "S": Cls("S", probe(mod, "size_S"), S), "item": Cls("item", 32, {}), "argument": Cls("argument", 32, {"fn": (0, item)}),
            "ctl": Cls("ctl", probe(mod, "size_CTL"), {"use": (o("CTL", "use"), "i32"), "weak": (o("CTL", "weak"), "i32"),
                                                       "px": (o("CTL", "px"), ("ptr", {}))}),
            "holder": Cls("holder", 8, {"proc": (0, ("ptr", {"null": True, "opaque": "proc"}))}),
            "handle": Cls("handle", probe(mod, "size_H"), {"px": (o("H", "px"), ("ptr", {})), "pn": (o("H", "pn"), ("ptr", {}))}),
            "result": Cls("result", probe(mod, "size_H"), {"px": (o("H", "px"), ("ptr", {})), "pn": (o("H", "pn"), ("ptr", {}))}),
            "proc": proc, "x": Cls("x", 8, {}),
            "Proc": Cls("Proc", probe(mod, "size_Proc"), {"scheduler": (o("Proc", "scheduler"), ("ptr", {})),
                        "handle_px": (o("Proc", "scheduler") + 8, ("ptr", {})), "handle_pn": (o("Proc", "scheduler") + 16, ("ptr", {}))}),
            "event": Cls("event", probe(mod, "size_E1"), {"count": (o("E1", "count"), "i32" if self.threads else "i64")})})
        e.threads = self.threads
        e.specs = self.specs
        e.env = {"THREADS": int(self.threads)}
        e.hidden = {"full": {("ctl", "weak"), ("result", "px"), ("result", "pn")}, "user": {("ctl", "weak"), ("result", "px"), ("result", "pn"), ("ctl", "use"), ("event", "count")}}
        e.vslots = {"proc": vslots(mod, "_ZTV4Proc", {"delete": "delete_processor"}), "event": ["destroy", "delete_event", "clone"]}
        e.vslots["Proc"] = e.vslots["proc"]
        U = OpSem(user_alts, obs="user")
        e.ops = {"run_item": OpSem(run_alts), "wait": OpSem(wait_alts), "make_item": OpSem(item_alts, obs="user"),
                 "new_holder": OpSem(holder_alts, obs="user"), "delete_processor": OpSem(destroy_alts, obs="user"),
                 "delete_event": OpSem(delete_alts), "initiate_impl": U, "process_event_impl": U, "terminate_impl": U}
        for n in range(7):
            e.ops["cb_construct%d" % n] = U
        vt = [g for g in mod.globals if g.startswith("_ZTVN5boost6detail17sp_counted_impl_p") and ("auto_ptr" in g or "unique_ptr" in g)]
        if len(vt) != 1:
            raise Missing("control block of a processor holder")
        e.ctl_vtable = P(("G", vt[0]), 16)
        f = self.finder.find
        C = r"^boost::statechart::fifo_scheduler<"
        PR = r"^boost::statechart::event_processor<"
        self.sym = {n: f(C, n) for n in ("destroy_processor", "initiate_processor", "terminate_processor", "queue_event", "terminate", "terminated")}
        self.sym.update({"queue_work_item": f(C, "queue_work_item", r"^\(boost::function0<void>&\)"),
                         "queue_copy": f(C, "queue_work_item", r"^\(boost::function0<void> const&\)"), "run": f(C, "operator()"),
                         "my_scheduler": f(PR, "my_scheduler"), "my_handle": f(PR, "my_handle"), "p_initiate": f(PR, "initiate"),
                         "p_process_event": f(PR, "process_event"), "p_terminate": f(PR, "terminate")})
        if self.threads:
            self.sym["construct"] = f(C, "fifo_scheduler")
        for n in range(7):
            self.sym["create%d" % n] = "use_create%d" % n
            if n:
                self.sym["refs%d" % n] = "use_refs%d" % n
        e.havoc_all = lambda w: (e.init_fields(w, e.W, None, w.fresh("h")))
        return e

    def proofs(self):
        ps = []
        if self.threads:
            ps.append(Proof(self, "construct", "construct", "construct", ["flag"], ["any"], {}))
        for n in range(7):
            ps.append(Proof(self, "create%d" % n, "create%d" % n, "create%d" % n, ["result"] + ["long"] * n, ["any"], {}))
            if n:
                ps.append(Proof(self, "create%d by reference" % n, "refs%d" % n, "create%d" % n, ["result"] + ["x"] * n, ["any"], {}))
        for n in ("destroy_processor", "initiate_processor", "terminate_processor"):
            ps.append(Proof(self, n, n, n, ["handle"], HANDLES, {}))
        ps.append(Proof(self, "queue_event", "queue_event", "queue_event", ["handle", "event"], HANDLES, {}))
        for n, args in (("queue_work_item", ["item"]), ("queue_copy", ["item"]), ("terminate", []), ("terminated", []), ("run", ["limit"])):
            ps.append(Proof(self, n, n, n, args, ["any"], {}))
        ps.append(Proof(self, "my_scheduler", "my_scheduler", "my_scheduler", ["proc"], ["any"], {}))
        ps.append(Proof(self, "my_handle", "my_handle", "my_handle", ["result", "proc"], HANDLES, {}))
        ps.append(Proof(self, "event_processor::initiate", "p_initiate", "initiate", ["proc"], ["any"], {}))
        ps.append(Proof(self, "event_processor::process_event", "p_process_event", "process_event", ["proc", "evt"], ["any"], {}))
        ps.append(Proof(self, "event_processor::terminate", "p_terminate", "terminate_processor_now", ["proc"], ["any"], {}))
        return ps

    def setup(self, e, w, proof, mode):
        c = e.classes["S"]
        e.W, e.woff = w.new_shared("S", c.size, "S"), 0
        e.env["W"] = e.env["S"] = P(e.W, 0)
        if proof.name == "construct":
            e.exclusive = True
        else:
            e.init_fields(w, e.W)
        e.new_lock(w)
        free = proof.sym.startswith(("my_", "p_", "use_"))
        ir, sp = [], []
        for a in proof.args:
            if a == "item":
                h = w.new_shared("argument", 32, "argument")
                e.init_fields(w, h)
                x = y = P(h, 0)
            elif a in ("limit", "long"):
                x = y = w.bv(a, 64)
            elif a == "flag":
                x = y = w.boolean("flag")
            elif a == "x":
                x = y = P(w.new_shared(w.fresh("x"), 8, "x", opaque=True), 0)
            elif a in ("handle", "result"):
                x = y = P(w.new_shared(a, e.classes["handle"].size, a), 0)
                if a == "handle":
                    self.handle(e, w, x.o, mode)
                else:
                    e.final_check = lambda e, w, r=x.o: result_check(e, w, r)
            elif a == "event":
                o = e.make_opaque(w, "evt", "event")
                n = w.body.mem[o].cells[e.fieldof("event", "count")[0]][0]
                w.assume(z3.And(n >= 1, n < 1 << 20))
                h = w.new_shared("argument", 8, "argument")
                w.set_both(h, 0, P(o, 0), 8)
                x, y = P(h, 0), P(o, 0)
            elif a == "evt":
                x = y = P(e.make_opaque(w, "evt", "event"), 0)
            elif a in ("proc", "machine"):
                o = self.processor(e, w)
                k = e.classes["Proc"].fields
                w.set_both(o, k["scheduler"][0], P(e.W, 0), 8)
                h = w.new_shared("handle", 16, "handle")
                self.handle(e, w, h, mode if mode in HANDLES else "live")
                for n, m in (("handle_px", "px"), ("handle_pn", "pn")):
                    w.set_both(o, k[n][0], w.body.mem[h].cells[e.fieldof("handle", m)[0]][0], 8)
                for s in (w.body, w.spec):
                    s.mem[o].cls = "Proc"
                x = y = P(o, self.base if a == "proc" else 0)
            ir.append(x)
            sp.append(y)
        if not free:
            ir.insert(1 if proof.args[:1] == ["result"] else 0, P(e.W, 0))
        return ir, sp

    def processor(self, e, w):
        return e.make_opaque(w, "processor", "proc")

    def handle(self, e, w, h, mode):
        px = pn = NULL
        if mode != "none":
            c, o = e.new_ctl(w, mode, "of the handle")
            px, pn = P(o, 0), P(c, 0)
        w.set_both(h, e.fieldof("handle", "px")[0], px, 8)
        w.set_both(h, e.fieldof("handle", "pn")[0], pn, 8)


class AsyncUnit(SchedulerUnit):
    """the processors are asynchronous state machines; what the underlying state_machine<> does is opaque here (units machine and K*)"""
    def __init__(self):
        SchedulerUnit.__init__(self)
        self.flags = self.flags + ["-DVC_ASYNC"]
        self.name = "async"

    def load(self, outdir):
        SchedulerUnit.load(self, outdir)
        self.specs.update(specmod.compile_specs(open(VERIF + "/contracts/async.py").read()))

    def engine(self):
        e = SchedulerUnit.engine(self)
        self.base = off(self.mod, "Proc", "scheduler") - off(self.mod, "EPB", "scheduler")
        e.env["BASE"] = self.base
        for i, at in enumerate((0, self.base)):
            e.classes["Proc"].fields["vptr%d" % i] = (at, ("ptr", {}))
            e.classes["Proc"].rev[at] = "vptr%d" % i
            e.hidden["full"].add(("Proc", "vptr%d" % i))
            e.hidden["user"].add(("Proc", "vptr%d" % i))
        f, C = self.finder.find, r"^boost::statechart::state_machine<Proc,"
        for n in ("initiate", "process_event", "terminate"):
            e.ops["machine_" + n] = OpSem(user_alts, obs="user")
        e.ops["machine_construct"] = OpSem(user_alts, obs="user")
        e.ops["machine_destroy"] = OpSem(lambda e, w, args: user_alts(e, w, args)[:1], obs="user")
        names = {"initiate": "initiate", "process_event": "process_event", "terminate": "terminate", "state_machine": "construct", "~state_machine": "destroy"}

        def machine_op(eng, name, dem, cls, meth, rest):
            if cls is None or not re.match(C, cls) or meth not in names:
                return None

            def h(e, ex, w, s, a):
                return Op("machine_" + names[meth], [w.resolve(x) if isinstance(x, P) else x for x in a], "user")
            return h
        e.extra_intercepts = [(re.compile(C), machine_op)]
        for n in ("use_delete", "use_terminate", "use_self"):
            self.sym[n] = n
        rows = self.mod.vtable("_ZTV4Proc")
        slots = []
        for x in rows[-1][2:]:
            m = split_method(self.mod.dem(x[1]).replace("non-virtual thunk to ", ""))[1]
            slots.append(("delete_processor" if "D0Ev" in x[1] else "destroy") if m.startswith("~") else m)
        e.vslots["proc"] = slots
        self.points, o = [], 0
        for r in rows:
            self.points.append(P(("G", "_ZTV4Proc"), o + 16))
            o += 8 * len(r)
        if len(rows) != 2:
            raise Missing("vtable of an asynchronous machine")
        return e

    def proofs(self):
        ps = [p for p in SchedulerUnit.proofs(self) if re.match(r"create\d$", p.name)]
        for n in ("initiate", "process_event", "terminate"):
            ps.append(Proof(self, "event_processor::%s of a machine" % n, "p_" + n, "p_" + n, ["proc"] + ["evt"] * (n == "process_event"), ["live"], {}))
        ps.append(Proof(self, "asynchronous_state_machine::terminate", "use_terminate", "async_terminate", ["machine"], ["live"], {}))
        ps.append(Proof(self, "destruction of a machine", "use_delete", "async_delete", ["proc"], ["live"], {}))
        ps.append(Proof(self, "event of a machine to itself", "use_self", "async_self", ["machine", "event"], ["live"], {}))
        return ps

    def processor(self, e, w):
        o = w.new_shared("machine", e.classes["Proc"].size, "Proc")
        for i, at in enumerate((0, self.base)):
            w.set_both(o, at, self.points[i], 8)
        return o
