"""Unit: state_machine<> over an arbitrary chart (state objects are opaque)."""
from unit import *
import engine

NO, FORWARD, DISCARD, DEFER = 0, 1, 2, 3
M_FIELDS = ["queue", "deferred", "states", "end", "outermost", "ico", "ous", "full", "shallow", "deep", "trig"]


def machine_cls(mod, name="M"):
    o = lambda f: off(mod, name, f)
    return Cls("M", probe(mod, "size_" + name), {
        "queue": (o("queue"), "evlist"), "deferred": (o("deferred"), "evlist"),
        "states": (o("states"), "leaflist"), "end": (o("end"), "it"),
        "outermost": (o("outermost"), ("ptr", {"null": True, "opaque": "state", "lazyvt": True})),
        "ico": (o("ico"), "bool"),
        "ous": (o("ous"), ("ptr", {"null": True, "opaque": "node", "lazyvt": True})),
        "full": (o("full"), "bool"), "shallow": (o("shallow"), "map"), "deep": (o("deep"), "map"),
        "trig": (o("trig"), ("ptr", {"null": True, "opaque": "event"}))})


def mk_machine(eng, w, mode):
    """mode: 'stable' | 'terminated' | 'unstable' | 'any' | 'live' (stable, at least one state)"""
    c = eng.classes["M"]
    oid = w.new_shared("M", c.size, "M")
    eng.M = oid
    eng.env["M"] = P(oid, 0)
    eng.leaf_loc = (oid, c.fields["states"][0])
    eng.init_fields(w, oid, {"states": None, "end": None, "outermost": None, "ous": None})
    set_config(eng, w, mode)
    return oid


def fresh_machine(e, w):
    """the constructor gets raw memory; the contract demands the initial machine"""
    nothing = {"states": LeafList("empty", (), 0), "end": IT(e.leaf_loc, 0), "outermost": NULL, "ous": NULL, "full": 1, "ico": 0,
               "queue": EvList(), "deferred": EvList(), "shallow": MapVal("empty"), "deep": MapVal("empty"), "trig": NULL}
    e.init_fields(w, e.M, nothing)
    m = w.body.wr(e.M)
    m.cells, m.ghost = {}, {}


def set_config(eng, w, mode, old=None):
    oid = eng.M
    c = eng.classes["M"]
    n, k = 0 if mode == "terminated" else w.integer("M.end"), w.integer("M.size")
    w.assume(n >= 0)
    w.assume(k >= n)
    base = w.fresh("L")
    w.ghost_both(oid, c.fields["states"][0], LeafList(base, (), k))
    w.set_both(oid, c.fields["end"][0], IT(eng.leaf_loc, n), 8)
    if mode == "terminated":
        root, ous = NULL, NULL
    elif mode == "stable":
        w.assume(n >= 1)
        root = eng.fresh_ptr(w, "root", {"opaque": "state", "lazyvt": True})
        ous = NULL
    elif mode in ("unstable", "leaving"):
        root = eng.fresh_ptr(w, "root", {"opaque": "state", "lazyvt": True})
        ous = eng.fresh_ptr(w, "ous", {"opaque": "node", "lazyvt": True, "objs": (root,),
                                      "min": 2 if mode == "leaving" else 1})
    w.set_both(oid, c.fields["outermost"][0], root, 8)
    w.set_both(oid, c.fields["ous"][0], ous, 8)


def havoc(eng, w, fields):
    c = eng.classes["M"]
    eng.init_fields(w, eng.M, {f: None for f in c.fields if f not in fields}, w.fresh("h"))


class Alt:
    """one declared outcome of a contract: result, configuration afterwards, fields that may change"""
    def __init__(self, label, kind, ret=None, mode=None, hav=(), exact=None, guard=None, post=False):
        self.label, self.kind, self.ret, self.mode = label, kind, ret, mode
        self.hav, self.exact, self.guard, self.post = tuple(hav), exact or {}, guard, post

    def apply(self, e, w, args):
        if self.guard:
            g = self.guard(e, w, args, w.spec.mem[e.M])
            if g is False:
                raise Prune()
            if g is not True:
                w.assume(g)
        if self.post:
            post(e, w)
        if self.hav:
            havoc(e, w, self.hav)
        havoc_counts(e, w)
        if self.mode:
            set_config(e, w, self.mode)
        for f, v in self.exact.items():
            off, kind = e.fieldof("M", f)
            if isinstance(v, (EvList, MapVal)):
                w.ghost_both(e.M, off, v)
            else:
                w.set_both(e.M, off, v, specmod.KSIZE.get(kind, 8) if isinstance(kind, str) else 8)
        if self.kind == "throw":
            return ("throw", Exc(w.fresh("x")))
        return ("ret", self.ret)

    def conforms(self, e, w, args, init):
        """does the final state of a proof (body side) match this outcome?"""
        out = w.body.outcome
        if out[0] != self.kind:
            return False
        if self.kind == "ret" and self.ret is not None and not e.same(w, out[1], self.ret):
            return False
        if self.guard:
            g = self.guard(e, w, args, init)
            if g is False or (g is not True and not w.valid(g)):
                return False
        if self.mode and not config_is(e, w, self.mode):
            return False
        a = w.body.mem[e.M]
        for f, (off, kind) in e.classes["M"].fields.items():
            if f in self.hav:
                continue
            if self.post and f in ("queue", "shallow", "deep"):
                if f == "queue" and not prefix(e, w, init.ghost[off], a.ghost[off]):
                    return False
                continue
            if self.mode and f in ("states", "end", "outermost", "ous"):
                continue
            if f in self.exact:
                if not same_field(e, w, a, off, self.exact[f]):
                    return False
                continue
            if not same_field(e, w, a, off, init.ghost[off] if off in init.ghost else init.cells[off][0]):
                return False
        return True


def same_field(e, w, a, off, v):
    if isinstance(v, EvList):
        return e.ev_norm(w, w.body, v) == e.ev_norm(w, w.body, a.ghost[off])
    if isinstance(v, LeafList):
        g = a.ghost[off]
        return g.base == v.base and e.same(w, g.size, v.size) and (g.upd is v.upd or [(str(t), repr(x)) for t, x in g.upd] == [(str(t), repr(x)) for t, x in v.upd])
    if isinstance(v, MapVal):
        g = a.ghost[off]
        return g.base == v.base and all(g.ent.get(k) == x for k, x in v.ent.items()) and (v.base != "empty" or not g.ent)
    return e.same(w, a.cells[off][0], v)


def prefix(e, w, a, b):
    x, y = e.ev_norm(w, w.body, a), e.ev_norm(w, w.body, b)
    return y[:len(x)] == x


def config_is(e, w, mode, side=None):
    a = (side or w.body).mem[e.M]
    g = lambda f: a.cells[e.fieldof("M", f)[0]][0]
    end = g("end").idx
    root = not w.ptr_eq(g("outermost"), NULL)
    ous = not w.ptr_eq(g("ous"), NULL)
    if mode == "terminated":
        return not root and not ous and w.valid(e.tobool(end == 0))
    if mode == "stable":
        return root and not ous and w.valid(e.tobool(end >= 1))
    if mode == "leaving" and ous:
        # another child or a pinned context keeps the unstable state alive
        o = w.resolve(g("ous"))
        if not w.valid((side or w.body).mem[o.o].cells[e.fieldof("node", "count")[0]][0] >= 2):
            return False
    return root and ous and w.valid(e.tobool(end >= 0))


def node_hook(e, w, oid, cls, name):
    """reference count of a state: at least the references that are known to exist"""
    if cls in ("node", "leaf", "state"):
        off, _ = e.fieldof(cls, "count")
        c = w.body.mem[oid].cells[off][0]
        w.assume(c >= w.cands.get(name, {}).get("min", 0))
        w.assume(c <= 1 << 40)


def havoc_counts(e, w):
    """other owners may add or drop their own references of an event, never ours"""
    off, _ = e.fieldof("event", "count")
    for oid in w.shared:
        ob = w.body.mem.get(oid)
        if ob is None or ob.cls != "event" or not ob.alive:
            continue
        c = ob.cells[off][0]
        n = w.bv(ob.name + ".count", 32)
        w.assume(n <= e.maxcount)
        w.assume(n >= 0)
        w.assume((c == 0) == (n == 0) if is_sym(c) else (n == 0 if c == 0 else n >= 1))
        w.set_both(oid, off, n, 4)


def table(rows):
    f = lambda eng, w, args: [(r.label, r.apply) for r in rows]
    f.rows = rows
    return f


def loop_any(*modes):
    """loop invariant: the machine is in one of the given configurations; queues, history and
    reference counts of events are arbitrary"""
    def f(e, w, key):
        st = e.stats.obl.setdefault("loop invariant holds on entry", [0, 0])
        st[0] += 1
        if not any(config_is(e, w, m) for m in modes):
            raise Violation("loop invariant", "the loop can be entered in another configuration than " + " or ".join(modes))
        worlds = []
        for m in modes:
            c = w.clone()
            havoc(e, c, ANY)
            set_config(e, c, m)
            havoc_counts(e, c)
            gs, gi = set(c.gsyms), dict(c.ginv)
            for oid in c.shared:
                ob = c.body.mem.get(oid)
                if ob is None or not ob.alive:
                    continue
                for off, (v, sz) in ob.cells.items():
                    if oid == e.M and e.classes["M"].rev.get(off) not in ANY + ("end", "outermost", "ous"):
                        continue
                    if ob.cls not in ("M", "event"):
                        continue
                    if isinstance(v, IT):
                        v = v.idx
                    if isinstance(v, (SP, OP)) or is_sym(v):
                        r = "z" + v.sexpr() if is_sym(v) else repr(v)
                        gs.add(r)
                    if is_sym(v):
                        gi[r] = [nm for nm in sorted(engine.CANDS) if nm != "<end" and c.valid(e.tobool(engine.CANDS[nm](e, c, v, v)))]
                for g in ob.ghost.values():
                    if isinstance(g, EvList):
                        gs |= {"EV" + x for k, x in g if k == "v"}
                    elif isinstance(g, MapVal):
                        gs.add("MAP" + g.base)
                    elif isinstance(g, LeafList):
                        gs.add("LL" + g.base)
                        gs.add("z" + g.size.sexpr())
                        gi["z" + g.size.sexpr()] = [">=0", ">=end"]
            c.gsyms, c.ginv = gs, gi
            worlds.append(c)
        snaps = {("loop",) + key[:2]: True}
        for c in worlds:
            snaps[key[:2] + (e.mode_key(c),)] = (1, c.clone())
        for c in worlds:
            c.snap = dict(c.snap)
            c.snap.update(snaps)
        return worlds
    return f


def post(eng, w):
    """user code may post events and clear history, nothing else"""
    off, _ = eng.fieldof("M", "queue")
    nm = w.fresh("posted")
    for s in (w.body, w.spec):
        o = s.wr(eng.M)
        o.ghost[off] = EvList(list(o.ghost[off]) + [("v", nm)])
    havoc(eng, w, ["shallow", "deep"])


def is_unstable(e, w, args, m):
    return not w.ptr_eq(m.cells[e.fieldof("M", "ous")[0]][0], NULL)


def flag(k):
    def f(e, w, args, m):
        v = args[k]
        return bool_of(v) if is_sym(v) else bool(v)
    return f


def not_root(e, w, args, m):
    """leaving the outermost state leaves every state (nothing pins an outer context)"""
    s = getattr(e, "the_state", None) or args[0]
    return not w.ptr_eq(s, m.cells[e.fieldof("M", "outermost")[0]][0])


ANY = ("queue", "deferred", "ico", "shallow", "deep")
# reaction of a state (its own reactions, then those of its outer states); user reactions are
# arbitrary code within the documented rules
REACTS = table([
    Alt("forward", "ret", FORWARD, post=True), Alt("defer", "ret", DEFER, post=True),
    Alt("discard, stable", "ret", DISCARD, "stable", ANY),
    Alt("discard, terminated", "ret", DISCARD, "terminated", ANY),
    Alt("discard, unstable", "ret", DISCARD, "unstable", ANY, guard=is_unstable),
    Alt("throw, stable", "throw", None, "stable", ANY), Alt("throw, terminated", "throw", None, "terminated", ANY),
    Alt("throw, unstable", "throw", None, "unstable", ANY)])
USER = table([Alt("returns", "ret", None, post=True), Alt("throws", "throw", None, post=True)])
# leaving a state or subtree (list manipulation, exit actions, destruction)
T4 = ("queue", "deferred", "shallow", "deep")
EXITS = table([
    Alt("terminated", "ret", None, "terminated", T4), Alt("unstable", "ret", None, "leaving", T4, guard=not_root),
    Alt("throws, unstable", "throw", None, "unstable", T4, guard=flag(2)),
    Alt("throws, terminated", "throw", None, "terminated", T4, guard=flag(2))])
TERMINATE_STATE = table([
    Alt("all states left", "ret", None, "terminated", T4, {"ico": 0}),
    Alt("unstable", "ret", None, "leaving", T4, {"ico": 0}, guard=not_root),
    Alt("throws, unstable", "throw", None, "unstable", T4, {"ico": 0}, guard=flag(1)),
    Alt("throws, terminated", "throw", None, "terminated", T4, {"ico": 0}, guard=flag(1))])
EMPTY = {"queue": EvList(), "deferred": EvList(), "shallow": MapVal("empty"), "deep": MapVal("empty"), "full": 1}
TERMINATE_ALL = table([
    Alt("terminated", "ret", None, "terminated", ("ico",), EMPTY),
    Alt("throws, unstable", "throw", None, "unstable", ANY, {"full": 1}, guard=flag(0)),
    Alt("throws, terminated", "throw", None, "terminated", ANY, {"full": 1}, guard=flag(0))])
CONSTRUCT = table([
    Alt("constructed", "ret", None, "stable", T4, {"ico": 0}),
    Alt("throws, unstable", "throw", None, "unstable", ANY), Alt("throws, terminated", "throw", None, "terminated", ANY)])
SENDS = table([
    Alt("forward", "ret", FORWARD, post=True), Alt("defer", "ret", DEFER, post=True),
    Alt("discard, stable", "ret", DISCARD, "stable", ANY), Alt("discard, terminated", "ret", DISCARD, "terminated", ANY),
    Alt("throw, machine terminated", "throw", None, "terminated", ("ico",), EMPTY),
    Alt("throw from unconsumed_event", "throw", None, post=True)])
PROCESSES = table([
    Alt("stable", "ret", None, "stable", ("deferred", "ico", "shallow", "deep"), {"queue": EvList()}),
    Alt("terminated", "ret", None, "terminated", ("deferred", "ico", "shallow", "deep"), {"queue": EvList()}),
    Alt("throw, stable", "throw", None, "stable", ANY), Alt("throw, terminated", "throw", None, "terminated", ANY)])
HANDLES = table([
    Alt("handled, stable", "ret", DISCARD, "stable", ANY, {"full": 1}),
    Alt("handled, terminated", "ret", DISCARD, "terminated", ANY, {"full": 1}),
    Alt("throw, stable", "throw", None, "stable", ANY + ("full",)),
    Alt("throw, terminated", "throw", None, "terminated", ANY + ("full",)),
    Alt("throw, unstable", "throw", None, "unstable", ANY + ("full",))])


def clone_alts(eng, w, args):
    def ok(e, w, a):
        oid = e.make_opaque(w, w.fresh("clone"), "event")
        off, _ = e.fieldof("event", "count")
        w.set_both(oid, off, 1, 4)
        return ("ret", P(oid, 0))

    def thr(e, w, a):
        return ("throw", Exc(w.fresh("bad_alloc")))
    return [("cloned", ok), ("throws", thr)]


def sret_info(ex, w, s, args):
    dst = args[0]

    def f(e, w, side, v):
        e.ex.store(w, side, dst, v, 8)
        return None
    return f


def delete_alts(eng, w, args):
    def ok(e, w, a):
        p = w.resolve(a[0])
        for s in (w.body, w.spec):
            s.wr(p.o).alive = False
        return ("ret", None)
    return [("deleted", ok)]


class MachineUnit(Unit):
    src = "machine.cpp"

    def __init__(self, translate, flags=()):
        self.translate = translate
        self.flags = list(flags) + ["-DBOOST_DISABLE_THREADS"] + (["-DVC_TRANSLATOR"] if translate else [])
        self.name = "machine" + ("_translator" if translate else "") + "".join(re.sub(r"\W", "_", f) for f in flags)

    def load(self, outdir):
        self.mod = Module(compile_unit(VERIF + "/inst/" + self.src, self.flags, outdir))
        self.finder = Finder(self.mod)
        self.specs = specmod.compile_specs(open(VERIF + "/contracts/machine.py").read())

    def engine(self):
        mod = self.mod
        ev = Cls("event", probe(mod, "size_E1"), {"count": (off(mod, "E1", "count"), "i32"),
                                                  "id": (off(mod, "E1", "id"), "id")})
        st = Cls("state", probe(mod, "size_A1"), {"count": (off(mod, "A1", "count"), "i64")})
        e = Engine(mod, {"M": machine_cls(mod), "event": ev, "state": st, "leaf": st, "node": st,
                           "argument": Cls("argument", 8, {"ptr": (0, "i64")})})
        e.specs = self.specs
        use_allocator(e, self.flags)
        e.env = {"FORWARD": FORWARD, "DISCARD": DISCARD, "DEFER": DEFER, "TRANSLATE": int(self.translate)}
        e.vslots = {"leaf": vslots(mod, "_ZTV2A1", {"exit_impl": "exit_leaf"}),
                    "node": vslots(mod, "_ZTV1A", {"exit_impl": "exit_node"}),
                    "event": ["destroy", "delete_event", "clone"]}
        e.vslots["state"] = e.vslots["node"][:e.vslots["node"].index("exit_node")]
        e.hidden = {"full": set(), "user": set()}
        # the iterator/pointer arguments are references to machine members
        endref = lambda ex, w, s, a: [a[0], self.memref(e, w, a[1], "end"), self.memref(e, w, a[2], "ous"), a[3]]
        e.ops = {
            "react_impl": OpSem(REACTS),
            "cb_unconsumed_event": OpSem(USER),
            "remove_from_state_list": OpSem(EXITS, args=lambda ex, w, s, a: self.rfsl_args(e, ex, w, s, a)),
            "exit_leaf": OpSem(EXITS, args=lambda ex, w, s, a: self.exit_args(e, ex, w, s, a)),
            "clone": OpSem(clone_alts, args=lambda ex, w, s, a: [a[1]], info=sret_info),
            "delete_event": OpSem(delete_alts),
        }
        e.opaque_hook = lambda w, oid, cls, name: node_hook(e, w, oid, cls, name)
        e.dyn = {("M", "_ZTI1M"): 0}
        e.env["EXC_ID"] = None
        for n in mod.globals:
            if re.search(r"id_holder<boost::statechart::exception_thrown>::idProvider_", mod.dem(n)):
                e.env["EXC_ID"] = P(("G", n), 0)
        P_ = r"^boost::statechart::state_machine<M"
        f = self.finder.find
        self.sym = {
            "send_event": f(P_, "send_event"), "process_queued_events": f(P_, "process_queued_events"),
            "process_event": f(P_, "process_event"), "post_event_impl": f(P_, "post_event_impl", "intrusive_ptr"),
            "post_event_ref": f(P_, "post_event_impl", r"^\(boost::statechart::event_base const"),
            "release_events": f(P_, "release_events"), "terminate_all": f(P_, "terminate_impl", r"^\(bool\)"),
            "terminate_state": f(P_, "terminate_impl", "state_base"),
            "terminate": f(P_ + r"[^:]*(::[^:]*)*$", "terminate"), "initiate": f(P_, "initiate"),
            "terminate_as_reaction": f(P_, "terminate_as_reaction"),
            "terminate_as_part_of_transit": f(P_, "terminate_as_part_of_transit", "state_base"),
            "terminate_as_part_of_transit_root": f(P_, "terminate_as_part_of_transit", "state_machine"),
            "initial_construct": f(P_, "initial_construct"), "construct_machine": "construct_M", "destroy_machine": "destroy_M",
        }
        return e

    def memref(self, e, w, p, f):
        p = w.resolve(p)
        if p != P(e.M, e.fieldof("M", f)[0]):
            raise Violation("requires", "argument must refer to the machine's " + f)

    def rfsl_args(self, e, ex, w, s, a):
        self.memref(e, w, a[1], "end")
        self.memref(e, w, a[2], "ous")
        v = ex.load(w, s, a[1], 8)
        return [a[0], v.idx, a[3]]

    def exit_args(self, e, ex, w, s, a):
        c = a[1]
        if not isinstance(c, CELL):
            raise Violation("requires", "exit_impl needs a reference to the state's list cell")
        self.memref(e, w, a[2], "ous")
        return [a[0], c[2], a[3]]

    tables = {"terminate_state": TERMINATE_STATE, "initial_construct": CONSTRUCT, "terminate_all": TERMINATE_ALL,
              "send_event": SENDS, "process_queued_events": PROCESSES}

    # use: contract name -> mode
    def use(self, e, modes):
        for n, mode in modes.items():
            c = Contract(n, args=lambda ex, w, s, a: a[1:], alts=self.tables.get(n), requires=REQUIRES.get(n))
            e.contracts[self.sym[n]] = (mode, c)
            e.cname[n] = (mode, c)

    OPQ = {"terminate_all": "opaque"}

    def proofs(self):
        T = self.translate
        E, L = self.ev, "L"
        ps = []

        def add(name, args, modes, uses=(), conform=None, init=None, props=(), pre=None, sym=None, spec=None, **kw):
            ps.append(Proof(self, name, sym or name, spec or name, args, modes, {u: "opaque" for u in uses}, conform, init, props, pre, **kw))
        add("release_events", [], ["stable", "unstable"])
        add("post_event_impl", ["evptr"], ["stable", "terminated", "unstable"])
        add("post_event_ref", ["ev"], ["stable", "terminated", "unstable"])
        add("terminate_state", ["state", "flag"], ["stable", "unstable"], conform=TERMINATE_STATE, pre=pre_terminate_state)
        add("terminate_all", ["flag"], ["stable", "terminated", "unstable"], ["terminate_state"], TERMINATE_ALL)
        add("terminate_as_reaction", ["state"], ["stable", "unstable"], ["terminate_state"])
        add("terminate_as_part_of_transit", ["state"], ["stable", "unstable"], ["terminate_state"])
        add("terminate_as_part_of_transit_root", [None], ["stable", "unstable"], ["terminate_state"])
        add("construct_machine", [], ["terminated"], init="fresh")
        add("destroy_machine", [], ["stable", "terminated"], ["terminate_all"])
        add("send_event", ["ev"], ["stable", "terminated"], ["terminate_all"], SENDS, pre=normal)
        add("process_queued_events", [], ["stable", "terminated"], ["send_event"], PROCESSES, pre=normal, loop=loop_any("stable", "terminated"))
        add("process_event", ["ev"], ["stable", "terminated"], ["send_event", "process_queued_events"], pre=normal)
        add("terminate", [], ["stable", "terminated"], ["terminate_all"], pre=normal)
        add("initiate", [], ["stable", "terminated"], ["terminate_all", "initial_construct", "process_queued_events"], pre=normal)
        return ps

    ev = "ev"

    def arg(self, e, w, a):
        """-> (IR argument, specification argument)"""
        if a == "ev" or a == "evptr":
            o = e.make_opaque(w, "evt", "event")
            c = w.body.mem[o].cells[e.fieldof("event", "count")[0]][0]
            w.assume(c >= (1 if a == "evptr" else 0))
            w.assume(c <= e.maxcount)
            if a == "ev":
                return P(o, 0), P(o, 0)
            h = w.new_shared("argument", 8, "argument")
            w.set_both(h, 0, P(o, 0), 8)
            return P(h, 0), P(o, 0)
        if a == "state":
            root = w.spec.mem[e.M].cells[e.fieldof("M", "outermost")[0]][0]
            ous = w.spec.mem[e.M].cells[e.fieldof("M", "ous")[0]][0]
            p = e.fresh_ptr(w, "theState", {"opaque": "state", "lazyvt": True, "objs": tuple(x for x in (root, ous) if isinstance(x, SP))})
            return p, p
        if a == "flag":
            b = w.boolean("flag")
            return b, b
        if a is None:
            return P(e.M, 0), None          # the machine itself (as its own outermost context)
        raise KeyError(a)

    def setup(self, e, w, proof, mode):
        mk_machine(e, w, mode)
        if proof.init == "fresh":
            fresh_machine(e, w)
        ir, sp = [P(e.M, 0)], []
        for a in proof.args:
            x, y = self.arg(e, w, a)
            ir.append(x)
            if y is not None:
                sp.append(y)
        return ir, sp


def cfg(*modes, full=False):
    def f(e, ex, w, s, args):
        if full:
            e.obligation(w, "precondition: exit actions enabled", bool_of(s.mem[e.M].cells[e.fieldof("M", "full")[0]][0]))
        for m in modes:
            if config_is(e, w, m, s):
                return
        raise Violation("precondition", "callee requires a configuration that is " + " or ".join(modes))
    return f


def req_terminate_state(e, ex, w, s, args):
    cfg("stable", "unstable")(e, ex, w, s, args)
    if w.ptr_eq(args[0], NULL):
        raise Violation("precondition", "terminate_impl of no state")


def normal(e, w, args):
    """no exception is being handled: exit actions are enabled"""
    w.set_both(e.M, e.fieldof("M", "full")[0], 1, 1)


def pre_terminate_state(e, w, args):
    e.the_state = args[0]


REQUIRES = {"send_event": cfg("stable", "terminated", full=True),
            "process_queued_events": cfg("stable", "terminated", full=True),
            "initial_construct": cfg("terminated"), "terminate_state": req_terminate_state}
