"""Unit: whole charts.  Every library function the chart instantiates is verified through its real,
instantiated body; user code (constructors, destructors, exit, actions, custom reactions) is
arbitrary code that may post events or throw at every call."""
from unit import *
from machine import machine_cls, FORWARD, DISCARD, DEFER, NO, EMPTY, sret_info, delete_alts, clone_alts
import chartgen
from spec import pure, effect, Ref
from builtins_ import _ghost

TRANSITION, IN_STATE, DEFERRAL, TERMINATION, CUSTOM, FORWARD_IT, DISCARD_IT = range(1, 8)
KIND = {"tr": TRANSITION, "isr": IN_STATE, "def": DEFERRAL, "term": TERMINATION, "cust": CUSTOM}
HK = {"n": 0, "sh": 1, "dh": 2}


# ---------------------------------------------------------------- pure functions over the chart
def _st(ex, w, s, p):
    p = w.resolve(p)
    c = ex.obj(w, s, p.o).cls
    if not c.startswith("S:"):
        raise Violation("spec", "not a state: " + c)
    return ex.eng.chart.states[c[2:]]


def _idx(ex, name):
    return ex.eng.chart.order.index(name)


def _name(ex, i):
    return ex.eng.chart.order[i]


def chartfn(f):
    return pure(f)


@pure
def is_state(ex, w, s, f, p):
    p = w.resolve(p)
    return int(p.o != ex.eng.M and p.o != 0)


@pure
def state_or_null(ex, w, s, f, p):
    return NULL if w.resolve(p).o == ex.eng.M else p


@pure
def is_leaf(ex, w, s, f, p):
    return int(_st(ex, w, s, p).leaf)


@pure
def regions(ex, w, s, f, p):
    return len(_st(ex, w, s, p).init)


@pure
def region(ex, w, s, f, p):
    return _st(ex, w, s, p).region


def _inner(ex, w, s, p, i):
    off, kind = ex.eng.fieldof(ex.obj(w, s, p.o).cls, "inner")
    v = ex.load(w, s, P(p.o, off + 8 * i), 8)
    return NULL if v == 0 and not isinstance(v, tuple) else w.norm(v)


@pure
def inner(ex, w, s, f, p, i):
    return _inner(ex, w, s, w.resolve(p), i)


@effect
def set_inner(ex, w, s, f, args):
    p = w.resolve(args[0])
    off, kind = ex.eng.fieldof(ex.obj(w, s, p.o).cls, "inner")
    ex.store(w, s, P(p.o, off + 8 * args[1]), args[2], 8)


@pure
def childless(ex, w, s, f, p):
    p = w.resolve(p)
    return int(all(w.ptr_eq(_inner(ex, w, s, p, i), NULL) for i in range(len(_st(ex, w, s, p).init))))


@pure
def first_active(ex, w, s, f, p):
    p = w.resolve(p)
    return next(i for i in range(len(_st(ex, w, s, p).init)) if not w.ptr_eq(_inner(ex, w, s, p, i), NULL))


@pure
def position(ex, w, s, f, r, p):
    """index of a state in the state list"""
    end = f.field(ex, w, s, P(ex.eng.M, 0), "end")
    for i in range(end + 1):
        if w.ptr_eq(ex.leaf_read(w, s, (r[1], r[2]), i), p):
            return i
    raise Violation("spec", "state is not in the state list")


@pure
def stores_shallow(ex, w, s, f, p):
    st = _st(ex, w, s, p)
    return int(st.parent is not None and ex.eng.chart.states[st.parent].hist in ("sh", "full"))


@pure
def has_deep(ex, w, s, f, p):
    return int(_st(ex, w, s, p).hist in ("dh", "full"))


def _slot(ex, w, s, st):
    par = ex.eng.typeid[st.parent or "M"]
    return (tuple(par) if isinstance(par, tuple) else par, st.region)


@pure
def slot(ex, w, s, f, p):
    return _slot(ex, w, s, _st(ex, w, s, p))


@pure
def slot_of(ex, w, s, f, S):
    return _slot(ex, w, s, ex.eng.chart.states[_name(ex, S)])


@pure
def shallow_value(ex, w, s, f, p):
    return FN(ex.eng.hist_fn[("sh", _st(ex, w, s, p).name)])


@pure
def deep_value(ex, w, s, f, h, p):
    return FN(ex.eng.hist_fn[("dh", _st(ex, w, s, h).parent, _st(ex, w, s, p).name)])


@pure
def stored_state(ex, w, s, f, v):
    return _idx(ex, ex.eng.fn_hist[v.name])


@pure
def knows_context_early(ex, w, s, f, S):
    return int(ex.eng.chart.states[_name(ex, S)].kind == "state")


@pure
def in_last_region(ex, w, s, f, p):
    st = _st(ex, w, s, p)
    n = len(ex.eng.chart.states[st.parent].init) if st.parent else 1
    return int(st.region == n - 1)


@pure
def on_way(ex, w, s, f, S, D, i):
    c = ex.eng.chart
    return int(c.states[c.below(_name(ex, D), _name(ex, S))].region == i)


@pure
def next_to(ex, w, s, f, S, D):
    c = ex.eng.chart
    return _idx(ex, c.below(_name(ex, D), _name(ex, S)))


@pure
def first_towards(ex, w, s, f, c, D):
    p = w.resolve(c)
    cn = "M" if p.o == ex.eng.M else _st(ex, w, s, p).name
    return _idx(ex, ex.eng.chart.below(_name(ex, D), cn))


@pure
def initial(ex, w, s, f, S, i):
    return _idx(ex, ex.eng.chart.states[_name(ex, S)].init[i][1])


@pure
def initial_kind(ex, w, s, f, S, i):
    return HK[ex.eng.chart.states[_name(ex, S)].init[i][0]]


def _ancestor(ex, w, s, p, name):
    """active context `name` of the state p (or p itself)"""
    p = w.resolve(p)
    while True:
        if p.o == ex.eng.M:
            if name == "M":
                return p
            raise Violation("spec", "no context " + name)
        st = _st(ex, w, s, p)
        if st.name == name:
            return p
        off, _ = ex.eng.fieldof("S:" + st.name, "ctx")
        p = w.resolve(ex.load(w, s, P(p.o, off), 8))


# targets: tuples ("T", dest kind, dest, action context or None)
@pure
def target(ex, w, s, f, p, i):
    r = _st(ex, w, s, p).reactions[i]
    d = ex.eng.chart.dest(r[2])
    return ("T", d[0], d[1], r[3] if len(r) > 3 else None)


@pure
def choice_target(ex, w, s, f, p, i, j):
    r = _st(ex, w, s, p).reactions[i]
    c = r[2][min(j, len(r[2]) - 1)]
    d = ex.eng.chart.dest(c[1])
    return ("T", d[0], d[1], c[2] if len(c) > 2 else None)


@pure
def choice(ex, w, s, f, p, i, j):
    r = _st(ex, w, s, p).reactions[i]
    c = r[2][min(j, len(r[2]) - 1)]
    return {"fwd": FORWARD_IT, "dis": DISCARD_IT, "def": DEFERRAL, "term": TERMINATION}.get(c, TRANSITION) if isinstance(c, str) else TRANSITION


@pure
def lca(ex, w, s, f, p, t):
    return _ancestor(ex, w, s, p, ex.eng.chart.lca(_st(ex, w, s, p).name, (t[1], t[2])))


@pure
def below(ex, w, s, f, p, c):
    cp = w.resolve(c)
    cn = "M" if cp.o == ex.eng.M else _st(ex, w, s, cp).name
    return _ancestor(ex, w, s, p, ex.eng.chart.below(_st(ex, w, s, p).name, cn))


@pure
def class_of(ex, w, s, f, p):
    return _idx(ex, _st(ex, w, s, p).name)


@pure
def offers(ex, w, s, f, p, face):
    return int(ex.eng.chart.states[_st(ex, w, s, p).name].base == face[1])


@pure
def face_of(ex, w, s, f, p, face):
    """the part of the state that is the user's base class"""
    p, b = w.resolve(p), face[1]
    n = _st(ex, w, s, p).name
    o = ex.eng.type_offsets("_ZTI%d%s" % (len(n), n), "_ZTI%d%s" % (len(b), b))
    return P(p.o, p.off + list(o)[0])


@pure
def context_named(ex, w, s, f, p, c):
    return _ancestor(ex, w, s, p, c[1])


@pure
def bad_cast(ex, w, s, f):
    return Exc("thrown _ZTISt8bad_cast", "_ZTISt8bad_cast")


@pure
def has_action(ex, w, s, f, t):
    return int(t[3] is not None)


@pure
def action_context(ex, w, s, f, c, t):
    return _ancestor(ex, w, s, c, t[3])


@pure
def inside(ex, w, s, f, p, t, c):
    """the context designated for the action, if it is left by the transition"""
    cp, p = w.resolve(c), w.resolve(p)
    while t[3] is not None and p.o != cp.o and p.o != ex.eng.M:
        if _st(ex, w, s, p).name == t[3]:
            return p
        p = w.resolve(ex.load(w, s, P(p.o, ex.eng.fieldof(ex.obj(w, s, p.o).cls, "ctx")[0]), 8))
    return NULL


@pure
def dest(ex, w, s, f, t):
    return _idx(ex, t[2])


@pure
def dest_kind(ex, w, s, f, t):
    return HK[t[1]]


@pure
def reactions(ex, w, s, f, p):
    return len(_st(ex, w, s, p).reactions)


@pure
def kind(ex, w, s, f, p, i):
    return KIND[_st(ex, w, s, p).reactions[i][0]]


@pure
def triggered(ex, w, s, f, p, i, evt):
    e = _st(ex, w, s, p).reactions[i][1]
    if e == "ANY":
        return 1
    return int(ex.eng.event_is(w, s, evt, e))


@pure
def in_state_context(ex, w, s, f, p, i):
    r = _st(ex, w, s, p).reactions[i]
    return _ancestor(ex, w, s, p, r[2]) if len(r) > 2 and r[2] else NULL


@effect
def new_state(ex, w, s, f, args):
    n = _name(ex, args[0])
    return Op("allocate", [OP("1 " + n) if ex.eng.allocator else ex.eng.classes["S:" + n].size], "user", ("state", n))


@effect
def init_state_fields(ex, w, s, f, args):
    p = w.resolve(args[0])
    ob = ex.obj(w, s, p.o, True)
    c = ex.eng.classes[ob.cls]
    n = ob.cls[2:]
    for k, (off, kind) in c.fields.items():
        if k == "deferred":
            ob.cells[off] = (0, 1)
        elif k == "ctx":
            ob.cells[off] = (NULL, 8)
        elif k == "id":
            ob.cells[off] = (ex.eng.typeid[n], 8)
        elif k == "inner":
            for i in range(kind[1]):
                ob.cells[off + 8 * i] = (NULL, 8)
    return None


# ---------------------------------------------------------------- outcomes of user code
def _post(eng, w):
    off, _ = eng.fieldof("M", "queue")
    nm = w.fresh("posted")
    for s in (w.body, w.spec):
        o = s.wr(eng.M)
        o.ghost[off] = EvList(list(o.ghost[off]) + [("v", nm)])


def user(values=(None,), throws=True, post=True):
    def alts(eng, w, args):
        def ret(v):
            def f(e, w, a):
                if post:
                    _post(e, w)
                return ("ret", v)
            return f

        def thr(e, w, a):
            if post:
                _post(e, w)
            return ("throw", Exc(w.fresh("x")))
        vs = values(eng, w, args) if callable(values) else values
        out = [("returns" + ("" if v is None else " %s" % v), ret(v)) for v in vs]
        return out + ([("throws", thr)] if throws else [])
    return alts


def react_values(eng, w, args):
    p = w.resolve(args[0])
    st = eng.chart.states[w.spec.mem[p.o].cls[2:]]
    rs = [r for r in st.reactions if r[0] == "cust"]
    return range(max(len(r[2]) for r in rs))


def alloc_alts(eng, w, args):
    name = w.spec.pending.info[1]

    def ok(e, w, a):
        c = e.classes["S:" + name]
        oid = w.new_shared("%s" % name, c.size, "S:" + name)
        return ("ret", P(oid, 0))

    def thr(e, w, a):
        return ("throw", Exc(w.fresh("bad_alloc")))
    return [("allocated", ok), ("throws", thr)]


def free_alts(eng, w, args):
    def ok(e, w, a):
        p = w.resolve(a[0])
        for s in (w.body, w.spec):
            ob = e.ex.obj(w, s, p.o, True)
            if ob.kind != "heap" or p.off != 0:
                raise Violation("memory-safety", "deallocation of %s+%s" % (ob.name, p.off))
            ob.alive = False
        return ("ret", None)
    return [("freed", ok)]


class ChartUnit(Unit):
    """one chart, instantiated with the real library"""

    def __init__(self, chart, translate=False, flags=(), relaxed=False, post=True, throws=True, groups=()):
        self.groups = tuple(groups)
        self.chart, self.translate, self.relaxed = chart, translate, relaxed
        self.flags = ["-DBOOST_DISABLE_THREADS"] + list(flags) + (["-DVC_TRANSLATOR"] if translate else []) + \
            (["-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT"] if relaxed else [])
        self.name = "chart_" + chart.name + ("_translator" if translate else "") + ("_relaxed" if relaxed else "") + "".join(
            re.sub(r"\W", "_", f) for f in flags) + "".join("_" + g for g in groups)
        self.post, self.throws = post, throws
        self.sigs = set()
        self.native = "-DBOOST_STATECHART_USE_NATIVE_RTTI" in self.flags

    def load(self, outdir):
        src = os.path.join(outdir, self.name + ".cpp")
        open(src, "w").write(chartgen.source(self.chart, self.groups))
        self.mod = Module(compile_unit(src, self.flags, outdir))
        self.finder = Finder(self.mod)
        txt = open(VERIF + "/contracts/machine.py").read() + open(VERIF + "/contracts/charts.py").read() + \
            open(VERIF + "/contracts/access.py").read()
        if self.relaxed:
            txt += open(VERIF + "/contracts/relaxed.py").read()
        self.specs = specmod.compile_specs(txt)

    def ptrprobe(self, name):
        g = self.mod.global_init(name)
        if g is None or g[1] is None or g[1][0] != "glob":
            raise BuildError("probe %s" % name)
        return self.mod.aliases.get(g[1][1], g[1][1])

    def engine(self):
        mod, chart = self.mod, self.chart
        O = lambda c, f: off(mod, c, f)
        cl = {"M": machine_cls(mod), "ghost": Cls("ghost", 16, {"pin": (0, ("ptr", {})), "pin2": (8, ("ptr", {}))}),
              "argument": Cls("argument", 8, {})}
        opqid = lambda n: {} if self.native else {"id": (O(n, "id"), "id")}
        for n in chart.order:
            st = chart.states[n]
            fl = {"count": (O(n, "count"), "i64"), "deferred": (O(n, "deferred"), "bool"), "ctx": (O(n, "ctx"), ("ptr", {}))}
            fl.update(opqid(n))
            if st.leaf:
                fl["listpos"] = (O(n, "listpos"), "it")
            else:
                fl["inner"] = (O(n, "inner"), ("arr", len(st.init), {}))
            cl["S:" + n] = Cls("S:" + n, probe(mod, "size_" + n), fl)
        e0 = chart.events[0]
        ev = dict(count=(O(e0, "count"), "i32"), **opqid(e0))
        cl["event"] = Cls("event", probe(mod, "size_" + e0), ev)
        for n in chart.events:
            cl["E:" + n] = Cls("E:" + n, probe(mod, "size_" + n), ev)
        e = Engine(mod, cl)
        e.chart, e.unroll, e.real_types = chart, 1 << 60, True
        use_allocator(e, self.flags)
        e.specs = self.specs
        e.env = {"NO": NO, "FORWARD": FORWARD, "DISCARD": DISCARD, "DEFER": DEFER, "TRANSLATE": int(self.translate),
                 "RELAXED": int(self.relaxed), "LOOK": int("look" in self.groups), "TRANSITION": TRANSITION, "IN_STATE": IN_STATE, "DEFERRAL": DEFERRAL,
                 "TERMINATION": TERMINATION, "CUSTOM": CUSTOM, "FORWARD_IT": FORWARD_IT,
                 "INITIAL": chart.order.index(chart.initial), "EXC_ID": None}
        e.typeid = {"M": "M"}
        if not self.native:
            for n in chart.order + chart.events:
                e.typeid[n] = P(("G", self.ptrprobe("typeid_" + n)), 0)
            for n in mod.globals:
                if re.search(r"id_holder<boost::statechart::exception_thrown>::idProvider_", mod.dem(n)):
                    e.env["EXC_ID"] = e.typeid["EXC"] = P(("G", n), 0)
        else:
            for n in chart.order + chart.events:
                e.typeid[n] = P(("G", "_ZTI%d%s" % (len(n), n)), 0)
            e.env["EXC_ID"] = e.typeid["EXC"] = P(("G", "_ZTIN5boost10statechart16exception_thrownE"), 0)
        e.hist_fn, e.fn_hist = {}, {}
        for n in chart.order:
            st = chart.states[n]
            if st.parent and chart.states[st.parent].hist in ("sh", "full"):
                f = self.ptrprobe("hist_sh_" + n)
                e.hist_fn[("sh", n)] = f
                e.fn_hist[f] = n
            if st.leaf:
                for c in chart.ctxs(n)[:-1]:
                    if chart.states[c].hist in ("dh", "full"):
                        f = self.ptrprobe("hist_dh_%s_%s" % (c, n))
                        e.hist_fn[("dh", c, n)] = f
                        e.fn_hist[f] = n
        slots = vslots(mod, "_ZTV%d%s" % (len(chart.events[0]), chart.events[0]), {"delete": "delete_event"})
        slots = [m if m in ("destroy", "delete_event", "dummy") else "clone" for m in slots]     # the only other virtual function
        e.vslots = {c: slots for c in cl if c == "event" or c.startswith("E:")}
        hid = {(c, f) for c in cl if c.startswith("S:") for f in ("count", "listpos", "+0")} | {("ghost", "pin"), ("ghost", "pin2")}
        e.hidden = {"full": hid, "user": hid}
        p, t = self.post, self.throws
        addr = lambda ex, w, s, a: a
        e.ops = {
            "cb_ctor": OpSem(user(throws=t, post=p)), "cb_dtor": OpSem(user(throws=False, post=False)),
            "cb_exit": OpSem(user(throws=t, post=p)), "cb_action": OpSem(user(throws=t, post=p)),
            "cb_react": OpSem(user(react_values, throws=t, post=p)),
            "cb_unconsumed_event": OpSem(user(throws=t, post=p)),
            "cb_visit": OpSem(user(throws=False, post=False)), "cb_look": OpSem(user(throws=False, post=False)),
            "allocate": OpSem(alloc_alts), "deallocate": OpSem(free_alts), "delete_event": OpSem(delete_alts),
            "clone": OpSem(clone_alts, args=lambda ex, w, s, a: [a[1]], info=sret_info)}
        e.typeinfo = {"E:" + n: "_ZTI%d%s" % (len(n), n) for n in chart.events}
        e.event_is = lambda w, s, evt, n: self.event_is(e, w, s, evt, n)
        P_ = r"^boost::statechart::state_machine<M"
        f = self.finder.find
        self.sym = {
            "send_event": lambda: f(P_, "send_event"), "terminate_all": lambda: f(P_, "terminate_impl", r"^\(bool\)"),
            "initial_construct": lambda: f(P_, "initial_construct"),
            "terminate": lambda: f(P_ + r"[^:]*(::[^:]*)*$", "terminate"), "initiate": lambda: f(P_, "initiate"),
            "process_event": lambda: f(P_, "process_event"),
            "process_queued_events": lambda: f(P_, "process_queued_events"), "construct_machine": "construct_M", "destroy_machine": "destroy_M",
        }
        for a in chartgen.accessors(chart, self.groups):
            self.sym[a[1]] = a[1]
        return e

    def event_is(self, e, w, s, evt, n):
        p = w.resolve(evt)
        ob = e.ex.obj(w, s, p.o)
        if ob.cls.startswith("E:"):
            return ob.cls[2:] == n
        if ob.name == "exception_thrown":
            return n == "EXC"
        return w.ptr_eq(e.ex.load(w, s, P(p.o, e.fieldof(ob.cls, "id")[0]), 8), e.typeid[n])

    def use(self, e, modes):
        def alts(e, w, args):
            def reached(e, w, a):
                self.wellformed(e, w)       # what the callee's contract (machine unit) starts from
                e.stats.paths += 1
                raise Prune()
            return [("is called", reached)]
        for n, mode in modes.items():
            c = Contract(n, args=lambda ex, w, s, a: a[1:], alts=alts)
            e.contracts[self.sym[n]()] = (mode, c)
            e.cname[n] = (mode, c)

    # ------------------------------------------------------------ initial configurations
    def build(self, e, w, leaves, spare, flags=(), more=(), ous=None):
        """arbitrary well-formed machine with the given leaf states active, in this order"""
        chart = self.chart
        M = w.new_shared("M", e.classes["M"].size, "M")
        e.M = M
        e.env["M"] = P(M, 0)
        e.leaf_loc = (M, e.fieldof("M", "states")[0])
        full = 1
        G = w.new_shared("G", 16, "ghost")
        e.env["G"] = P(G, 0)
        for o in (0, 8):
            w.set_both(G, o, NULL, 8)
        act = self.act = {}
        for l in tuple(leaves) + tuple(more):
            for n in [l] + chart.ctxs(l)[:-1]:
                if n not in act:
                    act[n] = w.new_shared(n, e.classes["S:" + n].size, "S:" + n)
        cells = [P(act[l], 0) for l in leaves] + [NULL] * spare
        e.init_fields(w, M, {
            "states": LeafList("empty", tuple((i, c) for i, c in enumerate(cells)), len(cells)),
            "end": IT(e.leaf_loc, len(leaves)), "ous": P(act[ous], 0) if ous else NULL, "full": 1,
            "outermost": P(act[next(n for n in act if chart.states[n].parent is None)], 0) if act else NULL,
            "shallow": MapVal("empty"), "deep": MapVal("empty"), "trig": NULL})
        w.set_both(M, 0, P(("G", "_ZTV1M"), 16), 8)
        for n, oid in act.items():
            st = chart.states[n]
            F = lambda k: e.fieldof("S:" + n, k)
            w.set_both(oid, 0, P(("G", "_ZTV%d%s" % (len(n), n)), 16), 8)
            kids = [c for c in chart.children(n) if c in act]
            w.set_both(oid, F("count")[0], 1 if st.leaf else len(kids) + (n == ous), 8)
            w.set_both(oid, F("deferred")[0], e.fresh_field(w, n, "deferred", "bool") if n in flags else 0, 1)
            w.set_both(oid, F("ctx")[0], P(act[st.parent], 0) if st.parent else P(M, 0), 8)
            if "id" in e.classes["S:" + n].fields:
                w.set_both(oid, F("id")[0], e.typeid[n], 8)
            if st.leaf:
                w.set_both(oid, F("listpos")[0], IT(e.leaf_loc, leaves.index(n)), 8)
            else:
                for i in range(len(st.init)):
                    c = [k for k in kids if chart.states[k].region == i]
                    w.set_both(oid, F("inner")[0] + 8 * i, P(act[c[0]], 0) if c else NULL, 8)
        return M

    def setup(self, e, w, proof, mode):
        kw = proof.kw
        leaves, spare, hist = mode
        more, ous = (), None
        chart = self.chart
        self.build(e, w, list(leaves), spare, kw.get("flags", self.flagged(chart)), more, ous)
        e.final_check = self.wellformed
        if proof.spec == "construct_machine":
            m = w.body.wr(e.M)
            m.cells, m.ghost = {}, {}
            w.spec.wr(e.M).ghost.update({e.fieldof("M", f)[0]: EvList() for f in ("queue", "deferred")})
            w.spec.wr(e.M).cells[e.fieldof("M", "ico")[0]] = (0, 1)
            return [P(e.M, 0)], []
        if proof.spec == "destroy_machine":
            e.final_check = self.nothing_left
            e.hidden = {k: v | {("M", "+0")} for k, v in e.hidden.items()}      # the vtable pointer of an object under destruction
            w.set_both(e.M, e.fieldof("M", "trig")[0], NULL, 8)
        for f, ents in zip(("shallow", "deep"), hist):
            off_, _ = e.fieldof("M", f)
            for sd in (w.body, w.spec):
                ids = {}
                for k, fn in ents:
                    ids[k] = sd.new_private("history entry", 24, "heap")
                    sd.mem[ids[k]].cells[16] = (FN(fn) if fn else NULL, 8)
                sd.wr(e.M).ghost[off_] = MapVal("empty", ids)
        ir, sp = [P(e.M, 0)], []
        recv = proof.kw.get("recv")
        if recv and proof.spec.startswith("triggering"):        # while an event is being processed
            o = w.new_shared("event", e.classes["event"].size, "E:" + chart.events[0])
            w.set_both(e.M, e.fieldof("M", "trig")[0], P(o, 0), 8)
        if recv in chart.events:
            ir = []
        elif recv and recv != "M":
            ir = [P(self.act[recv], 0)]
        if recv and recv != "M" and recv not in chart.events:
            sp = list(ir)
        for a in proof.args:
            if isinstance(a, tuple):
                if a[0] == "S":
                    sp.append(chart.order.index(a[1]))
                elif a[0] in ("C", "F"):
                    sp.append((a[0], a[1]))
                elif a[0] == "E":
                    o = e.make_opaque(w, "evt", "event")
                    c = w.body.mem[o].cells[e.fieldof("event", "count")[0]][0]
                    w.assume(c >= (1 if a[1] == "ptr" else 0))
                    w.assume(c <= e.maxcount)
                    h = P(o, 0)
                    if a[1] == "ptr":
                        h = P(w.new_shared("argument", 8, "argument"), 0)
                        w.set_both(h.o, 0, P(o, 0), 8)
                    ir.append(h)
                    sp.append(P(o, 0))
                else:
                    x = e.typeid[a[1]]
                    sp.append((tuple(x) if isinstance(x, tuple) else x, a[2]))
            elif a == "flag":
                b = w.boolean("flag")
                ir.append(b)
                sp.append(b)
            else:
                o = w.new_shared("event " + a, e.classes["E:" + a].size, "E:" + a)
                e.init_fields(w, o, {"id": e.typeid[a]} if not self.native else {})
                for sd in (w.body, w.spec):
                    sd.wr(o).opaque = True
                c = w.body.mem[o].cells[e.fieldof("event", "count")[0]][0]
                w.assume(c >= 0)
                w.assume(c <= e.maxcount)
                ir.append(P(o, 0))
                sp.append(P(o, 0))
        return ir, sp

    @staticmethod
    def flagged(chart):
        return [n for n in chart.order if any(r[0] == "def" or r[0] == "cust" and "def" in r[2] for r in chart.states[n].reactions)]

    def nothing_left(self, e, w):
        e.stats.obl.setdefault("no state survives its machine", [0, 0])[0] += 1
        for oid, ob in w.body.mem.items():
            if ob.alive and ob.cls and ob.cls.startswith("S:"):
                raise Violation("no state survives its machine", "%s" % ob.name)
            if isinstance(oid, tuple) and oid[0] == "B" and ob.kind == "heap" and ob.alive and ob.name == "heap block":
                raise Violation("no state survives its machine", "memory leak")

    def wellformed(self, e, w):
        """representation invariant of the machine: at every API boundary, and (possibly with one
        unstable state) whenever an exception leaves the machine's inner functions"""
        st = e.stats.obl.setdefault("representation invariant", [0, 0])
        st[0] += 1
        s = w.body
        bad = lambda m: Violation("representation invariant", m)
        m = s.mem[e.M]
        g = lambda ob, f: w.norm(ob.cells[e.fieldof(ob.cls, f)[0]][0])
        isnull = lambda v: v == 0 or (isinstance(v, P) and v.o == 0)
        end = m.cells[e.fieldof("M", "end")[0]][0].idx
        ll = m.ghost[e.fieldof("M", "states")[0]]
        if is_sym(end) or is_sym(ll.size):
            raise bad("state list end is not definite")
        ous = g(m, "ous")
        active, reach = {}, []
        for i in range(ll.size):
            v = w.norm(e.ex.leaf_read(w, s, (e.M, e.fieldof("M", "states")[0]), i))
            if i >= end:
                if not isnull(v):
                    raise bad("the part of the state list behind the end still refers to a state")
                continue
            if isnull(v):
                raise bad("null state in the state list")
            ob = s.mem[v.o]
            if v.off or not ob.alive or not ob.cls.startswith("S:") or not self.chart.states[ob.cls[2:]].leaf:
                raise bad("the state list holds something that is not an active leaf state")
            if v.o in active:
                raise bad("a state is listed twice")
            it = g(ob, "listpos")
            if not (isinstance(it, IT) and it.idx == i and it.loc == (e.M, e.fieldof("M", "states")[0])):
                raise bad("list position of %s" % ob.name)
            active[v.o] = 1
            reach.append(v.o)
        for o in reach:
            ob = s.mem[o]
            n = self.chart.states[ob.cls[2:]]
            c = g(ob, "ctx")
            if n.parent is None:
                if c != P(e.M, 0) or g(m, "outermost") != P(o, 0):
                    raise bad("outermost state")
                continue
            cb = s.mem[c.o]
            if c.off or not cb.alive or cb.cls != "S:" + n.parent:
                raise bad("context of %s" % ob.name)
            if w.norm(cb.cells[e.fieldof(cb.cls, "inner")[0] + 8 * n.region][0]) != P(o, 0):
                raise bad("%s does not know its inner state" % cb.name)
            if c.o not in active:
                active[c.o] = 1
                reach.append(c.o)
        thrown = s.outcome is not None and s.outcome[0] == "throw"
        if not isnull(ous):
            if not thrown:
                raise bad("a state is still marked unstable")
            if ous.off or ous.o == 0 or not s.mem[ous.o].alive:
                raise bad("the unstable state is not an active state")
            o = ous.o
            while o != e.M and o not in active:
                active[o] = 1
                ob = s.mem[o]
                n = self.chart.states[ob.cls[2:]]
                c = g(ob, "ctx")
                if n.parent is None:
                    if c != P(e.M, 0) or g(m, "outermost") != P(o, 0):
                        raise bad("outermost state")
                elif w.norm(s.mem[c.o].cells[e.fieldof(s.mem[c.o].cls, "inner")[0] + 8 * n.region][0]) != P(o, 0):
                    raise bad("%s does not know its inner state" % s.mem[c.o].name)
                o = c.o
        if isnull(g(m, "outermost")) != (not active):
            raise bad("terminated() disagrees with the active states")
        fl = m.cells[e.fieldof("M", "full")[0]][0]
        if is_sym(fl) and not w.valid(fl == 1) or not is_sym(fl) and fl != 1:
            raise bad("exit actions stay disabled")
        for oid in w.shared:
            ob = s.mem.get(oid)
            if ob is None or not ob.alive or ob.cls is None or not ob.cls.startswith("S:"):
                continue
            if oid not in active:
                raise bad("state %s is neither active nor destroyed" % ob.name)
            n = self.chart.states[ob.cls[2:]]
            k = 1
            if not n.leaf:
                k = 0
                for i in range(len(n.init)):
                    v = w.norm(ob.cells[e.fieldof(ob.cls, "inner")[0] + 8 * i][0])
                    if not isnull(v):
                        k += 1
                        if v.o not in active:
                            raise bad("%s refers to an inner state that is not active" % ob.name)
            if not n.leaf:
                k += isinstance(ous, P) and oid == ous.o     # the machine's reference to its unstable state
                if k == 0:
                    raise bad("%s has no inner state" % ob.name)
            if g(ob, "count") != k:
                raise bad("reference count of %s is %s instead of %d" % (ob.name, g(ob, "count"), k))
        if not thrown or isnull(ous):
            nm = lambda o: s.mem[o].cls[2:]
            lv = [w.norm(e.ex.leaf_read(w, s, (e.M, e.fieldof("M", "states")[0]), i)) for i in range(end)]
            hist = []
            for f in ("shallow", "deep"):
                g_ = m.ghost[e.fieldof("M", f)[0]]
                ents = []
                for k in sorted(g_.ent, key=repr):
                    v = e.map_val(w, s, g_, k)
                    if v != "absent":
                        ents.append((k, v.name if isinstance(v, FN) else None))
                hist.append(tuple(ents))
            self.sigs.add((tuple(nm(v.o) for v in lv), ll.size - end, tuple(hist)))
        for oid, ob in s.mem.items():
            if isinstance(oid, tuple) and oid[0] == "B" and ob.kind == "heap" and ob.alive and ob.name == "heap block":
                raise bad("memory leak")

    def proof(self, name, sym, args, modes, spec=None, **kw):
        return Proof(self, name, sym, spec or sym, args, modes, {}, **kw)

    START = ((), 0, ((), ()))

    def functions(self, sig):
        return [("construct_machine", "construct_machine", [], {})] * (sig == self.START) + [("initiate", "initiate", [], {"process_queued_events": "opaque"}),
                ("terminate", "terminate", [], {}), ("destroy_machine", "destroy_machine", [], {}), ("terminate_impl", "terminate_all", ["flag"], {})] + \
            [("send_event " + ev, "send_event", [ev], {}) for ev in self.chart.events]

    # The proofs start from every configuration the chart can reach: the least set of configurations
    # that contains the fresh machine and is closed under the machine's functions.
    def tasks(self, only):
        return [self.START]

    def run_task(self, sig, deadline):
        self.sigs = set()
        rs = [Proof(self, self.chart.name + " " + n, sym, sym, args, [sig], uses).run(deadline)
              for n, sym, args, uses in self.functions(sig)]
        act = {c for l in sig[0] for c in [l] + self.chart.ctxs(l)}
        for g, name, recv, _, spec, args in chartgen.accessors(self.chart, self.groups):
            recv = recv.replace("const ", "")
            if recv == "M" or recv in act or recv in self.chart.events and sig == self.START:
                rs.append(Proof(self, "%s %s" % (self.chart.name, name[4:]), name, spec,
                                list(args) + ([recv] if recv in self.chart.events else []), [sig], {}, recv=recv).run(deadline))
        return rs, sorted(self.sigs, key=repr)

    def count(self, seen):
        return len(seen)
