"""Engine extension for processor_container<>: items that own references, the set of processors, control blocks.

boost::shared_ptr and weak_ptr of a processor holder run as real code on a shared control block ("ctl").  Only three things are
models: the creation of a control block for a new holder (an action that may fail for lack of memory), std::set as a
mathematical set keyed by control block, and boost::function0 as in workengine."""
import re, z3
from core import *
from exec import Op, Exc, bool_of, show, Agg
from spec import SpecFrame, pure, effect, compile_specs
from engine import Engine, split_method, PUSHED, PostVal
import engine as E
from workengine import WorkerEngine, HELD, TOUCHED, STALE, NOTIFIED, PENDING

HOLD = r"std::(auto|unique)_ptr<boost::statechart::event_processor<"
PROCS = re.compile(r"^std::set<boost::shared_ptr<" + HOLD)
SHARED = re.compile(r"^boost::shared_ptr<" + HOLD)
NODE = 32               # offset of the value in a node of the set

LIBRARY = compile_specs('''
def library_item(copy, destroy, obj, src, typ, dst):
    call_code(copy, obj, src)
    try:
        i = make_item(obj, typ)
    except:
        call_code(destroy, obj)
        raise
    store_item(dst, i)
''')


@effect
def call_code(ex, w, s, f, args):
    """run a function of the compiled code"""
    if args[0] == ("NONE",):
        return None
    ex.push_fn(w, s, ex.mod.funcs[args[0][1]], list(args[1:]))
    return PUSHED


@effect
def store_item(ex, w, s, f, args):
    ex.store(w, s, args[0], args[1], 8)
    return None


class SetVal(MapVal):
    """set of control blocks: base name, control block -> node | None"""
    __slots__ = ()


@effect
def set_add(ex, w, s, f, args):
    r, c = args
    ex.eng.set_put(w, s, (r[1], r[2]), w.resolve(c).o, True)


@effect
def new_set(ex, w, s, f, args):
    o, name = args
    off, _ = ex.eng.fieldof(ex.obj(w, s, o.o).cls, name)
    ex.obj(w, s, o.o, True).ghost[o.off + off] = SetVal("empty")


@effect
def set_remove(ex, w, s, f, args):
    r, c = args
    ex.eng.set_put(w, s, (r[1], r[2]), w.resolve(c).o, None)


@pure
def contains(ex, w, s, f, r, c):
    return int(ex.eng.set_has(w, s.mem[r[1]].ghost[r[2]], w.resolve(c).o))


@effect
def new_processor(ex, w, s, f, args):
    """storage of a processor whose event_processor base knows its scheduler and its handle"""
    c = w.resolve(args[0])
    o = storage(ex, w, s, f, [])
    bind(ex, w, s, f, [o, c])
    return o


@effect
def storage(ex, w, s, f, args):
    return P(s.new_private("processor", ex.eng.classes["Proc"].size, "heap", "Proc"), 0)


@effect
def bind(ex, w, s, f, args):
    """the event_processor base knows its scheduler and its handle"""
    p, c = w.resolve(args[0]), w.resolve(args[1])
    k = ex.eng.classes["Proc"]
    px = ex.load(w, s, P(c.o, ex.eng.fieldof("ctl", "px")[0]), 8)
    for n, v in (("scheduler", P(ex.eng.W, 0)), ("handle_px", px), ("handle_pn", c)):
        s.mem[p.o].cells[k.fields[n][0]] = (v, 8)


@pure
def machine(ex, w, s, f, p):
    return P(p.o, p.off - f.env["BASE"])


@pure
def processor(ex, w, s, f, p):
    return P(p.o, p.off + f.env["BASE"])


class SchedEngine(WorkerEngine):
    worker = "S"
    ctl_vtable = None
    exclusive_items = ()

    # ------------------------------------------------------------ objects
    def new_ctl(self, w, state, name):
        """control block and holder; state: pending | live | expired | done (created and destroyed, still referenced)"""
        h = w.new_shared("holder " + name, self.classes["holder"].size, "holder")
        c = w.new_shared("ctl " + name, self.classes["ctl"].size, "ctl")
        w.set_both(c, 0, self.ctl_vtable, 8)
        f = self.classes["ctl"].fields
        w.set_both(c, f["px"][0], P(h, 0), 8)
        w.set_both(c, f["weak"][0], 1 << 20, 4)
        self.ctl_state(w, c, h, state)
        return c, h

    def ctl_state(self, w, c, h, state, least=1):
        f = self.classes["ctl"].fields
        if state == "expired":
            use = 0
        else:
            use = w.bv("use", 32)
            w.assume(z3.And(use >= least, use < 1 << 20))
        w.set_both(c, f["use"][0], use, 4)
        for s in (w.body, w.spec):
            s.wr(h).alive = state != "expired"
        p = NULL if state == "pending" else P(self.make_opaque(w, "processor", "proc"), 0)
        w.set_both(h, 0, p, 8)
        q = self.member("procs")
        if q.off not in w.body.mem[q.o].ghost:
            return
        g = w.body.mem[q.o].ghost[q.off]
        w.res["set:%s:%s" % (g.base, c)] = state == "live"

    def init_fields(self, w, oid, over=None, tag=None):
        WorkerEngine.init_fields(self, w, oid, over, tag)
        c = self.classes[w.body.mem[oid].cls]
        if "procs" in c.fields:
            w.ghost_both(oid, c.fields["procs"][0], SetVal(w.fresh("processors")))

    # ------------------------------------------------------------ the set
    def set_has(self, w, g, c):
        if c in g.ent:
            return g.ent[c] is not None
        if g.base == "empty":
            return False
        return w.decide_key("set:%s:%s" % (g.base, c))

    def set_put(self, w, s, l, c, v):
        g = s.wr(l[0]).ghost[l[1]]
        n = SetVal(g.base, g.ent)
        n.ent[c] = v
        s.mem[l[0]].ghost[l[1]] = n

    def set_node(self, w, s, l, c):
        """node of a member; the members present from the start get theirs on demand"""
        g = s.mem[l[0]].ghost[l[1]]
        if not self.set_has(w, g, c):
            return None
        if g.ent.get(c) in (None, True):
            n = s.new_private("set node", NODE + 16, "heap")
            px = s.mem[c].cells[self.fieldof("ctl", "px")[0]][0]
            s.mem[n].cells[NODE] = (px, 8)
            s.mem[n].cells[NODE + 8] = (P(c, 0), 8)
            self.set_put(w, s, l, c, n)
        return s.mem[l[0]].ghost[l[1]].ent[c]

    def compare_ghost(self, w, a, b, off, nm, cmpname):
        ga, gb = a.ghost.get(off), b.ghost.get(off)
        if not (isinstance(ga, SetVal) and isinstance(gb, SetVal)):
            return WorkerEngine.compare_ghost(self, w, a, b, off, nm, cmpname)
        bad = ga.base != gb.base
        for k in set(ga.ent) | set(gb.ent):
            bad = bad or self.set_has(w, ga, k) != self.set_has(w, gb, k)
        if bad:
            raise Violation(cmpname, "%s.%s: the processors differ" % (a.name, nm))

    def shared_fn(self, what):
        for n in self.mod.funcs:
            d = self.mod.dem(n)
            c, m, r = split_method(d)
            if c and SHARED.match(c) and (m == "~shared_ptr" if what == "destroy" else
                                          m == "shared_ptr" and r == "(%s const&)" % c and "shared_ptr<" not in d[len(c) + 2:].split("(")[0]):
                return self.mod.funcs[n]
        raise Unsupported("shared_ptr " + what)

    def set_intercept(self, cls, meth, rest):
        def loc(w, p):
            p = w.resolve(p)
            return (p.o, p.off)

        def key(ex, w, s, p):
            p = w.resolve(p)
            c = w.resolve(ex.load(w, s, P(p.o, p.off + 8), 8))
            return None if c == NULL else c.o       # null is never an element: insert refuses it

        def f_ctor(e, ex, w, s, a):
            l = loc(w, a[0])
            ex.obj(w, s, l[0], True).ghost[l[1]] = SetVal("empty")
            return ex.ret(w, s, None)

        def f_insert(e, ex, w, s, a):
            l, c = loc(w, a[0]), key(ex, w, s, a[1])
            if "&&" in rest:
                raise Unsupported("moving into the set")
            if c is None:
                raise Unsupported("null processor in the set")
            if e.set_has(w, s.mem[l[0]].ghost[l[1]], c):
                return ex.ret(w, s, Agg((None, (P(e.set_node(w, s, l, c), 0), 0))))
            n = s.new_private("set node", NODE + 16, "heap")
            e.set_put(w, s, l, c, n)
            ex.push_fn(w, s, e.shared_fn("copy"), [P(n, NODE), a[1]], post=PostVal(Agg((None, (P(n, 0), 1)))))
            return None

        def remove(e, ex, w, s, l, c, v):
            n = e.set_node(w, s, l, c)
            if n is None:
                return ex.ret(w, s, v)
            e.set_put(w, s, l, c, None)
            ex.push_fn(w, s, e.shared_fn("destroy"), [P(n, NODE)], post=PostVal(v))
            return None

        def f_erase(e, ex, w, s, a):
            l = loc(w, a[0])
            if rest.startswith("(boost::shared_ptr"):
                c = key(ex, w, s, a[1])
                if c is None:
                    return ex.ret(w, s, 0)
                return remove(e, ex, w, s, l, c, int(e.set_has(w, s.mem[l[0]].ghost[l[1]], c)))
            p = a[1]
            if p == OP("setend"):
                raise Violation("memory-safety", "erase( end() )")
            if "terator" not in rest or len(a) != 2 or not isinstance(p, P):
                raise Unsupported("set erase")
            return remove(e, ex, w, s, l, key(ex, w, s, P(p.o, NODE)), UNDEF)

        def f_find(e, ex, w, s, a):
            l = loc(w, a[0])
            c = key(ex, w, s, a[1])
            n = None if c is None else e.set_node(w, s, l, c)
            return ex.ret(w, s, OP("setend") if n is None else P(n, 0))

        def f_end(e, ex, w, s, a):
            return ex.ret(w, s, OP("setend"))

        def f_count(e, ex, w, s, a):
            l = loc(w, a[0])
            c = key(ex, w, s, a[1])
            return ex.ret(w, s, int(c is not None and e.set_has(w, s.mem[l[0]].ghost[l[1]], c)))
        meth = meth.split("[abi")[0]
        if meth == "set":
            return f_ctor if rest.startswith("()") else None
        ins = f_insert if rest.startswith("(boost::shared_ptr") else None
        return {"insert": ins, "emplace": ins, "erase": f_erase, "find": f_find, "end": f_end,
                "cend": f_end, "count": f_count, "contains": f_count}.get(meth)

    # ------------------------------------------------------------ new holders
    def f_new_holder(self, e, ex, w, s, a):
        """shared_ptr<holder>(new holder): the empty holder gets a control block of its own"""
        p = w.resolve(a[1])
        if p.o not in s.mem or s.mem[p.o].kind != "heap" or not w.ptr_eq(ex.load(w, s, p, 8), NULL):
            raise Unsupported("control block of something else than a new empty holder")
        dst = a[0]

        def info(e2, w2, side, v):
            px = ex.load(w2, side, P(v.o, e.fieldof("ctl", "px")[0]), 8)
            r = w2.resolve(dst)
            ex.store(w2, side, r, px, 8)
            ex.store(w2, side, P(r.o, r.off + 8), v, 8)
            side.mem.pop(p.o, None)
            return None
        return Op("new_holder", [], "user", info)

    def f_make_shared(self, e, ex, w, s, a):
        dst = a[0]

        def info(e2, w2, side, v):
            r = w2.resolve(dst)
            ex.store(w2, side, r, ex.load(w2, side, P(v.o, e.fieldof("ctl", "px")[0]), 8), 8)
            ex.store(w2, side, P(r.o, r.off + 8), v, 8)
            return None
        return Op("new_holder", [], "user", info)

    def find_intercept(self, name):
        if name in self.intercepts:
            return self.intercepts[name]
        cls, meth, rest = split_method(self.mod.dem(name))
        h = None
        if cls is not None:
            if PROCS.match(cls):
                h = self.set_intercept(cls, meth, rest) or E.unmodelled("std::set", meth)
            elif SHARED.match(cls) and meth == "shared_ptr" and re.match(r"\(" + HOLD, rest) and rest.endswith("*)"):
                h = self.f_new_holder
            elif meth == "make_shared" and cls == "boost" and rest.startswith("()"):
                h = self.f_make_shared
        if h is None:
            return WorkerEngine.find_intercept(self, name)
        self.intercepts[name] = h
        return h

    # ------------------------------------------------------------ items
    def functor_copy(self, ex, w, s, op, typ, src):
        cp = self.functor_fn(typ, "copy")
        if cp is None:
            return WorkerEngine.functor_copy(self, ex, w, s, op, typ, src)
        dst = op.dst
        size = s.mem[src.o].size - src.off
        oid = s.new_private("functor of a work item", size, "heap")
        d = self.functor_fn(typ, "destroy")
        fr = SpecFrame(LIBRARY["library_item"], [("CODE", cp.name), ("CODE", d.name) if d else ("NONE",), P(oid, 0), src, ("TYPE", typ), dst], self.env)
        s.frames.append(fr)
        return None

    def lemma_worlds(self, w, s):
        """arbitrary later states in which the item runs: the objects it refers to may have changed, the arguments of the caller are gone"""
        out = [("run", w)]
        name, refs = s.args[0], [a for a in s.args[1:] if isinstance(a, P) and a.o in w.body.mem]
        ctls = [a.o for a in refs if w.body.mem[a.o].cls == "ctl"]
        for oid in w.shared:
            if w.body.mem[oid].cls in ("handle", "argument"):
                for side in (w.body, w.spec):
                    side.wr(oid).alive = False
            if w.body.mem[oid].cls == "event":
                o = self.fieldof("event", "count")[0]
                z = w.body.mem[oid].cells[o][1]
                n = w.bv("count", 8 * z)
                w.assume(z3.And(n >= 1, n < 1 << 20))
                w.set_both(oid, o, n, z)
        states = [("pending", "run")] if name.startswith("create") else [("live", "run"), ("expired", "run")]
        if name.startswith("create"):
            states += [("pending", "drop"), ("live", "drop"), ("done", "drop")]
        else:
            states += [("live", "drop"), ("expired", "drop")]
        if not ctls:
            states = [(None, "run"), (None, "drop")]
        out = []
        for st, what in states:
            c = w.clone()
            if st:
                h = w.body.mem[ctls[0]].cells[self.fieldof("ctl", "px")[0]][0].o
                self.ctl_state(c, ctls[0], h, st, 2 if (st, what, name[:6]) == ("live", "drop", "create") else 1)
            out.append((what, c))
        return out
