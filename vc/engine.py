"""Product exploration: discharges the obligations `real function refines contract`."""
import re, time, traceback, sys, z3
from core import *
from ir import *
from exec import *
import spec as specmod
from spec import SpecFrame, Ref, PURE, EFFECT, pure, effect


class Cls:
    """layout of one abstract class of objects (offsets are read from the compiled code)"""

    def __init__(self, name, size, fields, vt=None, base=None):
        self.name, self.size, self.vt = name, size, vt
        self.fields = dict(base.fields) if base else {}
        self.fields.update(fields)
        self.rev = {}
        for n, (o, k) in self.fields.items():
            if isinstance(k, tuple) and k[0] == "arr":
                for i in range(k[1]):
                    self.rev[o + 8 * i] = "%s[%d]" % (n, i)
            else:
                self.rev.setdefault(o, n)


def split_method(dem):
    """'a::b<c>::m(args) const' -> ('a::b<c>', 'm', 'args') """
    # strip return type of template functions: keep text after last top-level space before '('
    depth, par = 0, None
    i = 0
    n = len(dem)
    # operator< etc. need care
    opm = None
    for mm in re.finditer(r"operator\s*(\(\)|\[\]|->\*?|<<=?|>>=?|<=>|<=?|>=?|==|!=|\+\+|--|\*|\+|-|!|=|&&|\|\||&|bool|new\[\]|new|delete\[\]|delete)", dem):
        d = dem[:mm.start()].count("<") - dem[:mm.start()].count(">")
        if d == 0 or True:
            pre = dem[:mm.start()]
            dd = 0
            for ch in pre:
                if ch in "<({":
                    dd += 1
                elif ch in ">)}":
                    dd -= 1
            if dd == 0:
                opm = mm
    if opm:
        pre = dem[:opm.start()]
        meth = "operator" + opm.group(1)
        rest = dem[opm.end():]
        if pre.endswith("::"):
            pre = pre[:-2]
        # drop return type
        pre = drop_ret(pre)
        return pre, meth, rest
    for i, ch in enumerate(dem):
        if ch == "<":
            depth += 1
        elif ch == ">" and dem[i - 1] != "-":
            depth -= 1
        elif ch == "(" and depth == 0:
            if dem[i:i + 2] == "(a" and dem.startswith("(anonymous", i):
                continue
            par = i
            break
    if par is None:
        return None, dem, ""
    head, rest = dem[:par], dem[par:]
    head = drop_ret(head)
    # split last ::
    depth = 0
    j = len(head)
    k = len(head) - 1
    cut = None
    while k > 0:
        ch = head[k]
        if ch == ">":
            depth += 1
        elif ch == "<":
            depth -= 1
        elif ch == ":" and head[k - 1] == ":" and depth == 0:
            cut = k
            break
        k -= 1
    if cut is None:
        return "", strip_t(head), rest
    return head[:cut - 1], strip_t(head[cut + 1:]), rest


def unmodelled(cls, meth):
    def f(e, ex, w, s, a):
        raise Unsupported("%s::%s is not modelled" % (cls[:60], meth))
    return f


def drop_ret(h):
    depth, cut = 0, 0
    for i, ch in enumerate(h):
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        elif ch == " " and depth == 0 and not h[:i].endswith("operator") and not h[i + 1:].startswith("const"):
            cut = i + 1
    return h[cut:]


def strip_t(m):
    i = m.find("<")
    return m[:i] if i > 0 and not m.startswith("operator") else m


EVLIST = re.compile(r"^std::(__cxx11::)?list<boost::intrusive_ptr<boost::statechart::event_base const>")
EVIT = re.compile(r"^std::_List_(const_)?iterator<boost::intrusive_ptr<boost::statechart::event_base const>")
LEAFLIST = re.compile(r"^std::(__cxx11::)?list<boost::intrusive_ptr<boost::statechart::detail::leaf_state<")
LEAFIT = re.compile(r"^std::_List_(const_)?iterator<boost::intrusive_ptr<boost::statechart::detail::leaf_state<")
HMAP = re.compile(r"^std::map<boost::statechart::detail::history_key<")
HMAPIT = re.compile(r"^std::_Rb_tree_(const_)?iterator<std::pair<boost::statechart::detail::history_key<")


class Engine:
    def __init__(self, mod, classes, timeout_ms=4000):
        self.mod, self.classes, self.timeout_ms = mod, classes, timeout_ms
        self.stats = Stats()
        self.ex = Executor(mod, self)
        self.static_globals = set()
        self.specs = {}              # name -> Code
        self.env = {}                # spec environment (constants)
        self.contracts = {}          # IR symbol -> (mode, contract)
        self.cname = {}              # contract name -> (mode, contract)
        self.ops = {}                # op name -> semantics
        self.obslevel = {}           # (class, field) sets hidden per level
        self.hidden = {"full": set(), "user": set()}
        self.unroll = 1
        self.loop_inv = []
        self.maxpaths = 20000
        self.maxsteps = 4000000
        self.cbcache = {}
        self.intercepts = {}
        self.cb_sig = {}
        self.top = None
        self.deadline = None
        self.violations = []
        self.gen_ctr = 0
        self.tags = {}
        self.require_cover = set()

    def tobool(self, c):
        return c if is_sym(c) else z3.BoolVal(bool(c))

    # ------------------------------------------------------------ misc hooks
    def and_(self, *a):
        a = [x for x in a if x is not True]
        if any(x is False for x in a):
            return False
        if not a:
            return True
        return z3.And(*[x if is_sym(x) else z3.BoolVal(bool(x)) for x in a])

    def fieldof(self, cls, name):
        c = self.classes.get(cls)
        if c is None or name not in c.fields:
            raise Unsupported("no field %s in class %s" % (name, cls))
        return c.fields[name]

    def listloc(self, w, ob, old):
        if isinstance(old, IT):
            return old.loc
        return self.leaf_loc

    def exc_subtype(self, a, b):
        return a == b

    def global_hook(self, w, s, name, o):
        o.opaque = False

    def obligation(self, w, name, cond):
        st = self.stats.obl.setdefault(name, [0, 0])
        st[0] += 1
        if isinstance(cond, (bool, int)):
            ok = bool(cond)
        elif isinstance(cond, tuple):
            ok = not w.ptr_eq(cond, NULL)
        else:
            st[1] += 1
            ok = w.valid(cond)
        if not ok:
            raise Violation(name, "condition does not hold: %s" % (cond,), self.model(w, cond))

    def model(self, w, cond=None):
        try:
            s = w._solver()
            r = s.check(z3.Not(cond)) if is_sym(cond) else s.check()
            if r == z3.sat:
                return str(s.model())[:600]
        except Exception:
            pass
        return None

    # ------------------------------------------------------------ objects
    def init_fields(self, w, oid, over=None, tag=None):
        """arbitrary initial contents for every declared field of a shared object"""
        ob = w.body.mem[oid]
        c = self.classes[ob.cls]
        over = over or {}
        nm = tag or ob.name
        for f, (off, kind) in c.fields.items():
            if f in over:
                v = over[f]
                if v is None:
                    continue
            else:
                v = self.fresh_field(w, nm, f, kind, oid)
                if v is None:
                    continue
            if isinstance(v, (EvList, LeafList, MapVal)):
                w.ghost_both(oid, off, v)
            elif isinstance(kind, tuple) and kind[0] == "arr":
                for i, x in enumerate(v):
                    w.set_both(oid, off + 8 * i, x, 8)
            else:
                size = specmod.KSIZE.get(kind, 8) if isinstance(kind, str) else 8
                w.set_both(oid, off, v, size)

    def fresh_field(self, w, nm, f, kind, oid=None):
        n = "%s.%s" % (nm, f)
        if kind == "bool":
            return z3.If(w.boolean(n), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if kind == "i64":
            return w.bv(n, 64)
        if kind == "i32":
            return w.bv(n, 32)
        if kind == "i8":
            return w.bv(n, 8)
        if kind == "evlist":
            return EvList([("v", w.fresh(n))])
        if kind == "map":
            return MapVal(w.fresh(n))
        if kind in ("fn", "id"):
            return OP(w.fresh("?" + n))
        if kind == "vt":
            return None
        if isinstance(kind, tuple) and kind[0] == "ptr":
            return self.fresh_ptr(w, n, kind[1])
        if isinstance(kind, tuple) and kind[0] == "arr":
            return [self.fresh_ptr(w, "%s[%d]" % (n, i), kind[2]) for i in range(kind[1])]
        return None

    def fresh_ptr(self, w, n, cand):
        nm = w.fresh(n)
        w.cands[nm] = dict(cand)
        return SP(nm)

    def make_opaque(self, w, name, cls):
        c = self.classes[cls]
        oid = w.new_shared("%s<%s>" % (cls, name), c.size, cls, "heap", True)
        self.init_fields(w, oid, None, name)
        h = getattr(self, "opaque_hook", None)
        if h:
            h(w, oid, cls, name)
        return oid

    # events popped out of an arbitrary queue -------------------------------
    def seg_split(self, w, seg):
        """decide whether queue segment `seg` is empty; returns None or (event id, tail)"""
        key = "seg:" + seg
        if key not in w.res:
            raise Fork([("res", key, "empty"), ("cons", key, seg)])
        return w.res[key]

    def apply_alt(self, w, alt):
        if alt[0] == "pc":
            w.assume(alt[1])
        elif alt[0] == "res":
            w.res[alt[1]] = alt[2]
            if alt[2] == "empty":
                self.tie_len(w, alt[1][4:])
            self.pass_min(w, w.cands.get(alt[1], {}).get("min"), alt[2])
            w.trail.append("%s=%s" % (alt[1], show(alt[2])))
        elif alt[0] == "opq":
            # a symbolic pointer refers to some object not known so far
            oid = self.make_opaque(w, alt[1], alt[2])
            w.res[alt[1]] = P(oid, 0)
            w.trail.append("%s=new %s" % (alt[1], alt[2]))
        elif alt[0] == "cons":
            w.ctr += 1
            oid = self.make_opaque(w, alt[2] + ".head", "event")
            off, _ = self.fieldof("event", "count")
            cnt = w.body.mem[oid].cells[off][0]
            w.assume(cnt >= 1)
            w.assume(cnt <= self.maxcount)
            w.res[alt[1]] = (oid, w.fresh(alt[2] + ".tail"))
            self.tie_len(w, alt[2])
        else:
            raise Unsupported("alternative")

    def seg_len(self, w, seg):
        """length of an arbitrary part of a queue"""
        r = w.res.get("seg:" + seg)
        if r == "empty":
            return 0
        if r is not None:
            n = self.seg_len(w, r[1])
            return n + 1
        v = z3.BitVec("len:" + seg, 64)
        if seg not in w.cands:
            w.cands[seg] = {}
            w.assume(z3.ULT(v, 1 << 40))
        return v

    def tie_len(self, w, seg):
        """the part was split: its length, when already talked about, follows"""
        if seg in w.cands:
            w.assume(z3.BitVec("len:" + seg, 64) == self.seg_len(w, seg))

    maxcount = 1 << 30

    def pass_min(self, w, mn, p):
        """a lower bound of the reference count moves on to the object a pointer resolves to"""
        if not mn:
            return
        if isinstance(p, SP):
            c = dict(w.cands.get(p.name, {}))
            c["min"] = max(mn, c.get("min", 0))
            w.cands[p.name] = c
            if p.name in w.res:
                self.pass_min(w, mn, w.res[p.name])
        elif isinstance(p, P) and p.o in w.body.mem:
            ob = w.body.mem[p.o]
            off, _ = self.fieldof(ob.cls, "count")
            w.assume(ob.cells[off][0] >= mn)

    def ev_first(self, w, s, loc):
        """-> None when empty, else (node oid on this side, rest of list)"""
        g = self.ex.obj(w, s, loc[0]).ghost.get(loc[1])
        if not isinstance(g, EvList):
            raise Unsupported("not an event list")
        items = list(g)
        while items:
            k, v = items[0]
            if k == "n":
                return v, items
            r = self.seg_split(w, v)
            if r == "empty":
                items = items[1:]
                continue
            ev, tail = r
            node = s.new_private("queue node", 8, "heap")
            s.mem[node].cells[0] = (P(ev, 0), 8)
            items = [("n", node), ("v", tail)] + items[1:]
            self.ex.obj(w, s, loc[0], True).ghost[loc[1]] = EvList(items)
            return node, items
        return None

    # ------------------------------------------------------------ leaf lists
    def leaf_base(self, w, base, idx):
        reg = w.leafbase.setdefault(base, [])
        for t, v in reg:
            if w.decide(term_eq(t, idx)):
                return w.norm(v)
        c = self.leaf_cand(w, base, idx)
        if c is None:
            raise Violation("memory-safety", "read of a state list cell that does not exist")
        nm = "%s[%s]" % (base, idx)
        if nm not in w.cands:
            w.cands[nm] = c
        v = SP(nm)
        reg.append((idx, v))
        return v

    def leaf_cand(self, w, base, idx):
        if base == "empty":
            return None
        return {"null": False, "opaque": "leaf", "lazyvt": True}

    # ------------------------------------------------------------ intercepts
    def find_intercept(self, name):
        if name in self.intercepts:
            return self.intercepts[name]
        dem = self.mod.dem(name)
        cls, meth, rest = split_method(dem)
        meth = meth and meth.replace("[abi:cxx11]", "")
        h = None
        if cls is not None:
            for rx, model in ((EVLIST, self.ev_intercept), (EVIT, self.evit_intercept), (LEAFLIST, self.leaf_intercept), (LEAFIT, self.leafit_intercept),
                              (HMAP, self.map_intercept), (HMAPIT, self.mapit_intercept)):
                if rx.match(cls):
                    if self.allocator and not plain_container(cls) and not own_allocator(cls):
                        h = wrong_allocator(cls)
                        break
                    if self.allocator:
                        self.stats.obl.setdefault("memory comes from the user's allocator", [0, 0])[0] += 1
                    # constructing and assigning iterators copies a pointer: those functions run for real
                    plain = rx in (LEAFIT, HMAPIT, EVIT) and (not meth.startswith("operator") or meth == "operator=")
                    h = model(cls, meth, rest, name) or (None if plain else unmodelled(cls, meth))
        if h is None:
            h = RUNTIME.get(name) or RUNTIME_DEM.get(dem.split("(")[0])
        if h is None:
            for rx, f in self.extra_intercepts:
                if rx.search(dem):
                    h = f(self, name, dem, cls, meth, rest)
                    if h:
                        break
        self.intercepts[name] = h
        return h

    extra_intercepts = []
    allocator = False       # the user passes vca::alloc<>: all memory must come from there and go back

    def intercept(self, ex, w, s, name, args):
        h = self.find_intercept(name)
        if h is not None:
            return h(self, ex, w, s, args)
        c = self.contracts.get(name)
        if c is not None and s is w.body and not (len(s.frames) == 0):
            mode, con = c
            if mode == "spec":
                return self.enter_spec(ex, w, s, con, con.map_args(ex, w, s, args))
            if mode == "opaque":
                return self.opaque_call(ex, w, s, con, con.map_args(ex, w, s, args))
        return False

    def enter_spec(self, ex, w, s, con, args):
        if con.requires:
            con.requires(self, ex, w, s, args)
        f = SpecFrame(self.specs[con.spec], args, self.env)
        s.frames.append(f)
        return None

    def opaque_call(self, ex, w, s, con, args):
        if con.requires:
            con.requires(self, ex, w, s, args)
        self.stats.assumed[con.name] = self.stats.assumed.get(con.name, 0) + 1
        return Op("call " + con.name, args, con.obs, ("contract", con))

    # spec-side calls: builtin effect | contract | op
    def spec_call(self, ex, w, s, frame, name, args):
        if name in EFFECT:
            r = EFFECT[name](ex, w, s, frame, args)
            if isinstance(r, Op):
                return r
            if r is PUSHED:
                return None
            frame.deliver(ex, w, s, r)
            return None
        if name in self.cname:
            mode, con = self.cname[name]
            if mode == "opaque":
                return self.opaque_call(ex, w, s, con, args)
            return self.enter_spec(ex, w, s, con, args)
        if name in self.specs:
            s.frames.append(SpecFrame(self.specs[name], args, self.env))
            return None
        if name in self.ops:
            return Op(name, args, self.ops[name].obs)
        raise NameError("spec callee " + name)

    def vcall(self, ex, w, s, target, args):
        _, oref, slot = target
        cls = self.vcls(w, oref)
        meth = self.vslot(cls, slot)
        op = self.ops.get(meth)
        if op is None:
            raise Unsupported("virtual call %s on %s" % (meth, cls))
        return Op(meth, op.map_args(self, ex, w, s, args), op.obs, op.bodyinfo(self, ex, w, s, args))

    def vcls(self, w, oref):
        if isinstance(oref, SP):
            return w.cands[oref.name]["opaque"]
        return w.body.mem[oref].cls if oref in w.body.mem else w.spec.mem[oref].cls

    def typeinfo_of(self, w, oref):
        cls = self.vcls(w, oref)
        if cls not in self.typeinfo:
            raise Unsupported("type of an abstract %s" % cls)
        return self.typeinfo[cls]

    def vslot(self, cls, slot):
        v = self.vslots[cls]
        if slot >= len(v):
            raise Unsupported("vtable slot %d of %s" % (slot, cls))
        return v[slot]

    def call_pointer(self, ex, w, s, target, args):
        op = self.ops.get("call_pointer")
        if op is None:
            raise Unsupported("call through pointer %s" % show(target))
        return Op("call_pointer", [target] + op.map_args(self, ex, w, s, args), op.obs,
                  op.bodyinfo(self, ex, w, s, args))

    def external(self, ex, w, s, name, args):
        dem = self.mod.dem(name)
        base = dem.split("(")[0]
        op = self.ops.get(base)
        if op is None:
            raise Unsupported("call of external function " + dem)
        return Op(base, op.map_args(self, ex, w, s, args), op.obs, op.bodyinfo(self, ex, w, s, args))

    # ---------------- std::list< intrusive_ptr<event> >
    def ev_intercept(self, cls, meth, rest, name):
        E = self
        last = cls.rsplit("::", 1)[-1]

        def loc(w, p):
            p = w.resolve(p)
            return (p.o, p.off)

        def f_ctor(e, ex, w, s, a):
            l = loc(w, a[0])
            ex.obj(w, s, l[0], True).ghost[l[1]] = EvList()
            return ex.ret(w, s, None)

        def f_dtor(e, ex, w, s, a):
            l = loc(w, a[0])
            g = ex.obj(w, s, l[0]).ghost[l[1]]
            if e.ev_void(w, g):
                ex.obj(w, s, l[0], True).ghost[l[1]] = EvList()
                return ex.ret(w, s, None)
            return Op("clear_events", [e.evval(w, s, g)], "full", ("ev_clear", l))

        def f_empty(e, ex, w, s, a):
            r = e.ev_first(w, s, loc(w, a[0]))
            return ex.ret(w, s, int(r is None))

        def f_front(e, ex, w, s, a):
            r = e.ev_first(w, s, loc(w, a[0]))
            if r is None:
                raise Violation("memory-safety", "front() of an empty event queue")
            return ex.ret(w, s, P(r[0], 0))

        def f_back(e, ex, w, s, a):
            l = loc(w, a[0])
            g = ex.obj(w, s, l[0]).ghost[l[1]]
            if not g or g[-1][0] != "n":
                raise Unsupported("back()")
            return ex.ret(w, s, P(g[-1][1], 0))

        def f_pop_front(e, ex, w, s, a):
            l = loc(w, a[0])
            r = e.ev_first(w, s, l)
            if r is None:
                raise Violation("memory-safety", "pop_front() of an empty event queue")
            node, items = r
            ex.obj(w, s, l[0], True).ghost[l[1]] = EvList(items[1:])
            return e.destroy_ptr(ex, w, s, P(node, 0))

        def push(front):
            def f(e, ex, w, s, a):
                l = loc(w, a[0])
                g = ex.obj(w, s, l[0]).ghost.get(l[1])
                src = w.resolve(a[1])
                node = s.new_private("queue node", 8, "heap")
                ex.obj(w, s, l[0], True).ghost[l[1]] = EvList(
                    ([("n", node)] + list(g)) if front else (list(g) + [("n", node)]))
                return fill(e, ex, w, s, P(node, 0), src, PostVal(P(node, 0)) if "emplace" in meth else None)
            return f

        def f_clear(e, ex, w, s, a):
            l = loc(w, a[0])
            g = ex.obj(w, s, l[0]).ghost[l[1]]
            if e.ev_void(w, g):
                ex.obj(w, s, l[0], True).ghost[l[1]] = EvList()
                return ex.ret(w, s, None)
            return Op("clear_events", [e.evval(w, s, g)], "full", ("ev_clear", l))

        def f_begin(e, ex, w, s, a):
            l = loc(w, a[0])
            g = ex.obj(w, s, l[0]).ghost[l[1]]
            return ex.ret(w, s, IT(("ev",) + l, EvAt("n", g[0][1]) if g and g[0][0] == "n" else EvAt("first", g)))

        def f_end(e, ex, w, s, a):
            return ex.ret(w, s, IT(("ev",) + loc(w, a[0]), EvAt("end")))

        def put(ex, w, s, l, g):
            ex.obj(w, s, l[0], True).ghost[l[1]] = EvList(g)

        def parts(e, ex, w, s, it, l):
            """the sequence before and from a position on"""
            if not isinstance(it, IT) or it.loc[1:] != l:
                raise Unsupported("position in another list")
            g = list(ex.obj(w, s, l[0]).ghost[l[1]])
            if it.idx[0] == "end":
                return g, []
            if it.idx[0] == "first" and tuple(it.idx[1]) == tuple(g):
                return [], g
            at = e.ev_at(w, s, it)
            g = list(ex.obj(w, s, l[0]).ghost[l[1]])
            if at[0] == "end":
                return g, []
            i = g.index(("n", at[1]))
            return g[:i], g[i:]

        def f_splice(e, ex, w, s, a):
            l, l2 = loc(w, a[0]), loc(w, a[2])
            if l == l2:
                raise Violation("memory-safety", "self splice") if len(a) == 3 else Unsupported("splice within a list")
            pre, post = parts(e, ex, w, s, a[1], l)
            if len(a) == 3:
                h0, h, h1 = [], list(ex.obj(w, s, l2[0]).ghost[l2[1]]), []
            else:
                h0, h = parts(e, ex, w, s, a[3], l2)
                h1 = []
                if len(a) == 4:
                    if not h or h[0][0] != "n":
                        raise Unsupported("splice of one element")
                    h, h1 = h[:1], h[1:]
                else:
                    x, h1 = parts(e, ex, w, s, a[4], l2)
                    h0, h = parts(e, ex, w, s, a[3], l2)
                    if h1 != h[len(h) - len(h1):]:
                        raise Unsupported("splice of a range")
                    h = h[:len(h) - len(h1)]
            put(ex, w, s, l, pre + h + post)
            put(ex, w, s, l2, h0 + h1)
            return ex.ret(w, s, None)

        def f_swap(e, ex, w, s, a):
            l, l2 = loc(w, a[0]), loc(w, a[1])
            g, h = ex.obj(w, s, l[0]).ghost[l[1]], ex.obj(w, s, l2[0]).ghost[l2[1]]
            put(ex, w, s, l, h)
            put(ex, w, s, l2, g)
            return ex.ret(w, s, None)

        def f_insert(e, ex, w, s, a):
            l = loc(w, a[0])
            if len(a) != 3 or "List" in rest.split(",", 1)[-1]:
                raise Unsupported("insertion of a range")
            src = w.resolve(a[2])
            pre, post = parts(e, ex, w, s, a[1], l)
            node = s.new_private("queue node", 8, "heap")
            put(ex, w, s, l, pre + [("n", node)] + post)
            return fill(e, ex, w, s, P(node, 0), src, PostVal(IT(("ev",) + l, EvAt("n", node))))

        def f_erase(e, ex, w, s, a):
            l = loc(w, a[0])
            if len(a) != 2:
                pre, _ = parts(e, ex, w, s, a[1], l)
                _, post = parts(e, ex, w, s, a[2], l)
                if pre or post:
                    raise Unsupported("erasure of a range")
                g = ex.obj(w, s, l[0]).ghost[l[1]]
                if not e.ev_void(w, g):
                    return Op("clear_events", [e.evval(w, s, g)], "full", ("ev_clear", l, IT(("ev",) + l, EvAt("end"))))
                return ex.ret(w, s, IT(("ev",) + l, EvAt("end")))
            at = e.ev_at(w, s, a[1])
            if at[0] == "end":
                raise Violation("memory-safety", "erase of the end of the event queue")
            pre, post = parts(e, ex, w, s, a[1], l)
            put(ex, w, s, l, pre + post[1:])
            nxt = EvAt("end") if len(post) == 1 else EvAt("n", post[1][1]) if post[1][0] == "n" else EvAt("first", EvList(post[1:])) if not pre else None
            f = e.destroy_fn()
            if f is None:
                return ex.ret(w, s, IT(("ev",) + l, nxt))
            ex.push_fn(w, s, f, [P(post[0][1], 0)], post=PostVal(IT(("ev",) + l, nxt) if nxt else OP("?position")))
            return None

        def f_pop_back(e, ex, w, s, a):
            l = loc(w, a[0])
            g = ex.obj(w, s, l[0]).ghost[l[1]]
            if not g or g[-1][0] != "n":
                raise Unsupported("pop_back()")
            put(ex, w, s, l, g[:-1])
            return e.destroy_ptr(ex, w, s, P(g[-1][1], 0))

        def fill(e, ex, w, s, dst, src, post):
            f = e.fill_fn("&&" in rest)
            if f is None:
                ex.store(w, s, dst, ex.load(w, s, src, 8), 8)
                if "&&" in rest:
                    ex.store(w, s, src, NULL, 8)
                return ex.ret(w, s, post.v if post else None)
            ex.push_fn(w, s, f, [dst, src], post=post)
            return None

        def f_size(e, ex, w, s, a):
            n = 0
            l = loc(w, a[0])
            for k, v in ex.obj(w, s, l[0]).ghost[l[1]]:
                n = n + (e.seg_len(w, v) if k == "v" else 1)
            return ex.ret(w, s, z3.simplify(n) if is_sym(n) else n)

        if meth == "list" and rest.startswith("()"):
            return f_ctor
        if meth == "~list":
            return f_dtor
        if meth.startswith("emplace") and not re.search(r"^\(boost::(intrusive_ptr<boost::statechart::event_base const>|function0<void>)( const&|&&|&)\)$", rest):
            return None
        return {"size": f_size, "empty": f_empty, "front": f_front, "pop_front": f_pop_front, "push_back": push(False),
                "push_front": push(True), "clear": f_clear, "begin": f_begin, "cbegin": f_begin, "end": f_end,
                "cend": f_end, "splice": f_splice, "back": f_back, "swap": f_swap, "insert": f_insert, "erase": f_erase,
                "pop_back": f_pop_back, "emplace_back": push(False), "emplace_front": push(True)}.get(meth)

    def evit_intercept(self, cls, meth, rest, name):
        def it(ex, w, s, p):
            v = ex.load(w, s, p, 8)
            if not isinstance(v, IT):
                raise Unsupported("iterator value %r" % (v,))
            return v

        def f_deref(e, ex, w, s, a):
            at = e.ev_at(w, s, it(ex, w, s, a[0]))
            if at[0] == "end":
                raise Violation("memory-safety", "dereference of the end of the event queue")
            return ex.ret(w, s, P(at[1], 0))

        def f_next(e, ex, w, s, a):
            v = it(ex, w, s, a[0])
            at = e.ev_at(w, s, v)
            if at[0] == "end":
                raise Violation("memory-safety", "increment past the end of the event queue")
            g = list(ex.obj(w, s, v.loc[1]).ghost[v.loc[2]])
            i = g.index(("n", at[1]))
            rest_ = e.ev_split(w, s, g[i + 1:])
            ex.obj(w, s, v.loc[1], True).ghost[v.loc[2]] = EvList(g[:i + 1] + rest_)
            nv = IT(v.loc, EvAt("n", rest_[0][1]) if rest_ else EvAt("end"))
            ex.store(w, s, a[0], nv, 8)
            return ex.ret(w, s, v if "(int)" in rest else a[0])
        return {"operator*": f_deref, "operator->": f_deref, "operator++": f_next}.get(meth)

    def ev_split(self, w, s, items):
        """the same items with a node in front, if there is any element"""
        while items and items[0][0] == "v":
            r = self.seg_split(w, items[0][1])
            if r == "empty":
                items = items[1:]
                continue
            node = s.new_private("queue node", 8, "heap")
            s.mem[node].cells[0] = (P(r[0], 0), 8)
            items = [("n", node), ("v", r[1])] + items[1:]
        return items

    def ev_at(self, w, s, it):
        """what a position is: ("n", node) or ("end", None)"""
        o = self.ex.obj(w, s, it.loc[1])
        g = o.ghost.get(it.loc[2])
        kind, v = it.idx
        if kind == "end":
            return it.idx
        if kind == "stale":
            raise Unsupported("position in a queue carried over from an earlier iteration")
        if kind == "n":
            if ("n", v) not in g:
                raise Violation("memory-safety", "use of an invalid position in the event queue")
            return it.idx
        # the front of the list as it was; still meaningful if the list is the same or was only looked at
        if tuple(g) != tuple(v) and self.ev_flat(w, g, s) != self.ev_flat(w, v, s):
            raise Unsupported("position in a list that has changed")
        r = self.ev_first(w, s, it.loc[1:])
        return EvAt("end") if r is None else EvAt("n", r[0])

    def ev_void(self, w, g):
        return all(k == "v" and w.res.get("seg:" + v) == "empty" for k, v in g)

    def evval(self, w, s, g):
        return ("EVS", tuple(g), s.name)

    def node_val(self, s, node):
        return s.mem[node].cells[0][0]

    def sym_fn(self, pattern):
        for n in self.mod.funcs:
            if pattern in self.mod.dem(n):
                return self.mod.funcs[n]
        raise Unsupported("no function " + pattern)

    def fill_fn(self, move):
        """real copy or move constructor of the elements"""
        t = "boost::intrusive_ptr<boost::statechart::event_base const>"
        return self.find_exact("%s::intrusive_ptr(%s%s)" % (t, t, "&&" if move else " const&"))

    def destroy_fn(self):
        return self.find_exact("boost::intrusive_ptr<boost::statechart::event_base const>::~intrusive_ptr()")

    def destroy_ptr(self, ex, w, s, p):
        f = self.destroy_fn()
        if f is None:
            return ex.ret(w, s, None)
        ex.push_fn(w, s, f, [p])
        return None

    def find_exact(self, dem):
        c = self.cbcache.get(dem)
        if c is None:
            for n in self.mod.funcs:
                if self.mod.dem(n) == dem:
                    c = self.mod.funcs[n]
                    break
            else:
                raise Unsupported("no function " + dem)
            self.cbcache[dem] = c
        return c

    # ---------------- std::list< intrusive_ptr<leaf_state> >
    def leaf_intercept(self, cls, meth, rest, name):
        def loc(w, p):
            p = w.resolve(p)
            return (p.o, p.off)

        def f_ctor(e, ex, w, s, a):
            l = loc(w, a[0])
            ex.obj(w, s, l[0], True).ghost[l[1]] = LeafList("empty", (), 0)
            return ex.ret(w, s, None)

        def f_dtor(e, ex, w, s, a):
            l = loc(w, a[0])
            g = ex.leaf_list(w, s, l)
            o = ex.obj(w, s, l[0], True)
            return Op("destroy_state_list", [], "full", ("leaf_destroy", l))

        def f_begin(e, ex, w, s, a):
            return ex.ret(w, s, IT(loc(w, a[0]), 0))

        def f_end(e, ex, w, s, a):
            l = loc(w, a[0])
            return ex.ret(w, s, IT(l, ex.leaf_list(w, s, l).size))

        def f_size(e, ex, w, s, a):
            return ex.ret(w, s, ex.leaf_list(w, s, loc(w, a[0])).size)

        def f_empty(e, ex, w, s, a):
            g = ex.leaf_list(w, s, loc(w, a[0]))
            r = g.size == 0
            return ex.ret(w, s, r if is_sym(r) else int(r))

        def f_insert(e, ex, w, s, a):
            l = loc(w, a[0])
            g = ex.leaf_list(w, s, l)
            it = a[1]
            if not isinstance(it, IT) or it.loc != l:
                raise Unsupported("insert position")
            if not w.decide(term_eq(it.idx, g.size)):
                raise Unsupported("state list insertion in the middle")
            return leaf_push(e, ex, w, s, l, g, a[2])

        def leaf_push(e, ex, w, s, l, g, src, retit=True):
            idx = g.size
            nsz = z3.simplify(g.size + 1) if is_sym(g.size) else g.size + 1
            e.bump_end(w, s, l, idx, nsz)
            ex.obj(w, s, l[0], True).ghost[l[1]] = LeafList(g.base, g.upd + ((idx, NULL),), nsz)
            f = e.leafcopy()
            ex.push_fn(w, s, f, [CELL(l, idx), src], post=PostVal(IT(l, idx) if retit else None))
            return None

        def f_push_back(e, ex, w, s, a):
            l = loc(w, a[0])
            return leaf_push(e, ex, w, s, l, ex.leaf_list(w, s, l), a[1], False)

        if meth == "list" and rest.startswith("()"):
            return f_ctor
        return {"~list": f_dtor, "begin": f_begin, "cbegin": f_begin, "end": f_end, "cend": f_end, "size": f_size,
                "empty": f_empty, "insert": f_insert, "push_back": f_push_back}.get(meth)

    def bump_end(self, w, s, l, old, new):
        """past-the-end iterators stay past the end when a cell is appended"""
        todo = []
        for oid, ob in s.mem.items():
            for off, (v, sz) in ob.cells.items():
                if isinstance(v, IT) and v.loc == l and w.decide(term_eq(v.idx, old)):
                    todo.append((oid, off, sz))
        for f in s.frames:
            for r, v in (() if f.spec else f.regs.items()):
                if isinstance(v, IT) and v.loc == l and w.decide(term_eq(v.idx, old)):
                    todo.append((f, r, None))
        for o, k, sz in todo:
            if sz is None:
                o.regs[k] = IT(l, new)
            else:
                s.wr(o).cells[k] = (IT(l, new), sz)

    def leafcopy(self):
        """copy constructor of the state list's element type"""
        if not hasattr(self, "_leafcopy"):
            for n in self.mod.funcs:
                d = self.mod.dem(n)
                if re.match(r"boost::intrusive_ptr<boost::statechart::detail::leaf_state<[^()]*> ?>::intrusive_ptr\(boost::intrusive_ptr<[^()]* const&\)$", d):
                    self._leafcopy = self.mod.funcs[n]
                    break
            else:
                raise Unsupported("no copy constructor of the state list's elements")
        return self._leafcopy

    def leafit_intercept(self, cls, meth, rest, name):
        def it(ex, w, s, p):
            v = ex.load(w, s, p, 8)
            if not isinstance(v, IT):
                raise Unsupported("iterator value %r" % (v,))
            return v

        def f_deref(e, ex, w, s, a):
            v = it(ex, w, s, a[0])
            return ex.ret(w, s, CELL(v.loc, v.idx))

        def step(d):
            def f(e, ex, w, s, a):
                v = it(ex, w, s, a[0])
                n = v.idx + d
                nv = IT(v.loc, z3.simplify(n) if is_sym(n) else n)
                if "(int)" in rest:
                    ex.store(w, s, a[0], nv, 8)
                    return ex.ret(w, s, v)
                ex.store(w, s, a[0], nv, 8)
                return ex.ret(w, s, a[0])
            return f
        return {"operator*": f_deref, "operator->": f_deref, "operator++": step(1), "operator--": step(-1)}.get(meth)

    # ---------------- history maps
    def map_intercept(self, cls, meth, rest, name):
        def loc(w, p):
            p = w.resolve(p)
            return (p.o, p.off)

        def key(ex, w, s, p):
            p = w.resolve(p)
            t = ex.load(w, s, p, 8)
            r = ex.load(w, s, P(p.o, p.off + 8), 1)
            t = w.resolve(t) if isinstance(t, tuple) else t
            if isinstance(t, P) and t.o in s.mem and s.mem[t.o].kind == "stack":
                raise Unsupported("history key")
            if is_sym(r):
                raise Unsupported("symbolic history region")
            return (tuple(t) if isinstance(t, tuple) else t, r)

        def f_ctor(e, ex, w, s, a):
            l = loc(w, a[0])
            ex.obj(w, s, l[0], True).ghost[l[1]] = MapVal("empty")
            return ex.ret(w, s, None)

        def f_dtor(e, ex, w, s, a):
            l = loc(w, a[0])
            ex.obj(w, s, l[0], True).ghost.pop(l[1])
            return ex.ret(w, s, None)

        def f_clear(e, ex, w, s, a):
            l = loc(w, a[0])
            ex.obj(w, s, l[0], True).ghost[l[1]] = MapVal("empty")
            return ex.ret(w, s, None)

        def f_index(e, ex, w, s, a):
            l = loc(w, a[0])
            k = key(ex, w, s, a[1])
            r = e.map_get(ex, w, s, l, k)
            if r is None:
                r = e.map_set(ex, w, s, l, k, NULL)
            return ex.ret(w, s, P(r, 16))

        def f_find(e, ex, w, s, a):
            l = loc(w, a[0])
            r = e.map_get(ex, w, s, l, key(ex, w, s, a[1]))
            return ex.ret(w, s, P(r, 0) if r is not None else OP("mapend"))

        def f_end(e, ex, w, s, a):
            return ex.ret(w, s, OP("mapend"))

        def f_count(e, ex, w, s, a):
            r = e.map_get(ex, w, s, loc(w, a[0]), key(ex, w, s, a[1]))
            return ex.ret(w, s, int(r is not None))

        def f_minsert(e, ex, w, s, a):
            l = loc(w, a[0])
            if not re.match(r"^\(std::pair<[^()]*>( const&|&&|&)\)$", rest.replace("void (*)()", "fn")):
                raise Unsupported("map insertion")
            p = w.resolve(a[1])
            k = key(ex, w, s, p)
            r = e.map_get(ex, w, s, l, k)
            new = r is None
            if new:
                r = e.map_set(ex, w, s, l, k, ex.load(w, s, P(p.o, p.off + 16), 8))
            return ex.ret(w, s, Agg((None, (P(r, 0), int(new)))))

        def f_at(e, ex, w, s, a):
            r = e.map_get(ex, w, s, loc(w, a[0]), key(ex, w, s, a[1]))
            if r is None:
                raise Unsupported("map::at of an absent key")
            return ex.ret(w, s, P(r, 16))

        def f_emplace(e, ex, w, s, a):
            # emplace( key, value ), try_emplace, insert_or_assign: both arguments by reference
            if len(a) != 3:
                raise Unsupported("map " + meth)
            l = loc(w, a[0])
            k = key(ex, w, s, a[1])
            v = ex.load(w, s, w.resolve(a[2]), 8)
            r = e.map_get(ex, w, s, l, k)
            new = r is None
            if new:
                r = e.map_set(ex, w, s, l, k, v)
            elif meth == "insert_or_assign":
                ex.store(w, s, P(r, 16), v, 8)
            return ex.ret(w, s, Agg((None, (P(r, 0), int(new)))))

        def f_erase_it(e, ex, w, s, a):
            l = loc(w, a[0])
            it = w.resolve(a[1])
            g = ex.obj(w, s, l[0], True).ghost[l[1]]
            ks = [k for k, r in g.ent.items() if r is not None and isinstance(it, P) and it == P(r, 0)]
            if len(ks) != 1:
                raise Unsupported("map erase of an iterator that was not just found")
            n = MapVal(g.base, g.ent)
            n.ent[ks[0]] = None
            s.mem[l[0]].ghost[l[1]] = n
            return ex.ret(w, s, OP("mapnext"))

        def f_erase(e, ex, w, s, a):
            l = loc(w, a[0])
            if "history_key" not in rest.split("std::_Rb_tree")[0]:
                raise Unsupported("map erase")
            k = key(ex, w, s, a[1])
            r = e.map_get(ex, w, s, l, k)
            g = ex.obj(w, s, l[0], True).ghost[l[1]]
            n = MapVal(g.base, g.ent)
            n.ent[k] = None
            s.mem[l[0]].ghost[l[1]] = n
            return ex.ret(w, s, int(r is not None))
        if meth == "map" and rest.startswith("()"):
            return f_ctor
        return {"~map": f_dtor, "clear": f_clear, "operator[]": f_index, "find": f_find, "end": f_end,
                "count": f_count, "insert": f_minsert, "cend": f_end, "at": f_at, "emplace": f_emplace,
                "try_emplace": f_emplace, "insert_or_assign": f_emplace,
                "erase": f_erase_it if "iterator" in rest.split(")")[0] else f_erase}.get(meth)

    def map_get(self, ex, w, s, l, k):
        g = ex.obj(w, s, l[0]).ghost[l[1]]
        if k in g.ent:
            return g.ent[k]
        if g.base == "empty":
            return None
        kk = "hist:%s:%s" % (g.base, k)
        present = w.decide_key(kk, ("absent", "cleared", "stored"))
        if present == "absent":
            return None
        val = NULL if present == "cleared" else OP("?!fn:" + kk)
        return self.map_set(ex, w, s, l, k, val)

    def map_set(self, ex, w, s, l, k, val):
        oid = s.new_private("history entry", 24, "heap")
        s.mem[oid].cells[16] = (val, 8)
        g = ex.obj(w, s, l[0], True).ghost[l[1]]
        n = MapVal(g.base, g.ent)
        n.ent[k] = oid
        s.mem[l[0]].ghost[l[1]] = n
        return oid

    def map_val(self, w, s, g, k):
        """abstract value of an entry: 'absent' | pointer value"""
        if k in g.ent:
            return "absent" if g.ent[k] is None else w.norm(s.mem[g.ent[k]].cells[16][0])
        if g.base == "empty":
            return "absent"
        p = w.decide_key("hist:%s:%s" % (g.base, k), ("absent", "cleared", "stored"))
        return {"absent": "absent", "cleared": NULL}.get(p) or (OP("?!fn:hist:%s:%s" % (g.base, k)) if p == "stored" else NULL)

    def mapit_intercept(self, cls, meth, rest, name):
        def f_arrow(e, ex, w, s, a):
            v = ex.load(w, s, a[0], 8)
            if v == OP("mapend"):
                raise Violation("memory-safety", "dereference of end() of a history map")
            return ex.ret(w, s, v)
        return {"operator->": f_arrow, "operator*": f_arrow}.get(meth)

    # ------------------------------------------------------------ equality
    def same(self, w, a, b, sa=None, sb=None):
        """True iff pc implies a == b (values of the two sides)"""
        if a is b:
            return True
        if isinstance(a, tuple) and a and a[0] == "EVS":
            return self.ev_same(w, a[1], b[1])
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, Agg) or isinstance(b, Agg):
                return isinstance(a, Agg) and isinstance(b, Agg) and all(
                    self.same(w, x, y) for x, y in zip(a[1], b[1]))
            if not isinstance(a, tuple):
                a = NULL if a == 0 else a
            if not isinstance(b, tuple):
                b = NULL if b == 0 else b
            if not (isinstance(a, tuple) and isinstance(b, tuple)):
                return False
            if isinstance(a, Exc) or isinstance(b, Exc):
                return tuple(a) == tuple(b)
            if isinstance(a, IT) and isinstance(b, IT):
                if a.loc != b.loc:
                    return False
                t = term_eq(a.idx, b.idx)
                return w.valid(t) if is_sym(t) else t
            if isinstance(a, CELL) and isinstance(b, CELL):
                t = term_eq(a[2], b[2])
                return a[1] == b[1] and a[3] == b[3] and (w.valid(t) if is_sym(t) else t)
            if isinstance(a, P) and isinstance(b, P) and isinstance(a.o, tuple) and isinstance(b.o, tuple) and \
                    a.o[0] == "B" and b.o[0] == "S":
                return a.off == b.off and self.twins(w, a.o, b.o)
            return w.ptr_eq(a, b)
        if a is None or b is None:
            return a is b
        if is_sym(a) or is_sym(b):
            if (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
                A, B = bool_of(a), bool_of(b)
                A = A if is_sym(A) else z3.BoolVal(A)
                B = B if is_sym(B) else z3.BoolVal(B)
                return w.valid(A == B)
            return w.valid(a == b)
        return a == b

    def twins(self, w, x, y):
        """private objects created by each side: equal when their contents correspond"""
        if x in w.twin or y in w.twin:
            return w.twin.get(x) == y
        a, b = w.body.mem.get(x), w.spec.mem.get(y)
        if a is None or b is None or b.cls is None:
            return False
        w.twin[x] = y
        w.twin[y] = x
        for f, (off, kind) in self.classes[b.cls].fields.items():
            if off in b.cells and not self.same(w, a.cells.get(off, (UNDEF, 0))[0], b.cells[off][0]):
                del w.twin[x], w.twin[y]
                return False
        return True

    def ev_flat(self, w, items, s):
        """items of a queue with everything known about its parts filled in"""
        out = []
        for k, v in items:
            if k == "v":
                st = [v]
                while st:
                    x = st.pop()
                    r = w.res.get("seg:" + x)
                    if r == "empty":
                        continue
                    if r is None:
                        out.append(("v", x))
                    else:
                        out.append(("e", P(r[0], 0)))
                        st.append(r[1])
            else:
                out.append(("e", w.norm(s.mem[v].cells[0][0] if k == "n" else v)))
        return out

    def ev_same(self, w, a, b):
        norm = lambda items, s: self.ev_flat(w, items, s)
        x, y = norm(a, w.body), norm(b, w.spec)
        if len(x) != len(y):
            return False
        for (k1, v1), (k2, v2) in zip(x, y):
            if k1 != k2:
                return False
            if k1 == "v":
                if v1 != v2:
                    return False
            elif not self.same(w, v1, v2):
                return False
        return True

    def compare_state(self, w, level, where, skip=()):
        hid = self.hidden[level]
        cmpname = "frame/state equality (%s)" % where
        st = self.stats.obl.setdefault(cmpname, [0, 0])
        q0 = self.stats.queries
        for oid in w.shared:
            a, b = w.body.mem.get(oid), w.spec.mem.get(oid)
            if a is None or b is None or oid in skip:
                continue
            if a.alive != b.alive:
                raise Violation(cmpname, "object %s is %s in the code but %s in the contract" % (
                    a.name, "alive" if a.alive else "destroyed", "alive" if b.alive else "destroyed"))
            if not a.alive:
                continue
            if a is b:
                continue
            c = self.classes.get(a.cls)
            for off in sorted(set(a.cells) | set(b.cells)):
                nm = c.rev.get(off, "+%d" % off) if c else "+%d" % off
                if (a.cls, nm) in hid or ("*", nm) in hid:
                    continue
                va, vb = a.cells.get(off, (UNDEF, 0)), b.cells.get(off, (UNDEF, 0))
                if undef(va[0]) or undef(vb[0]):
                    if c and off in c.rev and not (undef(va[0]) and undef(vb[0])):
                        raise Violation(cmpname, "%s.%s: %s in code, %s in contract" % (a.name, nm, show(va[0]), show(vb[0])))
                    continue
                if not self.same(w, va[0], vb[0]):
                    raise Violation(cmpname, "%s.%s is %s in the code, %s in the contract" % (
                        a.name, nm, show(va[0]), show(vb[0])), self.model(w))
                st[0] += 1
            for off in sorted(set(a.ghost) | set(b.ghost)):
                nm = c.rev.get(off, "+%d" % off) if c else "+%d" % off
                if (a.cls, nm) in hid:
                    continue
                self.compare_ghost(w, a, b, off, nm, cmpname)
                st[0] += 1
        st[1] += self.stats.queries - q0

    def compare_ghost(self, w, a, b, off, nm, cmpname):
        ga, gb = a.ghost.get(off), b.ghost.get(off)
        if ga is gb:
            return
        bad = lambda m: Violation(cmpname, "%s.%s differs: %s" % (a.name, nm, m))
        if type(ga) is not type(gb):
            raise bad("%s / %s" % (ga, gb))
        if isinstance(ga, EvList):
            if not self.ev_same(w, ga, gb):
                raise bad("queue contents: code %s, contract %s" % (self.ev_show(w, w.body, ga), self.ev_show(w, w.spec, gb)))
        elif isinstance(ga, LeafList):
            if not self.same(w, ga.size, gb.size):
                raise bad("sizes")
            if ga.base != gb.base:
                raise bad("contents")
            end = self.list_end(w, a, off, ga)
            for t in [t for t, _ in ga.upd] + [t for t, _ in gb.upd]:
                if end is not None and not w.decide(t < end):
                    continue
                x = self.ex.leaf_read(w, w.body, (a.id, off), t)
                y = self.ex.leaf_read(w, w.spec, (a.id, off), t)
                if not self.same(w, x, y):
                    raise bad("cell %s: code %s, contract %s" % (t, show(x), show(y)))
        elif isinstance(ga, MapVal):
            for k in set(ga.ent) | set(gb.ent):
                x, y = self.map_val(w, w.body, ga, k), self.map_val(w, w.spec, gb, k)
                if x == "absent" or y == "absent":
                    # an absent entry and a cleared (null) entry behave identically
                    xx = NULL if x == "absent" else x
                    yy = NULL if y == "absent" else y
                    if not self.same(w, xx, yy):
                        raise bad("history entry %s: code %s, contract %s" % (k, x, y))
                elif not self.same(w, x, y):
                    raise bad("history entry %s: code %s, contract %s" % (k, show(x), show(y)))
            if ga.base != gb.base:
                raise bad("base contents %s / %s" % (ga.base, gb.base))

    def ev_show(self, w, s, g):
        return [(v if k == "v" else show(w.norm(s.mem[v].cells[0][0]))) for k, v in g]

    def list_end(self, w, ob, off, g):
        f = self.classes[ob.cls].fields.get("end")
        if f is None:
            return None
        v = w.body.mem[ob.id].cells.get(f[0])
        return v[0].idx if v and isinstance(v[0], IT) else None

    # ------------------------------------------------------------ exploration
    def run(self, w, label):
        """explore all paths of world w; returns list of violations"""
        stack = [w]
        viol = []
        t0 = time.time()
        while stack:
            if self.deadline and time.time() > self.deadline:
                viol.append(Violation("resources", "time limit reached: obligation undischarged"))
                break
            w = stack.pop()
            try:
                stack.extend(self.advance(w))
            except Fork as f:
                self.stats.forks += 1
                for alt in f.alts:
                    c = w.clone()
                    try:
                        self.apply_alt(c, alt)
                    except Prune:
                        continue
                    if alt[0] == "pc" and not c.feasible():
                        continue
                    stack.append(c)
            except Prune:
                pass
            except Violation as v:
                # a violation only counts on a feasible path
                if w.feasible():
                    v.trail = list(w.trail)
                    v.where = getattr(v, "where", None) or self.where(w)
                    viol.append(v)
                    if len(viol) >= 3:
                        break
            except Unsupported as u:
                if w.feasible():
                    v = Violation("verifier-reach", "undischarged, construct outside the verifier's reach: %s" % u)
                    v.undecided = True
                    v.trail = list(w.trail)
                    v.where = getattr(v, "where", None) or self.where(w)
                    viol.append(v)
                    if len(viol) >= 3:
                        break
            if self.stats.paths > self.maxpaths:
                viol.append(Violation("resources", "too many paths: obligation undischarged"))
                break
        return viol

    def where(self, w):
        out = []
        for s in (w.body, w.spec):
            loc = []
            for f in s.frames:
                if f.spec:
                    loc.append("spec %s@%d" % (f.code.name, f.pc))
                else:
                    loc.append("%s %s/%d" % (f.fn.dem[:160], f.blk, f.ix))
            out.append(" > ".join(loc[-6:]) + (" pending " + repr(s.pending) if s.pending else "") +
                       (" outcome %s" % (s.outcome,) if s.outcome else ""))
        return out

    def run_side(self, w, s):
        ex = self.ex
        n = 0
        while s.pending is None and s.outcome is None:
            n += 1
            self.steps += 1
            if n > 200000:
                raise Unsupported("execution does not terminate")
            if s.flying is not None:
                ex.throw(w, s, s.flying)
                continue
            if not s.frames:
                raise Unsupported("no frame")
            r = ex.step(w, s)
            if isinstance(r, Op):
                if r.name == "clear_events":
                    self.release_all(w, s, r)
                    ex.deliver(w, s, r.info[2] if len(r.info) > 2 else None)
                    continue
                s.pending = r

    def release_all(self, w, s, op):
        """every event in the list is released; the list becomes empty.  The order in which lists are emptied is left open: what
        was released is compared before the next observable action"""
        l = op.info[1]
        for k, p in self.ev_flat(w, s.mem[l[0]].ghost[l[1]], s):
            if k == "e" and isinstance(p, P) and p.o == 0:
                continue            # an empty element
            s.cleared += ((k, p),)
            if k == "v":
                continue
            if isinstance(p, P) and p.o in s.mem and "event" in self.classes:
                off, _ = self.fieldof("event", "count")
                ob = s.wr(p.o)
                c, sz = ob.cells[off]
                ob.cells[off] = (z3.simplify(c - 1) if is_sym(c) else c - 1, sz)
        s.wr(l[0]).ghost[l[1]] = EvList()

    def compare_released(self, w, where):
        a, b = w.body.cleared, w.spec.cleared
        if not a and not b:
            return
        st = self.stats.obl.setdefault("observable action clear_events", [0, 0])
        st[0] += 1
        self.stats.ops["clear_events"] = self.stats.ops.get("clear_events", 0) + 1
        self.stats.reached.add("clear_events -> done")
        w.trail.append("clear_events(%s)" % ", ".join(show(x[1]) for x in b))
        x, y = self.ev_flat(w, a, None), self.ev_flat(w, b, None)
        for k, v in x:
            for i, (k2, v2) in enumerate(y):
                if k == k2 and (v == v2 if k == "v" else self.same(w, v, v2)):
                    del y[i]
                    break
            else:
                raise Violation("observable action clear_events", "%s, before %s: the code releases the pending events %s, the contract %s" % (
                    "different pending events are released", where, show(a), show(b)), self.model(w))
        if y:
            raise Violation("observable action clear_events", "before %s: the code releases the pending events %s, the contract %s" % (
                where, show(a), show(b)), self.model(w))
        w.body.cleared = w.spec.cleared = ()

    steps = 0

    def advance(self, w):
        while True:
            self.run_side(w, w.body)
            self.run_side(w, w.spec)
            bo, so = w.body.outcome, w.spec.outcome
            bp, sp = w.body.pending, w.spec.pending
            self.compare_released(w, repr(sp) if sp is not None else "the end")
            if bo is not None and so is not None:
                self.finish(w)
                return []
            if bp is not None and sp is not None:
                return self.match(w)
            if bp is not None:
                raise Violation("observable action", "the code performs %r where the contract is finished (%s)" % (bp, so))
            raise Violation("observable action", "the code finishes (%s) where the contract requires %r" % (show_out(bo), sp))

    def finish(self, w):
        ob = "outcome"
        st = self.stats.obl.setdefault(ob, [0, 0])
        st[0] += 1
        b, s = w.body.outcome, w.spec.outcome
        if b[0] != s[0]:
            raise Violation(ob, "code %s, contract %s" % (show_out(b), show_out(s)))
        if b[0] == "ret":
            if not (s[1] is None) and not self.same(w, b[1], s[1]):
                raise Violation(ob, "return value %s in the code, %s in the contract" % (show(b[1]), show(s[1])), self.model(w))
        else:
            if not self.same(w, b[1], s[1]):
                raise Violation(ob, "exception %s in the code, %s in the contract" % (show(b[1]), show(s[1])))
        self.compare_state(w, "full", "at exit")
        if self.final_check:
            self.final_check(self, w)
        self.stats.paths += 1
        self.stats.reached.add(b[0])
        tag = "exit:" + b[0]
        for t in w.trail:
            if t.startswith("@"):
                self.stats.reached.add(t)

    final_check = None

    def match(self, w):
        b, s = w.body.pending, w.spec.pending
        ob = "observable action"
        st = self.stats.obl.setdefault(ob + " " + s.name, [0, 0])
        if b.name != s.name:
            raise Violation(ob, "the code performs %r where the contract requires %r" % (b, s))
        if len(b.args) != len(s.args):
            raise Violation(ob, "argument counts of %s: %d / %d" % (b.name, len(b.args), len(s.args)))
        q0 = self.stats.queries
        for i, (x, y) in enumerate(zip(b.args, s.args)):
            if not self.same(w, x, y):
                raise Violation(ob + " " + s.name, "argument %d is %s in the code, %s in the contract" % (i, show(x), show(y)), self.model(w))
        self.compare_state(w, s.obs, "before %s" % s.name,
                           [w.resolve(x).o for x in s.args[:1]] if s.name == "deallocate" else ())
        st[0] += 1
        st[1] += self.stats.queries - q0
        self.stats.ops[s.name] = self.stats.ops.get(s.name, 0) + 1
        # loop cut
        key = self.cutkey(w)
        if key is not None and self.loop is not None:
            self.sync(w, s.obs)
            if ("loop",) + key[:2] not in w.snap:
                out = []
                for g in self.loop(self, w, key):
                    out += self.act(g)
                return out
        if key is not None:
            self.sync(w, s.obs)
            n, snap = w.snap.get(key, (0, None))
            if n < self.unroll:
                w.snap[key] = (n + 1, None)
            elif snap is None:
                g = w.clone()
                w.snap[key] = (n + 1, g)
                self.check_inv(w)
            else:
                self.check_inv(w)
                changed = self.generalise(snap, w)
                if not changed:
                    self.stats.obl.setdefault("loop invariant is inductive", [0, 0])[0] += 1
                    return []
                self.assume_inv(w)
                w.snap[key] = (n + 1, None)
                g = w.clone()
                w.snap[key] = (n + 1, g)
                if n > 30:
                    raise Unsupported("loop invariant inference does not converge")
        return self.act(w)

    loop = None

    def act(self, w):
        """semantics of the action both sides are about to perform"""
        b, s = w.body.pending, w.spec.pending
        info = b.info
        if isinstance(info, tuple) and info and info[0] == "contract":
            alts = info[1].alts(self, w, s.args)
        elif s.name == "destroy_state_list":
            alts = [("done", leafdestroy_alt)]
        else:
            alts = self.ops[s.name].alts(self, w, s.args)
        out = []
        w.opno += 1
        for lab, fn in reversed(alts):
            c = w.clone()
            c.trail.append("%s -> %s" % (s, lab))
            self.stats.reached.add("%s -> %s" % (s.name, lab))
            try:
                r = fn(self, c, s.args)
            except Prune:
                continue
            for side in (c.body, c.spec):
                op = side.pending
                side.pending = None
                if r[0] == "throw":
                    side.flying = r[1]
                else:
                    v = r[1]
                    if callable(op.info):
                        v = op.info(self, c, side, v)
                    self.ex.deliver(c, side, v)
            out.append(c)
        return out

    # ------------------------------------------------------------ loop cuts
    def sync(self, w, level):
        """the shared state was just proved equal: use one representation for both sides"""
        hid = self.hidden[level]
        for oid in w.shared:
            a, b = w.body.mem.get(oid), w.spec.mem.get(oid)
            if a is None or b is None or a is b:
                continue
            c = self.classes.get(a.cls)
            n = w.spec.wr(oid)
            for off, v in a.cells.items():
                nm = c.rev.get(off, "+%d" % off) if c else "+%d" % off
                if (a.cls, nm) not in hid:
                    n.cells[off] = v
            for off, g in a.ghost.items():
                h = b.ghost.get(off)
                if isinstance(g, LeafList) and isinstance(h, LeafList) and g.base == h.base and \
                        len(g.upd) == len(h.upd) and all(self.same(w, x, y) for p, q in zip(g.upd, h.upd) for x, y in zip(p, q)):
                    n.ghost[off] = g
        for i, x in enumerate(w.body.pending.args):
            if not (isinstance(x, tuple) and x and x[0] == "EVS"):
                w.spec.pending.args[i] = x

    def cutkey(self, w):
        inl = False
        kb = []
        for f in w.body.frames:
            if f.spec:
                kb.append(("s", f.code.name, f.pc))
            else:
                kb.append((f.fn.name, f.blk, f.ix))
                if f.fn.inloop.get(f.blk):
                    inl = True
        if not inl:
            return None
        ks = tuple((f.code.name, f.pc) if f.spec else (f.fn.name, f.blk, f.ix) for f in w.spec.frames)
        return (tuple(kb), ks, self.mode_key(w))

    def mode_key(self, w):
        """abstract configuration: which of the machine's state pointers are null"""
        if getattr(self, "M", None) is None:
            return None
        o = w.spec.mem[self.M]
        k = []
        for f in ("outermost", "ous"):
            v = o.cells.get(self.fieldof("M", f)[0])
            v = w.norm(v[0]) if v is not None else None
            k.append(isinstance(v, P) and v.o == 0)
        return tuple(k)

    def inv_exprs(self, w):
        import ast
        out = []
        if not w.spec.frames:
            return out
        f = w.spec.frames[0]
        for src in self.loop_inv:
            if f.spec:
                out.append((src, f.ev(self.ex, w, w.spec, ast.parse(src, mode="eval").body)))
        return out

    def check_inv(self, w):
        for src, e in self.inv_exprs(w):
            self.obligation(w, "loop invariant: " + src, bool_of(e))

    def assume_inv(self, w):
        for src, e in self.inv_exprs(w):
            w.assume(bool_of(e))

    def generalise(self, A, B):
        """anti-unify snapshot A with current world B in place; True when B got more general"""
        groups = {}
        changed = [False]
        gsyms = A.gsyms
        newg = set(gsyms)
        byA = {}
        omap = {}
        todo = []
        ginv = A.ginv
        newinv, extra = {}, []

        def rep(v):
            if is_sym(v):
                return "z" + v.sexpr()
            if isinstance(v, (EvList,)):
                return None
            if isinstance(v, tuple):
                return repr(v)
            return repr(v)

        numbers, fixed, relate = [], {}, []

        def numeric(v):
            return is_sym(v) and not z3.is_bool(v) or isinstance(v, int) and not isinstance(v, bool)

        def distance(x, y):
            if not is_sym(x) and not is_sym(y):
                return x - y
            if is_sym(x) and is_sym(y) and x.sort() != y.sort():
                return None
            d = z3.simplify(x - y)
            if z3.is_bv_value(d):
                return d.as_signed_long()
            return d.as_long() if z3.is_int_value(d) else None

        def total(x, y):
            if not is_sym(x) and not is_sym(y):
                return x + y
            if is_sym(x) and is_sym(y) and x.sort() != y.sort():
                return None
            return z3.simplify(x + y)

        def fresh_like(va, vb, hint):
            if isinstance(va, (SP, P)) or isinstance(vb, (SP, P)):
                ca = {"null": False}
                # pointer: only supported when both are symbolic with the same candidates
                if isinstance(va, SP) and isinstance(vb, SP):
                    cA, cB = A.cands.get(va.name), B.cands.get(vb.name)
                    if cA is not None and cB is not None and va.off == vb.off:
                        nm = B.fresh("g")
                        B.cands[nm] = {"null": cA.get("null") or cB.get("null"), "opaque": cA.get("opaque"),
                                       "objs": tuple(cA.get("objs", ())), "lazyvt": cA.get("lazyvt") and cB.get("lazyvt")}
                        newg.add(repr(SP(nm, va.off)))
                        return SP(nm, va.off)
                raise Unsupported("loop generalisation of pointers %s / %s (%s)" % (show(va), show(vb), hint))
            if is_sym(va) or is_sym(vb) or isinstance(va, int):
                sv = va if is_sym(va) else vb
                if is_sym(sv):
                    if z3.is_bool(sv):
                        n = B.boolean("g")
                    elif z3.is_int(sv):
                        n = B.integer("g")
                    else:
                        n = B.bv("g", sv.size())
                else:
                    n = B.bv("g", 64) if hint != "int" else B.integer("g")
                newg.add(rep(n))
                return n
            if isinstance(va, OP) and isinstance(vb, OP):
                n = OP(B.fresh("?g"))
                newg.add(rep(n))
                return n
            raise Unsupported("loop generalisation of %r / %r (%s)" % (va, vb, hint))

        def gen(va, vb, hint):
            """generalised value for B"""
            if isinstance(va, tuple):
                va = A.norm(va)
            if isinstance(vb, tuple):
                vb = B.norm(vb)
            if isinstance(va, IT) and isinstance(vb, IT) and va.loc == vb.loc and isinstance(va.idx, EvAt) and isinstance(vb.idx, EvAt):
                if va.idx == vb.idx:
                    return vb
                if va.idx[0] != "stale":
                    changed[0] = True
                return IT(vb.loc, EvAt("stale"))    # a leftover of the previous iteration: must not be used
            if isinstance(va, IT) and isinstance(vb, IT) and va.loc == vb.loc:
                return IT(vb.loc, gen(va.idx, vb.idx, "int"))
            if isinstance(va, CELL) and isinstance(vb, CELL) and va[1] == vb[1]:
                return CELL(vb[1], gen(va[2], vb[2], "int"), vb[3])
            if isinstance(va, VT) and isinstance(vb, VT) and isinstance(va[1], SP) and isinstance(vb[1], SP):
                return VT(gen(va[1], vb[1], "vt"), vb[2])
            if isinstance(va, VF) and isinstance(vb, VF) and isinstance(va[1], SP) and isinstance(vb[1], SP):
                return VF(gen(va[1], vb[1], "vt"), vb[2])
            if isinstance(va, Agg) and isinstance(vb, Agg):
                return Agg((vb[0], tuple(gen(x, y, hint) for x, y in zip(va[1], vb[1]))))
            if isinstance(va, Exc) and isinstance(vb, Exc):
                if tuple(va) == tuple(vb):
                    return vb
                raise Unsupported("exception state across loop iterations")
            ra, rb = rep(va), rep(vb)
            if ra == rb:
                if z3.is_bv(vb) and vb.size() == 64:
                    fixed.setdefault(rb, vb)
                return vb
            if isinstance(va, P) and isinstance(vb, P) and va.o != 0 and vb.o != 0 and va.off == vb.off:
                # correspondence of objects (e.g. the event of the current iteration)
                if va.o in omap:
                    if omap[va.o] != vb.o:
                        raise Unsupported("loop generalisation: object aliasing")
                elif va.o in B.shared or va.o in A.shared or isinstance(va.o, tuple):
                    omap[va.o] = vb.o
                    todo.append((va.o, vb.o))
                return vb
            if isinstance(va, (int,)) and isinstance(vb, int) and hint == "dead":
                return UNDEF
            kind = "int" if hint == "int" else "bv"
            k = (ra, rb, kind)
            if hint == "spec" and (ra, rb, "int") in groups:
                return groups[(ra, rb, "int")]
            if k in groups:
                return groups[k]
            if numeric(va) and numeric(vb):
                # at a fixed distance from a value that is already an arbitrary one
                for va0, vb0, n0, kind0 in numbers:
                    d = distance(va, va0) if kind0 == kind else None
                    if d is not None and d == distance(vb, vb0):
                        n = z3.simplify(n0 + d)
                        groups[k] = n
                        newg.add(rep(n))
                        return n
                # one counts up while the other one counts down
                for va0, vb0, n0, kind0 in numbers:
                    t = total(va, va0) if kind0 == kind else None
                    if t is not None and rep(t) == rep(total(vb, vb0)):
                        n = z3.simplify(t - n0)
                        groups[k] = n
                        newg.add(rep(n))
                        return n
            old = ginv.get(ra)
            if not (ra in gsyms and byA.setdefault(ra, rb) == rb):
                changed[0] = True            # not an instance of a symbol that is already general
            n = fresh_like(va, vb, hint)
            groups[k] = n
            if is_sym(n) and not z3.is_bool(n) and numeric(va) and numeric(vb):
                numbers.append((va, vb, n, kind))
            if is_sym(n) and not z3.is_bool(n):
                # candidate bounds (kept while inductive)
                keep = []
                relate.append((va, vb, n, old))
                old = old if old is None else [x for x in old if isinstance(x, str)]
                for nm in old if old is not None else sorted(CANDS):
                    p = CANDS[nm]
                    if (old is not None or A.valid(self.tobool(p(self, A, va, n)))) and B.valid(self.tobool(p(self, B, vb, n))):
                        keep.append(nm)
                if old is not None and len(keep) != len(old):
                    changed[0] = True
                newinv[rep(n)] = keep
                extra.extend((nm, n) for nm in keep)
            return n

        def gen_ev(ga, gb):
            na, nb = self.ev_norm(A, A_side, ga), self.ev_norm(B, B_side, gb)
            if na == nb:
                return gb
            k = ("EV", repr(na), repr(nb))
            if k in groups:
                return groups[k]
            general = bool(na) and na[-1][0] == "v" and "EV" + na[-1][1] in gsyms
            # common prefix stays, the rest becomes an arbitrary tail
            lim = len(na) - 1 if general else len(na)
            n = 0
            while n < lim and n < len(nb) and na[n] == nb[n] and na[n][0] == "v":
                n += 1
            rb_ = repr(nb[n:])
            if not (general and n == lim and byA.setdefault("EVb" + repr(na), rb_) == rb_):
                changed[0] = True
            nm = B.fresh("gq")
            newg.add("EV" + nm)
            groups[k] = EvList([("v", x[1]) for x in nb[:n]] + [("v", nm)])
            return groups[k]

        def mapnorm(w, s, g):
            return repr((g.base, sorted((repr(k), repr(None if v is None else w.norm(s.mem[v].cells[16][0])))
                                        for k, v in g.ent.items())))

        def gen_map(ga, gb):
            na, nb = mapnorm(A, A_side, ga), mapnorm(B, B_side, gb)
            if na == nb:
                return gb
            k = ("MAP", na, nb)
            if k not in groups:
                if not (not ga.ent and "MAP" + ga.base in gsyms and byA.setdefault("MAP" + ga.base, nb) == nb):
                    changed[0] = True
                nm = B.fresh("gm")
                newg.add("MAP" + nm)
                groups[k] = nm
            return MapVal(groups[k])
        self.gen_map = gen_map

        def gen_base(ga, key):
            k = ("LL",) + key
            if k not in groups:
                if not (not ga.upd and "LL" + ga.base in gsyms and byA.setdefault("LL" + ga.base, key[1]) == key[1]):
                    changed[0] = True
                nm = B.fresh("gl")
                newg.add("LL" + nm)
                groups[k] = nm
            return groups[k]
        self.gen_base = gen_base

        sides = ((A.body, B.body), (A.spec, B.spec))
        for A_side, B_side in sides:
            # private objects, frames, pending arguments
            for oid in sorted((o for o in B_side.mem if isinstance(o, tuple)), key=repr):
                if oid in A_side.mem and A_side.mem[oid] is not B_side.mem[oid]:
                    self.gen_obj(gen, gen_ev, A_side, B_side, oid, oid)
            for fa, fb in zip(A_side.frames, B_side.frames):
                if fa.spec:
                    for k in list(fb.loc):
                        if k in fa.loc:
                            fb.loc[k] = gen(fa.loc[k], fb.loc[k], "spec")
                        else:
                            del fb.loc[k]
                else:
                    live = self.live_regs(fb)
                    for k in list(fb.regs):
                        if k not in live:
                            del fb.regs[k]
                        elif k in fa.regs:
                            fb.regs[k] = gen(fa.regs[k], fb.regs[k], k)
            pa, pb = A_side.pending, B_side.pending
            B_side.pending = Op(pb.name, [gen(x, y, "spec") for x, y in zip(pa.args, pb.args)], pb.obs, pb.info)
        dropped = lambda o: omap.get(o, o) != o
        for oid in B.shared:
            if oid in A.shared and not dropped(oid):
                for A_side, B_side in sides:
                    if oid in A_side.mem and oid in B_side.mem and A_side.mem[oid] is not B_side.mem[oid]:
                        self.gen_obj(gen, gen_ev, A_side, B_side, oid, oid)
        seen = set()
        while todo:
            oa, obid = todo.pop()
            if (oa, obid) in seen or oa == obid:
                continue
            seen.add((oa, obid))
            for A_side, B_side in sides:
                if oa in A_side.mem and obid in B_side.mem:
                    self.gen_obj(gen, gen_ev, A_side, B_side, oa, obid)
        # bounds by a value that does not change in the loop (kept while inductive)
        for va, vb, n, old in relate:
            if not z3.is_bv(n) or n.size() != 64:
                continue
            for r, c in fixed.items():
                for nm, p in RELATIONS:
                    k = (nm, r)
                    if old is not None and k not in old:
                        continue
                    if (old is not None or A.valid(p(va, c))) and B.valid(p(vb, c)):
                        newinv[rep(n)].append(k)
                        B.assume(p(n, c))
                    elif old is not None:
                        changed[0] = True
        # objects of B that no longer matter: checked equal, then dropped
        B.gsyms = newg
        B.ginv = newinv
        for nm, n in extra:
            B.assume(self.tobool(CANDS[nm](self, B, n, n)))
        keep = set(omap.values()) | set(self.rootids)
        for oid in list(B.shared):
            if oid not in keep and oid not in A.shared or (oid in omap and omap[oid] != oid):
                a, b = B.body.mem.get(oid), B.spec.mem.get(oid)
                if a is not None and b is not None:
                    if a.alive != b.alive:
                        raise Violation("frame", "object %s" % a.name)
                B.body.mem.pop(oid, None)
                B.spec.mem.pop(oid, None)
                B.shared.remove(oid)
        return changed[0]

    def gen_obj(self, gen, gen_ev, A_side, B_side, oa, obid):
        a, b = A_side.mem[oa], B_side.mem[obid]
        if a.alive != b.alive:
            raise Unsupported("object lifetime changes in loop: " + b.name)
        new = b.copy()
        ch = False
        for off, (v, sz) in list(b.cells.items()):
            va = a.cells.get(off)
            if va is None:
                if b.kind == "stack":
                    del new.cells[off]
                    ch = True
                continue
            n = gen(va[0], v, "%s+%d" % (b.name, off))
            if n is not v:
                new.cells[off] = (n, sz)
                ch = True
        for off, g in list(b.ghost.items()):
            ga = a.ghost.get(off)
            if ga is g:
                continue
            if isinstance(g, EvList):
                new.ghost[off] = gen_ev(ga, g)
                ch = True
            elif isinstance(g, LeafList):
                if ga.base != g.base or len(ga.upd) != len(g.upd):
                    k = (repr((ga.base, [(str(t), repr(v)) for t, v in ga.upd])), repr((g.base, [(str(t), repr(v)) for t, v in g.upd])))
                    new.ghost[off] = LeafList(self.gen_base(ga, k), (), gen(ga.size, g.size, "int"))
                    ch = True
                    continue
                new.ghost[off] = LeafList(g.base, tuple((gen(t1, t2, "int"), gen(v1, v2, "cell")) for (t1, v1), (t2, v2) in zip(ga.upd, g.upd)), gen(ga.size, g.size, "int"))
                ch = True
            elif isinstance(g, MapVal):
                new.ghost[off] = self.gen_map(ga, g)
                ch = True
        if ch:
            B_side.mem[obid] = new
            B_side.own.add(obid)

    def ev_norm(self, w, s, items):
        out = []
        for k, v in items:
            if k == "v":
                st = [v]
                while st:
                    x = st.pop()
                    r = w.res.get("seg:" + x)
                    if r == "empty":
                        continue
                    if r is None:
                        out.append(("v", x))
                    else:
                        out.append(("e", repr(P(r[0], 0))))
                        st.append(r[1])
            else:
                out.append(("e", repr(w.norm(s.mem[v].cells[0][0]))))
        return out

    def live_regs(self, f):
        """registers read in blocks reachable from the current position before being redefined"""
        key = (f.fn.name, f.blk, f.ix)
        c = self.cbcache.get(key)
        if c is not None:
            return c
        fn = f.fn
        use, dfn, succ = {}, {}, {}

        def uses(ins):
            return set(re.findall(r'%(?:"[^"]*"|[-\w$.]+)', ins.text.split(" = ", 1)[-1]))
        for b in fn.order:
            u, d = set(), set()
            for ins in fn.blocks[b]:
                u |= {x for x in uses(ins) if x not in d}
                if ins.dst:
                    d.add(ins.dst)
            use[b], dfn[b] = u, d
            last = fn.blocks[b][-1]
            succ[b] = list(last.x) if last.op == "br" else ([last.x[0]] + [l for _, l in last.x[1]]) if last.op == "switch" else list(last.x["labels"]) if last.op == "invoke" else []
        live = {b: set() for b in fn.order}
        chg = True
        while chg:
            chg = False
            for b in reversed(fn.order):
                o = set()
                for x in succ[b]:
                    o |= live[x]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    chg = True
        o = set()
        for x in succ[f.blk]:
            o |= live[x]
        r = o
        for ins in reversed(fn.blocks[f.blk][f.ix + 1:]):
            if ins.dst:
                r = r - {ins.dst}
            r = r | uses(ins)
        cur = fn.blocks[f.blk][f.ix]
        if cur.dst:
            r = r - {cur.dst}
        self.cbcache[key] = r
        return r

    rootids = ()
    dyn = {}
    real_types = False

    def type_bases(self, ti):
        """direct base classes of a type_info: [(type_info symbol, offset)]"""
        g = self.mod.global_init(ti)
        if g is None or g[1] is None or g[1][0] != "agg":
            return []
        el = [v for _, v in g[1][1]]
        nm = str(el[0])
        sym = lambda v: v[1] if v[0] == "glob" else (v[2][0][1][1] if v[0] == "cgep" else None)
        if "__si_class" in nm:
            return [(sym(el[2]), 0)]
        if "__vmi_class" in nm:
            rest = el[4:]
            return [(sym(rest[i]), (rest[i + 1][1] if rest[i + 1][1] < 1 << 63 else rest[i + 1][1] - (1 << 64)) >> 8)
                    for i in range(0, len(rest), 2)]
        return []

    def type_offsets(self, ti, target):
        out = [0] if ti == target else []
        for b, off in self.type_bases(ti):
            out += [off + x for x in self.type_offsets(b, target)]
        return out

    def dyn_type(self, ex, w, s, p):
        """(type_info symbol, offset of p in the complete object) read from the vtable pointer"""
        v = ex.load(w, s, p, 8)
        v = w.norm(v) if isinstance(v, tuple) else v
        if isinstance(v, VT):
            return self.typeinfo_of(w, v[1]), 0
        if not (isinstance(v, P) and isinstance(v.o, tuple) and v.o[0] == "G" and v.o[1].startswith("_ZTV")):
            return None
        row0 = 0
        for row in self.mod.vtable(v.o[1]):
            n = 8 * len(row)
            if row0 < v.off <= row0 + n:
                k = (v.off - row0) // 8
                top = row[k - 2]
                t = 0 if top[0] in ("null", "zero") else (top[1] if top[0] == "int" else
                    -1 if top[0] != "ccast" else int(str(top[3][1])))
                if t >= 1 << 63:
                    t -= 1 << 64
                ti = row[k - 1]
                return (ti[1] if ti[0] == "glob" else None), t
            row0 += n
        return None

    def real_dynamic_cast(self, ex, w, s, p, dst):
        if dst == "void":
            return None
        r = self.dyn_type(ex, w, s, p)
        if r is None or r[0] is None:
            return None
        offs = set(self.type_offsets(r[0], dst))
        if len(offs) > 1:
            raise Unsupported("ambiguous dynamic_cast")
        return P(p.o, p.off + r[1] + offs.pop()) if offs else NULL


def _cand(k):
    def f(e, w, v, like):
        if is_sym(like) and z3.is_int(like):
            if is_sym(v) and not z3.is_int(v):
                return False
            v = v if is_sym(v) else z3.IntVal(v)
        else:
            if is_sym(v) and not z3.is_bv(v):
                return False
            v = v if is_sym(v) else z3.BitVecVal(v, like.size())
        return k(e, w, v)
    return f


def _le_end(e, w, v, strict=False):
    """index within the current part of the machine's state list"""
    if not z3.is_int(v) or getattr(e, "M", None) is None:
        return False
    end = w.body.mem[e.M].cells.get(e.fieldof("M", "end")[0])
    if end is None or not isinstance(end[0], IT):
        return False
    return v < end[0].idx if strict else v <= end[0].idx


def _ge_end(e, w, v):
    if not z3.is_int(v) or getattr(e, "M", None) is None:
        return False
    end = w.body.mem[e.M].cells.get(e.fieldof("M", "end")[0])
    return v >= end[0].idx if end is not None and isinstance(end[0], IT) else False


CANDS = {">=0": _cand(lambda e, w, v: v >= 0), ">=1": _cand(lambda e, w, v: v >= 1),
         ">=end": _cand(_ge_end), "<=max": _cand(lambda e, w, v: v <= e.maxcount), "<=end": _cand(_le_end),
         "<end": _cand(lambda e, w, v: _le_end(e, w, v, True))}


def _bv(v):
    return v if is_sym(v) else z3.BitVecVal(v, 64)


RELATIONS = (("<=", lambda v, c: z3.ULE(_bv(v), c)), ("<= unless 0", lambda v, c: z3.Or(c == 0, z3.ULE(_bv(v), c))),
             ("<", lambda v, c: z3.ULT(_bv(v), c)), ("< unless 0", lambda v, c: z3.Or(c == 0, z3.ULT(_bv(v), c))))


class PostVal:
    def __init__(self, v):
        self.v = v

    def __call__(self, ex, w, s, val):
        return self.v


def show_out(o):
    if o is None:
        return "None"
    return "%s %s" % (o[0], show(o[1]))


def leafdestroy_alt(e, w, args):
    for side in (w.body, w.spec):
        l = side.pending.info[1]
        side.wr(l[0]).ghost.pop(l[1], None)
    return ("ret", None)


PUSHED = object()

# ---------------------------------------------------------------- runtime library
RUNTIME = {}
RUNTIME_DEM = {}


def runtime(*names):
    def d(f):
        for n in names:
            RUNTIME[n] = f
        return f
    return d


@runtime("__cxa_begin_catch")
def _bc(e, ex, w, s, a):
    if not isinstance(a[0], Exc):
        raise Unsupported("begin_catch of %r" % (a[0],))
    s.caught.append(a[0])
    return ex.ret(w, s, a[0])


@runtime("__cxa_end_catch")
def _ec(e, ex, w, s, a):
    if not s.caught:
        raise Violation("exception-state", "end_catch without active exception")
    s.caught.pop()
    return ex.ret(w, s, None)


@runtime("__cxa_rethrow")
def _rt(e, ex, w, s, a):
    if not s.caught:
        raise Violation("exception-state", "rethrow without active exception (std::terminate)")
    s.flying = s.caught[-1]
    return None


@runtime("__cxa_allocate_exception")
def _ae(e, ex, w, s, a):
    oid = s.new_private("exception object", a[0], "heap")
    return ex.ret(w, s, P(oid, 0))


@runtime("__cxa_free_exception")
def _fe(e, ex, w, s, a):
    return ex.ret(w, s, None)


@runtime("__cxa_throw")
def _th(e, ex, w, s, a):
    ti = a[1]
    nm = ti.o[1] if isinstance(ti, P) else str(ti)
    s.flying = Exc("thrown " + nm, nm)
    return None


@runtime("__cxa_bad_cast")
def _cbc(e, ex, w, s, a):
    s.flying = Exc("thrown _ZTISt8bad_cast", "_ZTISt8bad_cast")
    return None


@runtime("_ZNKSt9type_infoeqERKS_")
def _tieq(e, ex, w, s, a):
    """type_info objects are unique per type"""
    return ex.ret(w, s, int(w.ptr_eq(a[0], a[1])))


@runtime("_ZNSt8bad_castC1Ev", "_ZNSt8bad_castC2Ev", "_ZNSt9exceptionC2Ev")
def _bcc(e, ex, w, s, a):
    return ex.ret(w, s, None)


@runtime("__assert_fail")
def _af(e, ex, w, s, a):
    txt = "assertion"
    try:
        g = e.mod.global_init(a[0].o[1])
        txt = g[1][1]
    except Exception:
        pass
    raise Violation("BOOST_ASSERT", "assertion can fail: %s" % txt)


@runtime("__clang_call_terminate", "_ZSt9terminatev", "abort", "__cxa_pure_virtual")
def _ct(e, ex, w, s, a):
    raise Violation("no-terminate", "std::terminate/abort reached")


@runtime("__dynamic_cast")
def _dc(e, ex, w, s, a):
    dst = a[2].o[1] if isinstance(a[2], P) else str(a[2])
    p = w.norm(a[0])
    if isinstance(p, SP):
        c = w.cands.get(p.name, {})
        if not (c.get("lazyvt") and not c.get("null")):
            p = w.resolve(p)
    if isinstance(p, P):
        if p.o == 0:
            return ex.ret(w, s, NULL)
        ob = ex.obj(w, s, p.o)
        if e.real_types:
            r = e.real_dynamic_cast(ex, w, s, p, dst)
            if r is not None:
                return ex.ret(w, s, r)
        k = (ob.cls, dst)
        if k in e.dyn:
            return ex.ret(w, s, P(p.o, p.off + e.dyn[k]))
    if "dynamic_cast" not in e.ops:
        raise Unsupported("dynamic_cast to " + dst)
    return Op("dynamic_cast", [p, OP(dst)], e.ops["dynamic_cast"].obs)


def template_args(cls):
    """top level template arguments of a class name"""
    i = cls.find("<")
    out, d, j = [], 0, i + 1
    for k in range(i + 1, len(cls)):
        c = cls[k]
        if c in "<(":
            d += 1
        elif c in ")>" and cls[k - 1] != "-":
            if d == 0:
                out.append(cls[j:k].strip())
                break
            d -= 1
        elif c == "," and d == 0:
            out.append(cls[j:k].strip())
            j = k + 1
    return out


def plain_container(cls):
    """iterators know nothing of allocators"""
    return "terator<" in cls.split("<")[0] + "<"


def own_allocator(cls):
    a = template_args(cls)
    return bool(a) and a[-1].startswith("vca::alloc<")


def wrong_allocator(cls):
    def h(e, ex, w, s, a):
        raise Violation("memory comes from the user's allocator", "a container of the library does not use it: %s" % cls)
    return h


def allocator_intercept(e, name, dem, cls, meth, rest):
    """vca::alloc<T>::allocate( n ), deallocate( p, n )"""
    T = template_args(cls)[0]
    if meth == "allocate":
        return lambda e, ex, w, s, a: Op("allocate", [OP("%s %s" % (a[1] if isinstance(a[1], int) else "?", T))], e.ops["allocate"].obs)
    if meth == "deallocate":
        def h(e, ex, w, s, a):
            p = w.resolve(a[1])
            e.stats.obl.setdefault("memory goes back to the user's allocator", [0, 0])[0] += 1
            got = s.mem[p.o].cls if isinstance(p, P) and p.o in s.mem else None
            if got is None or got[:2] not in ("S:", "E:") or got[2:] != T or a[2] != 1:
                raise Violation("memory goes back to the user's allocator", "memory of %s is returned as memory of %s %s" % (got, show(a[2]), T))
            return Op("deallocate", [p], e.ops["deallocate"].obs)
        return h
    return None


@runtime("_Znwm")
def _new(e, ex, w, s, a):
    if "allocate" in e.ops:
        return Op("allocate", [a[0]], e.ops["allocate"].obs)
    if is_sym(a[0]):
        raise Unsupported("allocation of symbolic size")
    return ex.ret(w, s, P(s.new_private("heap block", a[0], "heap"), 0))


@runtime("_ZdlPv", "_ZdlPvm")
def _del(e, ex, w, s, a):
    p = w.resolve(a[0])
    if "deallocate" in e.ops:
        if e.allocator and isinstance(p, P) and p.o in s.mem and s.mem[p.o].cls and s.mem[p.o].cls[:2] in ("S:", "E:"):
            raise Violation("memory goes back to the user's allocator", "memory of %s is returned elsewhere" % s.mem[p.o].cls)
        return Op("deallocate", [a[0]], e.ops["deallocate"].obs)
    if isinstance(p, P) and p.o != 0:
        ex.obj(w, s, p.o, True).alive = False
    return ex.ret(w, s, None)


@runtime("__cxa_guard_acquire")
def _ga(e, ex, w, s, a):
    return ex.ret(w, s, 0)
