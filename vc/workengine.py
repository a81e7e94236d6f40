"""Engine extension for code that queues and runs function objects under a lock.

A boost::function0<void> is one cell: null, or the identity of a work item.  Items are arbitrary code.  A
function object built by the library itself is an item too; at the point where it is built the real call operator of the
functor is proved to do what the contract of the item it stands for says.

Lock discipline is checked on the real code as it executes: every access to the queue happens with the worker's
mutex held, each operation touches the queue in a single critical section, user code and the end of an operation are reached with the
mutex released, a waiting thread waits on the right condition and every pushed item is followed by a notification."""
import re, z3
from core import *
from exec import Op, Exc, bool_of, show
from spec import SpecFrame, pure, effect
from engine import Engine, split_method, RUNTIME
import engine as E

ITEMS = re.compile(r"^std::(__cxx11::)?list<boost::function0<void>")
ITEMIT = re.compile(r"^std::_List_(const_)?iterator<boost::function0<void>")
FUN = re.compile(r"^boost::(function0<void>|function_base|function<void ?\(\)>)$")


@pure
def u64(ex, w, s, f, v):
    return v


@pure
def under(ex, w, s, f, a, b):
    """unsigned comparison"""
    if not is_sym(a) and not is_sym(b):
        return int(a < b)
    return z3.ULT(a if is_sym(a) else z3.BitVecVal(a, 64), b if is_sym(b) else z3.BitVecVal(b, 64))


HELD, TOUCHED, STALE, NOTIFIED, PENDING = 0, 8, 16, 24, 32


class WorkerEngine(Engine):
    threads = False
    worker = "W"            # class that owns the queue
    lock_fields = ("mutex", "cond")

    def apply_alt(self, w, alt):
        if alt[0] == "cons":
            w.ctr += 1
            oid = self.make_opaque(w, alt[2] + ".head", "item")
            w.res[alt[1]] = (oid, w.fresh(alt[2] + ".tail"))
            self.tie_len(w, alt[2])
        else:
            Engine.apply_alt(self, w, alt)

    # ------------------------------------------------------------ ghost lock
    def new_lock(self, w):
        self.lock = w.body.new_private("ghost lock", 40, "ghost")
        for k in (HELD, TOUCHED, STALE, NOTIFIED, PENDING):
            w.body.mem[self.lock].cells[k] = (0, 8)

    def lk(self, w, k, v=None):
        if v is None:
            return w.body.mem[self.lock].cells[k][0]
        w.body.wr(self.lock).cells[k] = (v, 8)

    def count(self, name):
        self.stats.obl.setdefault("lock discipline: " + name, [0, 0])[0] += 1

    def bad(self, msg):
        raise Violation("lock discipline", msg)

    def member(self, f):
        return P(self.W, self.woff + self.classes[self.worker].fields[f][0])

    def is_queue(self, l):
        q = self.member("queue")
        return l == (q.o, q.off)

    def touch(self, w, s, l):
        """an access to the list at l by the real code"""
        if s is not w.body or not self.threads or self.exclusive or not self.is_queue(l):
            return
        self.count("queue accessed with the lock held")
        if not self.lk(w, HELD):
            self.bad("the queue is accessed without the lock")
        self.lk(w, TOUCHED, 1)

    def element(self, w, s, p):
        """an access to the work item at p by the real code"""
        if s is not w.body or not self.threads or self.exclusive:
            return
        q = self.member("queue")
        o = s.mem.get(q.o)
        if o is not None and ("n", p.o) in list(o.ghost.get(q.off, ())):
            self.count("element of the queue accessed with the lock held")
            if not self.lk(w, HELD):
                self.bad("an element of the queue is accessed without the lock")

    def mode_key(self, w):
        """whether an argument of the operation is known to be zero or nonzero"""
        f = w.spec.frames[0] if w.spec.frames else None
        v = f.loc.get("limit") if f is not None and f.spec else None
        if v is None or not is_sym(v):
            return None
        return 0 if w.valid(v == 0) else 1 if w.valid(v != 0) else 2

    in_lemma = False
    exclusive = False       # object under construction or destruction: no other thread has access

    def interference(self, w, s, key="queue"):
        """other threads may queue further items"""
        q = self.member("queue")
        s.wr(q.o).ghost[q.off] = E.EvList(list(s.mem[q.o].ghost[q.off]) + [("v", w.fresh("others"))])

    def idle(self, w, what):
        if self.threads:
            self.count("released before " + what)
            if self.lk(w, HELD):
                self.bad("the lock is still held at " + what)
            if self.lk(w, PENDING):
                self.bad("an item was queued but no waiting thread is notified before " + what)
            self.lk(w, STALE, 0)

    def f_lock(self, e, ex, w, s, a):
        if w.resolve(a[0]) != self.member("mutex"):
            raise Unsupported("another mutex")
        self.count("lock acquired when free")
        if self.lk(w, HELD):
            self.bad("the lock is acquired twice")
        if self.lk(w, STALE):
            self.interference(w, s)        # another critical section: other threads ran in between
        for k, v in ((HELD, 1), (TOUCHED, 0), (NOTIFIED, 0), (STALE, 0)):
            self.lk(w, k, v)
        return ex.ret(w, s, None)

    def f_unlock(self, e, ex, w, s, a):
        if w.resolve(a[0]) != self.member("mutex"):
            raise Unsupported("another mutex")
        self.count("lock released when held")
        if not self.lk(w, HELD):
            self.bad("the lock is released but not held")
        self.lk(w, HELD, 0)
        self.lk(w, NOTIFIED, 0)
        self.lk(w, STALE, self.lk(w, TOUCHED))
        return ex.ret(w, s, None)

    def f_notify(self, e, ex, w, s, a):
        if w.resolve(a[0]) != self.member("cond"):
            raise Unsupported("another condition")
        self.lk(w, PENDING, 0)
        self.lk(w, NOTIFIED, self.lk(w, HELD))
        return ex.ret(w, s, None)

    def f_wait(self, e, ex, w, s, a):
        if w.resolve(a[0]) != self.member("cond"):
            raise Unsupported("another condition")
        self.count("wait with the lock held")
        p = w.resolve(a[1])
        m, owns = ex.load(w, s, p, 8), ex.load(w, s, P(p.o, p.off + 8), 1)
        if w.resolve(m) != self.member("mutex") or owns != 1 or not self.lk(w, HELD):
            self.bad("waiting without holding the worker's lock")
        if self.lk(w, PENDING):
            self.bad("waiting after queueing an item that nobody is told about")
        return Op("wait", [], "full")

    # ------------------------------------------------------------ intercepts
    def find_intercept(self, name):
        if name in self.intercepts:
            return self.intercepts[name]
        dem = self.mod.dem(name)
        cls, meth, rest = split_method(dem)
        h = None
        if cls is not None:
            if ITEMS.match(cls):
                h = self.guarded(self.ev_intercept(cls, meth, rest, name), meth, rest)
            elif ITEMIT.match(cls) and meth.startswith("operator") and meth != "operator=":
                h = self.evit_intercept(cls, meth, rest, name) or E.unmodelled(cls, meth)
            elif FUN.match(cls):
                h = self.fun_intercept(cls, meth, rest, dem, name)
            elif cls == "boost::mutex":
                h = {"lock": self.f_lock, "unlock": self.f_unlock, "mutex": nop, "~mutex": nop}.get(meth)
            elif cls == "boost::condition_variable_any":
                h = {"notify_one": self.f_notify, "notify_all": self.f_notify, "condition_variable_any": nop,
                     "~condition_variable_any": nop}.get(meth)
                if meth == "wait" and rest.startswith("(boost::unique_lock<boost::mutex>&)"):
                    h = self.f_wait
        if h is None:
            return Engine.find_intercept(self, name)
        self.intercepts[name] = h
        return h

    def guarded(self, h, meth, rest):
        if h is None and meth == "emplace_back":
            def h(e, ex, w, s, a):
                p = w.resolve(a[0])
                if len(a) > 1:
                    raise Unsupported("emplace_back")
                node = s.new_private("queue node", 8, "heap")
                s.mem[node].cells[0] = (NULL, 8)
                o = ex.obj(w, s, p.o, True)
                o.ghost[p.off] = E.EvList(list(o.ghost[p.off]) + [("n", node)])
                return ex.ret(w, s, P(node, 0))
        if h is None and meth == "list" and rest.startswith("(unsigned long,"):
            def h(e, ex, w, s, a):
                if not isinstance(a[1], int) or a[1] > 8:
                    raise Unsupported("list of several work items")
                p = w.resolve(a[0])
                nodes = [s.new_private("queue node", 8, "heap") for _ in range(a[1])]
                for n in nodes:
                    s.mem[n].cells[0] = (NULL, 8)
                ex.obj(w, s, p.o, True).ghost[p.off] = E.EvList(("n", n) for n in nodes)
                return ex.ret(w, s, None)
        if h is None:
            h = E.unmodelled("std::list<work_item>", meth)

        def f(e, ex, w, s, a):
            p = w.resolve(a[0])
            self.touch(w, s, (p.o, p.off))
            if meth in ("swap", "splice"):
                q = w.resolve(a[1 if meth == "swap" else 2])
                self.touch(w, s, (q.o, q.off))
            if (meth.startswith(("push", "emplace")) or meth in ("insert", "splice")) and s is w.body and self.is_queue((p.o, p.off)) and self.threads:
                self.lk(w, PENDING, int(not self.lk(w, NOTIFIED)))
            return h(e, ex, w, s, a)
        return f

    # list elements: one cell
    def fill_fn(self, move):
        return None

    def destroy_fn(self):
        return None

    def fun_intercept(self, cls, meth, rest, dem, name):
        def get(ex, w, s, p):
            self.element(w, s, w.resolve(p))
            v = ex.load(w, s, p, 8)
            return NULL if not isinstance(v, tuple) and v == 0 else w.norm(v)

        def f_empty(e, ex, w, s, a):
            return ex.ret(w, s, int(w.ptr_eq(get(ex, w, s, a[0]), NULL)))

        def f_bool(e, ex, w, s, a):
            return ex.ret(w, s, int(not w.ptr_eq(get(ex, w, s, a[0]), NULL)))

        def f_clear(e, ex, w, s, a):
            self.element(w, s, w.resolve(a[0]))
            ex.store(w, s, a[0], NULL, 8)
            return ex.ret(w, s, None)

        def f_copy(e, ex, w, s, a):
            self.element(w, s, w.resolve(a[0]))
            ex.store(w, s, a[0], get(ex, w, s, a[1]), 8)
            return ex.ret(w, s, a[0] if meth.startswith("operator") else None)

        def f_move(e, ex, w, s, a):
            self.element(w, s, w.resolve(a[0]))
            v = get(ex, w, s, a[1])
            ex.store(w, s, a[1], NULL, 8)
            ex.store(w, s, a[0], v, 8)
            return ex.ret(w, s, a[0] if meth.startswith("operator") else None)

        def f_swap(e, ex, w, s, a):
            x, y = get(ex, w, s, a[0]), get(ex, w, s, a[1])
            ex.store(w, s, a[0], y, 8)
            ex.store(w, s, a[1], x, 8)
            return ex.ret(w, s, None)

        def f_dtor(e, ex, w, s, a):
            return ex.ret(w, s, None)

        def f_call(e, ex, w, s, a):
            v = get(ex, w, s, a[0])
            if w.ptr_eq(v, NULL):
                raise Violation("precondition", "an empty work item is called")
            self.idle(w, "running a work item")
            return Op("run_item", [v], "full")

        def f_make(e, ex, w, s, a):
            src = self.functor_arg(ex, w, s, name, a)
            i = dem.find("function0<void>::function0<") + len("function0<void>::function0<")
            typ = first_arg(dem[i:])
            dst = a[0]

            def info(e2, w2, side, v):
                ex.store(w2, side, dst, v, 8)
                return None
            op = Op("make_item", [src], self.ops["make_item"].obs, info)
            op.dst = dst
            return self.functor_copy(ex, w, s, op, typ, src)
        if meth in ("function0", "function_base"):
            if rest.startswith("()"):
                return f_clear
            if "function0<void>::function0<" in dem:
                return f_make
            if rest.startswith("(boost::function0<void> const&)"):
                return f_copy
            if rest.startswith("(boost::function0<void>&&)"):
                return f_move
            return None
        if meth == "operator=":
            return f_copy if rest.startswith("(boost::function0<void> const&)") else f_move if rest.startswith("(boost::function0<void>&&)") else None
        return {"empty": f_empty, "operator!": f_empty, "clear": f_clear, "swap": f_swap, "~function0": f_dtor, "~function_base": f_dtor,
                "operator()": f_call, "operator bool": f_bool}.get(meth)

    # ------------------------------------------------------------ items built by the library
    def functor_arg(self, ex, w, s, name, a):
        """address of the functor passed to a constructor; small ones are passed in registers"""
        fn = self.mod.funcs[name]
        fn.parse()
        if len(a) < 2:
            raise Unsupported("function0 constructor")
        n, ty, at = fn.params[1]
        if "byval" in at or "noundef" in at:
            return w.resolve(a[1])
        oid = s.new_private("functor", 16, "stack")
        off = 0
        for (n, ty, at), v in zip(fn.params[1:], a[1:]):
            if "noundef" in at or "byval" in at or off >= 16:
                break
            ex.store(w, s, P(oid, off), v, self.mod.size(ty))
            off += 8
        return P(oid, 0)

    def functor_copy(self, ex, w, s, op, typ, src):
        """the item keeps its own copy of the functor"""
        cp = self.functor_fn(typ, "copy")
        size = w.body.mem[src.o].size - src.off if src.o in w.body.mem else 64
        oid = s.new_private("functor of a work item", size, "heap")
        op.args = [P(oid, 0), ("TYPE", typ)]
        if cp is None:
            self.ex.copy_mem(w, s, P(oid, 0), src, size)
            return op
        raise Unsupported("functor with a copy constructor")

    def functor_fn(self, typ, what):
        last = re.sub(r"<.*", "", typ).rsplit("::", 1)[-1] if not typ.endswith(")") else typ
        for n in self.mod.funcs:
            d = self.mod.dem(n)
            if what == "copy" and d.startswith(typ + "::" + last + "(" + typ + " const&)"):
                return self.mod.funcs[n]
            if what == "call" and d.startswith(typ + "::operator()("):
                return self.mod.funcs[n]
            if what == "destroy" and d.startswith(typ + "::~" + last + "("):
                return self.mod.funcs[n]
        if what == "call":
            raise Unsupported("call operator of " + typ)
        return None

    def match(self, w):
        b, s = w.body.pending, w.spec.pending
        if b.name == s.name == "make_item":
            st = self.stats.obl.setdefault("queued item does what %s says" % s.args[0], [0, 0])
            st[0] += 1
            self.lemma(w, b, s)
            self.compare_state(w, s.obs, "before make_item")
            return self.act(w)
        return Engine.match(self, w)

    def lemma_worlds(self, w, s):
        return [("run", w)]

    def lemma(self, w, b, s):
        c = w.clone()
        for side in (c.body, c.spec):
            side.frames, side.pending, side.caught, side.flying, side.outcome = [], None, [], None, None
        c.snap = {}
        self.havoc_all(c)
        for k in (HELD, TOUCHED, STALE, NOTIFIED, PENDING):
            self.lk(c, k, 0)
        ptr, (_, typ) = b.args
        for what, c in self.lemma_worlds(c, s):
            fn = self.functor_fn(typ, "call" if what == "run" else "destroy")
            spec = s.args[0] if what == "run" else "drop_" + s.args[0]
            if what == "drop" and fn is None and spec not in self.specs:
                continue                    # trivial destructor, nothing to release
            if fn is None:
                raise Violation("meaning of the queued item " + s.args[0], "what it refers to is not released")
            self.ex.push_fn(c, c.body, fn, [ptr])
            c.spec.frames = [SpecFrame(self.specs[spec], s.args[1:], self.env)] if spec in self.specs else [SpecFrame(self.specs["nothing"], [], self.env)]
            fc, self.final_check = self.final_check, None
            self.in_lemma = True
            try:
                v = self.run(c, "item")
            finally:
                self.final_check = fc
                self.in_lemma = False
            if v:
                x = v[0]
                y = Violation("meaning of the queued item " + s.args[0], "%s%s: %s" % ("" if what == "run" else "when it is dropped, ", x.ob, x.msg), x.model)
                y.undecided = getattr(x, "undecided", False)
                y.where = getattr(x, "where", []); raise y

    def finish(self, w):
        self.idle(w, "the end")
        Engine.finish(self, w)


def nop(e, ex, w, s, a):
    return ex.ret(w, s, None)


def first_arg(t):
    d = 0
    for i, ch in enumerate(t):
        if ch in "<(":
            d += 1
        elif ch in ">)":
            if d == 0:
                return t[:i].strip()
            d -= 1
        elif ch == "," and d == 0:
            return t[:i].strip()
    return t
