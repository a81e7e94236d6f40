"""Pure functions and effects available to specification programs."""
from core import *
from exec import Op, Exc, bool_of, show
from spec import pure, effect, PURE, EFFECT, Ref, compare
import engine as E
from engine import PUSHED
import z3


def _ghost(ex, w, s, r):
    return ex.obj(w, s, r[1]).ghost[r[2]]


@pure
def empty(ex, w, s, f, r):
    return int(ex.eng.ev_first(w, s, (r[1], r[2])) is None)


@pure
def size(ex, w, s, f, r):
    return ex.leaf_list(w, s, (r[1], r[2])).size


@pure
def nonnull(ex, w, s, f, p):
    return int(not w.ptr_eq(p, NULL))


@pure
def same(ex, w, s, f, a, b):
    return int(w.ptr_eq(a, b))


@pure
def type_of(ex, w, s, f, p):
    """type identity of an event"""
    p = w.resolve(p)
    ob = ex.obj(w, s, p.o)
    if "id" in ex.eng.classes[ob.cls].fields:
        return ex.load(w, s, P(p.o, p.off + ex.eng.fieldof(ob.cls, "id")[0]), 8)
    if ob.cls.startswith("E:"):
        return ex.eng.typeid[ob.cls[2:]]
    if ob.name == "exception_thrown":
        return ex.eng.env["EXC_ID"]
    raise Unsupported("type of " + ob.name)


@pure
def implies(ex, w, s, f, a, b):
    a, b = bool_of(a), bool_of(b)
    a = a if is_sym(a) else z3.BoolVal(a)
    b = b if is_sym(b) else z3.BoolVal(b)
    return z3.Implies(a, b)


@pure
def iff(ex, w, s, f, a, b):
    a, b = bool_of(a), bool_of(b)
    a = a if is_sym(a) else z3.BoolVal(a)
    b = b if is_sym(b) else z3.BoolVal(b)
    return a == b


@pure
def hist(ex, w, s, f, r, key):
    """abstract value of a history entry: null when absent or cleared"""
    v = ex.eng.map_val(w, s, _ghost(ex, w, s, r), key)
    return NULL if v == "absent" else v


@effect
def set_hist(ex, w, s, f, args):
    r, key, v = args
    loc = (r[1], r[2])
    g = _ghost(ex, w, s, r)
    cur = g.ent.get(key)
    if cur is None:
        ex.eng.map_set(ex, w, s, loc, key, v)
    else:
        s.wr(cur).cells[16] = (v, 8)


@effect
def clear_map(ex, w, s, f, args):
    r = args[0]
    ex.obj(w, s, r[1], True).ghost[r[2]] = MapVal("empty")


@effect
def pop_front(ex, w, s, f, args):
    """removes the first queue entry and returns the event it referred to (reference ownership moves out)"""
    r = args[0]
    x = ex.eng.ev_first(w, s, (r[1], r[2]))
    if x is None:
        raise Violation("spec", "pop_front of empty queue")
    node, items = x
    ex.obj(w, s, r[1], True).ghost[r[2]] = EvList(items[1:])
    v = s.mem[node].cells[0][0]
    del s.mem[node]
    return w.norm(v)


def _push(ex, w, s, r, p, front):
    g = _ghost(ex, w, s, r)
    node = s.new_private("queue node", 8, "heap")
    s.mem[node].cells[0] = (p, 8)
    ex.obj(w, s, r[1], True).ghost[r[2]] = EvList(([("n", node)] + list(g)) if front else (list(g) + [("n", node)]))


@effect
def push_back(ex, w, s, f, args):
    """appends an entry; the entry takes over one reference of p"""
    _push(ex, w, s, args[0], args[1], False)


@effect
def splice_front(ex, w, s, f, args):
    """moves all entries of b, in order, in front of a"""
    a, b = args
    g, h = _ghost(ex, w, s, a), _ghost(ex, w, s, b)
    ex.obj(w, s, a[1], True).ghost[a[2]] = EvList(list(h) + list(g))
    ex.obj(w, s, b[1], True).ghost[b[2]] = EvList()


@effect
def clear_events(ex, w, s, f, args):
    r = args[0]
    if ex.eng.ev_void(w, _ghost(ex, w, s, r)):
        ex.obj(w, s, r[1], True).ghost[r[2]] = EvList()
        return None
    return Op("clear_events", [ex.eng.evval(w, s, _ghost(ex, w, s, r))], "full", ("ev_clear", (r[1], r[2])))


@effect
def append_cell(ex, w, s, f, args):
    """appends a state to the state list"""
    r, p = args
    g = ex.leaf_list(w, s, (r[1], r[2]))
    n = z3.simplify(g.size + 1) if is_sym(g.size) else g.size + 1
    ex.obj(w, s, r[1], True).ghost[r[2]] = LeafList(g.base, g.upd + ((g.size, p),), n)


@effect
def new_list(ex, w, s, f, args):
    o, name, kind = args
    off, _ = ex.eng.fieldof(ex.obj(w, s, o.o).cls, name)
    ex.obj(w, s, o.o, True).ghost[o.off + off] = {"ev": EvList(), "leaf": LeafList("empty", (), 0),
                                                  "map": MapVal("empty")}[kind]


@effect
def destroy_states(ex, w, s, f, args):
    r = args[0]
    return Op("destroy_state_list", [], "full", ("leaf_destroy", (r[1], r[2])))


@effect
def kill(ex, w, s, f, args):
    """storage of an object is released"""
    p = w.resolve(args[0])
    ex.obj(w, s, p.o, True).alive = False


@effect
def new_exception_thrown(ex, w, s, f, args):
    o = s.new_private("exception_thrown", 32, "heap", "event")
    s.mem[o].cells[ex.eng.fieldof("event", "count")[0]] = (0, 4)
    if "id" in ex.eng.classes["event"].fields:
        s.mem[o].cells[ex.eng.fieldof("event", "id")[0]] = (ex.eng.env["EXC_ID"], 8)
    return P(o, 0)


@effect
def drop_exception_thrown(ex, w, s, f, args):
    p = w.resolve(args[0])
    ex.eng.obligation(w, "no reference to the exception event survives", ex.load(w, s, P(p.o, ex.eng.fieldof("event", "count")[0]), 4) == 0)
    del s.mem[p.o]
    return None


@pure
def current(ex, w, s, f):
    """the exception being handled"""
    for g in reversed(s.frames):
        if g.spec and g.exc:
            return g.exc[-1]
    if s.caught:
        return s.caught[-1]
    raise Violation("spec", "no exception is being handled")


@effect
def drop_map(ex, w, s, f, args):
    """destruction of a map: its cells are gone"""
    ex.obj(w, s, args[0][1], True).ghost.pop(args[0][2])
