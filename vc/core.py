"""Values, heaps and worlds of the deductive verifier.

A *world* pairs two sides that run in lock step from one arbitrary (symbolic)
initial state that satisfies the precondition: `body` executes the LLVM IR of
the real function, `spec` executes the contract's specification program.  Both
sides share symbols, so "equal" always means "equal in every concrete state".
"""
import z3, time, copy


class Unsupported(Exception):
    """construct outside the verifier's reach: the obligation is undischarged"""


class Violation(Exception):
    """an obligation that is definitely not discharged"""
    def __init__(self, ob, msg, model=None):
        Exception.__init__(self, "%s: %s" % (ob, msg))
        self.ob, self.msg, self.model = ob, msg, model


class Fork(Exception):
    """raised before any mutation: re-execute the step under each alternative"""
    def __init__(self, alts):
        self.alts = alts            # list of ("pc", z3bool) | ("res", key, val)


class Prune(Exception):
    """current world is infeasible"""


# ------------------------------------------------------------------ pointers
class P(tuple):                      # resolved pointer: object id, byte offset
    __slots__ = ()

    def __new__(cls, o, off=0):
        return tuple.__new__(cls, ("P", o, off))
    o = property(lambda s: s[1])
    off = property(lambda s: s[2])


class SP(tuple):                     # symbolic pointer (resolved lazily by case split)
    __slots__ = ()

    def __new__(cls, name, off=0):
        return tuple.__new__(cls, ("SP", name, off))
    name = property(lambda s: s[1])
    off = property(lambda s: s[2])


class FN(tuple):                     # code pointer
    __slots__ = ()

    def __new__(cls, name):
        return tuple.__new__(cls, ("FN", name))
    name = property(lambda s: s[1])


class VT(tuple):                     # address inside the (opaque) vtable of an object
    __slots__ = ()

    def __new__(cls, o, off=0):
        return tuple.__new__(cls, ("VT", o, off))


class VF(tuple):                     # virtual function slot of an opaque object
    __slots__ = ()

    def __new__(cls, o, slot):
        return tuple.__new__(cls, ("VF", o, slot))


class IT(tuple):                     # iterator into a list: list location, index term
    __slots__ = ()

    def __new__(cls, loc, idx):
        return tuple.__new__(cls, ("IT", loc, idx))
    loc = property(lambda s: s[1])
    idx = property(lambda s: s[2])

    def __eq__(s, o):
        return isinstance(o, IT) and s[1] == o[1] and same_term(s[2], o[2])
    __hash__ = None


class CELL(tuple):                   # address of a list cell
    __slots__ = ()

    def __new__(cls, loc, idx, off=0):
        return tuple.__new__(cls, ("CELL", loc, idx, off))
    __hash__ = None


class OP(tuple):                     # opaque token (compared by name)
    __slots__ = ()

    def __new__(cls, name):
        return tuple.__new__(cls, ("OP", name))


NULL = P(0, 0)


def same_term(a, b):
    if z3.is_expr(a) or z3.is_expr(b):
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        return False
    return a == b


def is_sym(v):
    return z3.is_expr(v)


UNDEF = OP("undef")


class Obj:
    __slots__ = ("id", "name", "size", "cls", "cells", "ghost", "alive", "kind", "opaque", "vt")

    def __init__(self, id, name, size, cls=None, kind="heap", opaque=False, vt=None):
        self.id, self.name, self.size, self.cls, self.kind = id, name, size, cls, kind
        self.cells, self.ghost, self.alive = {}, {}, True
        self.opaque, self.vt = opaque, vt

    def copy(self):
        n = Obj.__new__(Obj)
        n.id, n.name, n.size, n.cls, n.kind = self.id, self.name, self.size, self.cls, self.kind
        n.cells, n.ghost, n.alive = dict(self.cells), dict(self.ghost), self.alive
        n.opaque, n.vt = self.opaque, self.vt
        return n


# ------------------------------------------------------------------ ghost values
class EvList(tuple):
    """sequence of intrusive_ptr<event>; items: ("v",segname) | ("n",node obj id)"""
    __slots__ = ()

    def __new__(cls, items=()):
        return tuple.__new__(cls, tuple(items))


class EvAt(tuple):
    """position in a sequence of events: the first element of a given state of the sequence, a node, or the end"""
    __slots__ = ()

    def __new__(cls, kind, v=None):
        return tuple.__new__(cls, (kind, v))


class LeafList:
    """std::list< intrusive_ptr<leaf_state> >: base cells + updates, size term"""
    __slots__ = ("base", "upd", "size")

    def __init__(self, base, upd, size):
        self.base, self.upd, self.size = base, upd, size      # upd: tuple of (term,value), newest last


class MapVal:
    """history map: base ("empty" | symbolic name), entries key -> pair object id | None(absent)"""
    __slots__ = ("base", "ent")

    def __init__(self, base, ent=()):
        self.base, self.ent = base, dict(ent)


class Side:
    def __init__(self, name):
        self.name = name
        self.mem = {}
        self.own = set()
        self.frames = []
        self.caught = []          # stack of exceptions being handled
        self.flying = None
        self.outcome = None
        self.pending = None       # op waiting for its result
        self.cleared = ()         # queue items released since the last observable action
        self.priv = 0

    def clone(self):
        n = Side(self.name)
        n.mem = dict(self.mem)
        n.own = set()
        self.own = set()
        n.frames = [f.clone() for f in self.frames]
        n.caught = list(self.caught)
        n.flying, n.outcome, n.pending = self.flying, self.outcome, self.pending
        n.priv, n.cleared = self.priv, self.cleared
        return n

    def wr(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o

    def new_private(self, name, size, kind, cls=None):
        self.priv += 1
        oid = (self.name, self.priv)
        self.mem[oid] = Obj(oid, name, size, cls, kind)
        self.own.add(oid)
        return oid


class Stats:
    def __init__(self):
        self.queries = 0
        self.qtime = 0.0
        self.obl = {}             # obligation name -> [count, solver count]
        self.ops = {}
        self.paths = 0
        self.forks = 0
        self.reached = set()
        self.assumed = {}
        self.fns = {}
        self.unknown = 0


class World:
    def __init__(self, eng):
        self.eng = eng
        self.body, self.spec = Side("B"), Side("S")
        self.pc = []
        self.res = {}              # symbolic decisions: name -> value
        self.cands = {}            # SP name -> candidate description
        self.ctr = 0
        self.snap = {}             # loop cut points
        self.shared = []           # shared object ids in creation order
        self.leafbase = {}         # base name -> list of (term, value)
        self.trail = []            # human readable path
        self.opno = 0
        self.solver = None
        self.depth = 0
        self.gsyms, self.ginv = frozenset(), {}
        self.twin = {}             # private objects of the two sides that correspond

    def clone(self):
        n = World.__new__(World)
        n.eng = self.eng
        n.body, n.spec = self.body.clone(), self.spec.clone()
        n.pc = list(self.pc)
        n.res = dict(self.res)
        n.cands = dict(self.cands)
        n.ctr = self.ctr
        n.snap = dict(self.snap)
        n.shared = list(self.shared)
        n.leafbase = {k: list(v) for k, v in self.leafbase.items()}
        n.trail = list(self.trail)
        n.opno = self.opno
        n.solver = None
        n.depth = self.depth
        n.gsyms, n.ginv = self.gsyms, self.ginv
        n.twin = dict(self.twin)
        return n

    # ------------------------------------------------------------ symbols
    def fresh(self, base):
        self.ctr += 1
        return "%s!%d" % (base, self.ctr)

    def bv(self, base, n):
        return z3.BitVec(self.fresh(base), n)

    def boolean(self, base):
        return z3.Bool(self.fresh(base))

    def integer(self, base):
        return z3.Int(self.fresh(base))

    # ------------------------------------------------------------ solver
    def _solver(self):
        if self.solver is None:
            s = z3.Solver()
            s.set("timeout", self.eng.timeout_ms)
            for c in self.pc:
                s.add(c)
            self.solver = s
        return self.solver

    def check(self, *extra):
        t = time.time()
        s = self._solver()
        r = s.check(*extra)
        st = self.eng.stats
        st.queries += 1
        st.qtime += time.time() - t
        if r == z3.unknown:
            st.unknown += 1
        return r

    def assume(self, c):
        if c is True or (z3.is_expr(c) and z3.is_true(c)):
            return
        if c is False or (z3.is_expr(c) and z3.is_false(c)):
            raise Prune()
        self.pc.append(c)
        if self.solver is not None:
            self.solver.add(c)

    def valid(self, c):
        """True when pc implies c (unknown counts as not proved)"""
        if c is True:
            return True
        if c is False:
            return False
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.check() == z3.unsat
        return self.check(z3.Not(c)) == z3.unsat

    def feasible(self, c=None):
        if c is None:
            return self.check() != z3.unsat
        return self.check(c) != z3.unsat

    def decide(self, c):
        """concrete truth value of c, forking the world if both are possible"""
        if isinstance(c, (bool, int)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        t = self.check(c) != z3.unsat
        f = self.check(z3.Not(c)) != z3.unsat
        if t and f:
            raise Fork([("pc", c), ("pc", z3.Not(c))])
        if t:
            return True
        if f:
            return False
        raise Prune()

    def decide_key(self, key, values=(True, False)):
        """shared nondeterministic decision identified by key"""
        if key in self.res:
            return self.res[key]
        raise Fork([("res", key, v) for v in values])

    # ------------------------------------------------------------ objects
    def new_shared(self, name, size, cls=None, kind="heap", opaque=False, vt=None):
        self.ctr += 1
        oid = self.ctr + 1000
        for s in (self.body, self.spec):
            s.mem[oid] = Obj(oid, name, size, cls, kind, opaque, vt)
            s.own.add(oid)
        self.shared.append(oid)
        return oid

    def set_both(self, oid, off, val, size):
        for s in (self.body, self.spec):
            s.wr(oid).cells[off] = (val, size)

    def ghost_both(self, oid, off, g):
        for s in (self.body, self.spec):
            s.wr(oid).ghost[off] = g

    # ------------------------------------------------------------ pointers
    def norm(self, p):
        """resolve SP if a decision exists (no forking)"""
        while isinstance(p, SP) and p.name in self.res:
            b = self.res[p.name]
            if isinstance(b, P):
                if b.o == 0:
                    return NULL if True else b
                return P(b.o, b.off + p.off)
            if isinstance(b, SP):
                p = SP(b.name, b.off + p.off)
            else:
                return b
        return p

    def resolve(self, p):
        """force a pointer to a definite object (or NULL), forking over candidates"""
        p = self.norm(p)
        if isinstance(p, SP):
            c = self.cands.get(p.name)
            if c is None:
                raise Unsupported("unconstrained pointer %s" % p.name)
            alts = []
            if c.get("null"):
                alts.append(("res", p.name, NULL))
            for o in c.get("objs", ()):
                o = o() if callable(o) else o
                if o is not None:
                    alts.append(("res", p.name, o if isinstance(o, (P, SP)) else P(o, 0)))
            if c.get("opaque"):
                alts.append(("opq", p.name, c["opaque"]))
            if not alts:
                raise Prune()
            raise Fork(alts)
        return p

    def ptr_eq(self, a, b):
        """-> bool (forks if unresolved)"""
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, SP) and isinstance(b, SP) and a.name == b.name:
            return a.off == b.off
        if isinstance(a, IT) and isinstance(b, IT):
            if a.loc != b.loc:
                return False
            if isinstance(a.idx, EvAt):
                raise Unsupported("comparison of queue positions")
            return self.decide(term_eq(a.idx, b.idx))
        if isinstance(a, CELL) and isinstance(b, CELL):
            return a[1] == b[1] and a[3] == b[3] and self.decide(term_eq(a[2], b[2]))
        # null tests do not need full resolution when the candidates exclude null
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SP) and isinstance(y, P) and y.o == 0:
                c = self.cands.get(x.name)
                if c is not None and not c.get("null"):
                    return False
        a, b = self.resolve(a), self.resolve(b)
        # "?" tokens stand for unknown values ("?!": unknown but not null)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, OP) and x[1].startswith("?") and tuple(x) != tuple(y):
                if x[1].startswith("?!") and isinstance(y, P) and y.o == 0:
                    return False
                return self.decide_key("eq:" + ",".join(sorted((repr(x), repr(y)))))
        if isinstance(a, P) and isinstance(b, P):
            return tuple(a) == tuple(b)
        if type(a) is type(b):
            return tuple(a) == tuple(b)
        return False


def term_eq(a, b):
    if is_sym(a) or is_sym(b):
        return a == b
    return a == b


def undef(v):
    return isinstance(v, OP) and v[1] == "undef"
