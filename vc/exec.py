"""Symbolic executor: LLVM IR frames (real code) and specification frames."""
import re, z3
from ir import *
from core import *
import core


class Frame:                                   # IR frame
    __slots__ = ("fn", "blk", "ix", "regs", "prev", "call", "allocas", "post")

    def __init__(self, fn):
        self.fn, self.blk, self.ix = fn, fn.entry, 0
        self.regs, self.prev, self.call, self.allocas = {}, None, None, ()
        self.post = None                       # continuation run when this frame returns

    def clone(self):
        n = Frame.__new__(Frame)
        n.fn, n.blk, n.ix, n.regs = self.fn, self.blk, self.ix, dict(self.regs)
        n.prev, n.call, n.allocas, n.post = self.prev, self.call, self.allocas, self.post
        return n

    spec = False


class Op:
    """observable action: both sides must perform the same one"""
    __slots__ = ("name", "args", "obs", "info", "dst")

    def __init__(self, name, args, obs="full", info=None):
        self.name, self.args, self.obs, self.info = name, list(args), obs, info

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(show(a) for a in self.args))


def show(a):
    if isinstance(a, tuple) and type(a) is not tuple:
        return "%s:%s" % (a[0], ",".join(str(x) for x in a[1:]))
    return str(a)


class Exc(tuple):
    """exception in flight: identity name, type ('?' unknown, or type_info symbol)"""
    __slots__ = ()

    def __new__(cls, name, ty="?"):
        return tuple.__new__(cls, ("EXC", name, ty))
    name = property(lambda s: s[1])
    ty = property(lambda s: s[2])


class Agg(tuple):
    """first-class aggregate register value"""
    __slots__ = ()


def mask(v, n):
    return v & ((1 << n) - 1)


def to_bv(v, n):
    if is_sym(v):
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        if z3.is_int(v):
            return z3.Int2BV(v, n)
        if v.size() < n:
            return z3.ZeroExt(n - v.size(), v)
        if v.size() > n:
            return z3.Extract(n - 1, 0, v)
        return v
    return z3.BitVecVal(v, n)


def bool_of(v):
    """i1 value -> python bool or z3 Bool"""
    if is_sym(v):
        if z3.is_bool(v):
            return v
        v = z3.simplify(v)
        # If(b,1,0) patterns
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
            a, b = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
            if (a, b) == (1, 0):
                return v.arg(0)
            if (a, b) == (0, 1):
                return z3.Not(v.arg(0))
        return (v & 1) == 1 if v.size() > 1 else v == 1
    return bool(v & 1)


SIGNED = {"sgt", "sge", "slt", "sle"}


class Executor:
    """executes one side of a world; subclass hooks provide intrinsics/contracts"""

    def __init__(self, mod, eng):
        self.mod, self.eng = mod, eng
        self.tinfo = {}

    # ------------------------------------------------------------ memory
    def obj(self, w, s, oid, write=False, what=""):
        o = s.mem.get(oid)
        if o is None and isinstance(oid, tuple) and oid[0] == "G":
            self.glob(w, s, oid[1])
            o = s.mem.get(oid)
        if o is None:
            raise Unsupported("dangling object %r" % (oid,))
        if not o.alive:
            raise Violation("memory-safety", "%s of destroyed object %s%s" % (
                "write" if write else "access", o.name, what))
        return s.wr(oid) if write else o

    watch = None            # hook: every access to a resolved address

    def load(self, w, s, p, size, ty=None):
        if isinstance(p, SP) and size == 8:
            q = w.norm(p)
            if isinstance(q, SP) and q.off == 0 and w.cands.get(q.name, {}).get("lazyvt") \
                    and not w.cands[q.name].get("null"):
                return VT(SP(q.name), 0)       # vtable pointer of an object that stays symbolic
            p = q
        p = w.resolve(p) if not isinstance(p, CELL) else p
        if isinstance(p, CELL):
            if p[3] != 0:
                raise Unsupported("offset inside list cell")
            return self.leaf_read(w, s, p[1], p[2])
        if not isinstance(p, P):
            if isinstance(p, VT):
                if p[2] == -8:
                    return P(("G", self.eng.typeinfo_of(w, p[1])), 0)
                return VF(p[1], p[2] // 8)
            raise Unsupported("load through %s" % show(p))
        if p.o == 0:
            raise Violation("memory-safety", "null pointer read")
        if self.watch:
            self.watch(w, s, p, size, "read")
        o = self.obj(w, s, p.o)
        v = o.cells.get(p.off)
        if v is not None and v[1] == size:
            return v[0]
        if v is not None:
            val, sz = v
            if isinstance(val, int) and size < sz:
                return mask(val, 8 * size)
            if is_sym(val) and z3.is_bv(val) and size < sz:
                return z3.Extract(8 * size - 1, 0, val)
        if o.opaque and p.off == 0 and size == 8:
            return VT(p.o, 0)
        # wide read of adjacent cells / default (uninitialised)
        parts = [(k, x) for k, x in o.cells.items() if k < p.off + size and k + x[1] > p.off]
        if not parts:
            if o.kind == "zeroinit":
                return 0
            return UNDEF
        return self.assemble(o, p.off, size, parts)

    def assemble(self, o, off, size, parts):
        r, sym = 0, None
        for k, (v, sz) in sorted(parts):
            if undef(v):
                continue
            if k < off or k + sz > off + size:
                if isinstance(v, int):
                    if k < off:
                        v, sz, k = v >> (8 * (off - k)), sz - (off - k), off
                    v = mask(v, 8 * min(sz, off + size - k))
                else:
                    raise Unsupported("partial overlapping read in %s" % o.name)
            if isinstance(v, tuple):
                if k == off and len(parts) == 1:
                    return v
                raise Unsupported("wide read over pointer in %s+%d" % (o.name, off))
            if is_sym(v):
                t = to_bv(v, 8 * size) << (8 * (k - off))
                sym = t if sym is None else sym | t
            else:
                r |= mask(v, 8 * sz) << (8 * (k - off))
        if sym is not None:
            return z3.simplify(sym | z3.BitVecVal(r, 8 * size))
        return r

    def store(self, w, s, p, v, size):
        p = w.resolve(p) if not isinstance(p, CELL) else p
        if isinstance(p, CELL):
            self.leaf_write(w, s, p[1], p[2], v)
            return
        if not isinstance(p, P):
            raise Unsupported("store through %s" % show(p))
        if p.o == 0:
            raise Violation("memory-safety", "null pointer write")
        if self.watch:
            self.watch(w, s, p, size, "write")
        o = self.obj(w, s, p.o, True)
        if o.kind == "const":
            raise Violation("memory-safety", "write to constant " + o.name)
        cells = o.cells
        if isinstance(v, Agg):
            off = p.off
            ty = v[0]
            for i, e in enumerate(v[1]):
                fo, fty = self.mod.field_off(ty, i)
                self.store(w, s, P(p.o, p.off + fo), e, self.mod.size(fty))
            return
        # invalidate / split overlapping cells
        for k in [k for k in cells if k < p.off + size and k + cells[k][1] > p.off and not (
                k == p.off and cells[k][1] == size)]:
            val, sz = cells[k]
            if isinstance(val, int):
                del cells[k]
                for j in range(sz):
                    if not (p.off <= k + j < p.off + size):
                        cells[k + j] = ((val >> (8 * j)) & 255, 1)
            elif k >= p.off and k + sz <= p.off + size:
                del cells[k]
            elif undef(val):
                del cells[k]
            else:
                raise Unsupported("partial overwrite in %s+%d" % (o.name, p.off))
        cells[p.off] = (v, size)

    def copy_mem(self, w, s, d, src, n):
        d, src = w.resolve(d) if not isinstance(d, CELL) else d, w.resolve(src) if not isinstance(src, CELL) else src
        if n == 0:
            return
        if isinstance(src, CELL) or isinstance(d, CELL):
            v = self.load(w, s, src, n)
            self.store(w, s, d, v, n)
            return
        so = self.obj(w, s, src.o)
        items = []
        for k in sorted(so.cells):
            v, sz = so.cells[k]
            if k >= src.off and k + sz <= src.off + n:
                items.append((k - src.off, v, sz))
            elif k < src.off + n and k + sz > src.off:
                if isinstance(v, int) or (is_sym(v)):
                    lo, hi = max(k, src.off), min(k + sz, src.off + n)
                    x = self.assemble(so, lo, hi - lo, [(k, (v, sz))]) if isinstance(v, int) else z3.simplify(
                        z3.Extract(8 * (hi - k) - 1, 8 * (lo - k), to_bv(v, 8 * sz)))
                    items.append((lo - src.off, x, hi - lo))
                elif undef(v):
                    pass
                else:
                    raise Unsupported("partial memcpy")
        do = self.obj(w, s, d.o, True)
        for k in [k for k in do.cells if k < d.off + n and k + do.cells[k][1] > d.off]:
            if k >= d.off and k + do.cells[k][1] <= d.off + n:
                del do.cells[k]
            else:
                raise Unsupported("partial memcpy dst")
        for off, v, sz in items:
            do.cells[d.off + off] = (v, sz)
        for k, g in list(so.ghost.items()):
            if src.off <= k < src.off + n:
                raise Unsupported("bitwise copy of container")

    # leaf-state list cells -------------------------------------------------
    def leaf_list(self, w, s, loc):
        o = self.obj(w, s, loc[0])
        g = o.ghost.get(loc[1])
        if not isinstance(g, LeafList):
            raise Unsupported("not a state list")
        return g

    def leaf_read(self, w, s, loc, idx):
        g = self.leaf_list(w, s, loc)
        for t, v in reversed(g.upd):
            if w.decide(term_eq(t, idx)):
                return v
        return self.eng.leaf_base(w, g.base, idx)

    def leaf_write(self, w, s, loc, idx, v):
        g = self.leaf_list(w, s, loc)
        # in-bounds obligation
        if not w.valid(self.eng.and_(idx >= 0, idx < g.size)):
            raise Violation("memory-safety", "state list write outside the list")
        upd = []
        for t, x in g.upd:
            if not w.decide(term_eq(t, idx)):
                upd.append((t, x))
        upd.append((idx, v))
        self.obj(w, s, loc[0], True).ghost[loc[1]] = LeafList(g.base, tuple(upd), g.size)

    # ------------------------------------------------------------ operands
    def glob(self, w, s, name):
        m = self.mod
        name = m.aliases.get(name, name)
        if name in m.funcs or (name in m.decls):
            return FN(name)
        oid = ("G", name)
        if oid not in s.mem:
            g = m.global_init(name)
            o = Obj(oid, name, 0, None, "global")
            if g is not None:
                ty, val, const = g
                o.size = m.size(ty) if m.resolve(ty).k != "opaque" else 8
                s.mem[oid] = o
                s.own.add(oid)
                if val is not None and (const or name in self.eng.static_globals):
                    self.init_const(w, s, o, 0, ty, val)
                    if const:
                        o.kind = "const"
                elif not const:
                    init = self.eng.global_hook(w, s, name, o)
            else:
                s.mem[oid] = o
        return P(oid, 0)

    def init_const(self, w, s, o, off, ty, v):
        ty = self.mod.resolve(ty)
        if v[0] == "agg":
            for i, (ety, ev) in enumerate(v[1]):
                fo, _ = self.mod.field_off(ty, i)
                self.init_const(w, s, o, off + fo, ety, ev)
        elif v[0] == "zero":
            o.kind = "zeroinit" if o.kind == "global" else o.kind
        elif v[0] == "str":
            pass
        else:
            o.cells[off] = (self.const(w, s, ty, v), self.mod.size(ty))

    def const(self, w, s, ty, v):
        k = v[0]
        if k == "int":
            return mask(v[1], self.mod.resolve(ty).n)
        if k == "null":
            return NULL
        if k == "glob":
            return self.glob(w, s, v[1])
        if k == "undef":
            r = self.mod.resolve(ty)
            if r.k in ("struct", "array"):
                return Agg((r, tuple(UNDEF for _ in r.elts))) if r.k == "struct" else UNDEF
            return UNDEF
        if k == "zero":
            r = self.mod.resolve(ty)
            if r.k == "struct":
                return Agg((r, tuple(self.const(w, s, e, ("zero",)) for e in r.elts)))
            return NULL if r.k == "ptr" else 0
        if k == "cgep":
            base = self.const(w, s, *v[2][0])
            return self.gep(w, s, v[1], base, [(t, self.const(w, s, t, x)) for t, x in v[2][1:]])
        if k == "ccast":
            x = self.const(w, s, v[2], v[3])
            return x
        if k == "agg":
            r = self.mod.resolve(ty)
            return Agg((r, tuple(self.const(w, s, t, x) for t, x in v[1])))
        if k == "md":
            return OP(v[1])
        if k == "cbin":
            a, b = self.const(w, s, *v[2]), self.const(w, s, *v[3])
            return self.arith(w, v[1], self.mod.resolve(ty).n, a, b)
        raise Unsupported("constant %r" % (v,))

    def val(self, w, s, f, ty, v):
        if v[0] == "reg":
            if v[1] not in f.regs:
                raise Unsupported("undefined register " + v[1])
            return f.regs[v[1]]
        return self.const(w, s, ty, v)

    def gep(self, w, s, bty, base, idx):
        off = 0
        ty = bty
        symterm = None
        for n, (ity, iv) in enumerate(idx):
            if is_sym(iv):
                iv2 = z3.simplify(iv)
                if z3.is_bv_value(iv2):
                    iv = iv2.as_long()
                else:
                    if n == 0:
                        sz = self.mod.size(ty)
                    else:
                        r = self.mod.resolve(ty)
                        if r.k != "array":
                            raise Unsupported("symbolic struct index")
                        sz = self.mod.size(r.elts)
                        ty = r.elts
                    # enumerate feasible concrete values of the index
                    bits = iv.size()
                    for c in range(0, 33):
                        if w.decide(iv == c):
                            iv = c
                            break
                    else:
                        raise Unsupported("symbolic array index")
                    off += iv * sz
                    continue
            if isinstance(iv, int):
                bits = self.mod.resolve(ity).n
                if iv >= 1 << (bits - 1):
                    iv -= 1 << bits
            else:
                raise Unsupported("gep index %r" % (iv,))
            if n == 0:
                off += iv * self.mod.size(ty)
            else:
                r = self.mod.resolve(ty)
                if r.k == "array":
                    off += iv * self.mod.size(r.elts)
                    ty = r.elts
                else:
                    o, ty = self.mod.field_off(r, iv)
                    off += o
        return self.padd(w, base, off)

    def padd(self, w, base, off):
        base = w.norm(base)
        if off == 0:
            return base
        if isinstance(base, P):
            return P(base.o, base.off + off)
        if isinstance(base, SP):
            return SP(base.name, base.off + off)
        if isinstance(base, VT):
            return VT(base[1], base[2] + off)
        if isinstance(base, CELL):
            return CELL(base[1], base[2], base[3] + off)
        raise Unsupported("pointer arithmetic on %s" % show(base))

    # ------------------------------------------------------------ arithmetic
    def arith(self, w, op, n, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if op == "sub" and isinstance(a, P) and isinstance(b, P) and a.o == b.o:
                return mask(a.off - b.off, n)
            if op == "and" and isinstance(a, tuple) and b == 1:
                return 0                               # function pointers are aligned: PMF virtual bit
            raise Unsupported("arithmetic on pointers: %s %s %s" % (op, show(a), show(b)))
        if n == 1 and (is_sym(a) or is_sym(b)):
            A, B = bool_of(a), bool_of(b)
            if op == "xor":
                if B is True:
                    return z3.Not(A) if is_sym(A) else int(not A)
                if A is True:
                    return z3.Not(B)
                if B is False:
                    return A
                return z3.Xor(A, B)
            if op == "and":
                return z3.simplify(z3.And(A, B))
            if op == "or":
                return z3.simplify(z3.Or(A, B))
            raise Unsupported("i1 " + op)
        if not is_sym(a) and not is_sym(b):
            sa = a - (1 << n) if a >> (n - 1) else a
            sb = b - (1 << n) if b >> (n - 1) else b
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                 "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b if b < n else 0,
                 "lshr": lambda: a >> b, "ashr": lambda: sa >> b,
                 "udiv": lambda: a // b, "urem": lambda: a % b,
                 "sdiv": lambda: int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1),
                 "srem": lambda: sa - sb * (int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1))}[op]()
            return mask(r, n)
        A, B = to_bv(a, n), to_bv(b, n)
        r = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "and": lambda: A & B,
             "or": lambda: A | B, "xor": lambda: A ^ B, "shl": lambda: A << B, "lshr": lambda: z3.LShR(A, B),
             "ashr": lambda: A >> B, "udiv": lambda: z3.UDiv(A, B), "urem": lambda: z3.URem(A, B),
             "sdiv": lambda: A / B, "srem": lambda: z3.SRem(A, B)}[op]()
        return z3.simplify(r)

    def icmp(self, w, s, pred, ty, a, b):
        ptrish = lambda v: isinstance(v, tuple)
        if ptrish(a) or ptrish(b):
            if a == 0 and not ptrish(a):
                a = NULL
            if b == 0 and not ptrish(b):
                b = NULL
            if pred in ("eq", "ne"):
                if isinstance(a, IT) and isinstance(b, IT) and a.loc == b.loc:
                    if isinstance(a.idx, tuple):
                        return int((self.eng.ev_at(w, s, a) == self.eng.ev_at(w, s, b)) == (pred == "eq"))
                    e = term_eq(a.idx, b.idx)
                    if is_sym(e):
                        return e if pred == "eq" else z3.Not(e)
                    return int(e == (pred == "eq"))
                if undef(a) or undef(b):
                    raise Unsupported("comparison of uninitialised value")
                return int(w.ptr_eq(a, b) == (pred == "eq"))
            a, b = w.resolve(a), w.resolve(b)
            if isinstance(a, P) and isinstance(b, P) and a.o == b.o:
                r = {"ult": a.off < b.off, "ugt": a.off > b.off, "ule": a.off <= b.off, "uge": a.off >= b.off,
                     "slt": a.off < b.off, "sgt": a.off > b.off}.get(pred)
                if r is not None:
                    return int(r)
            raise Unsupported("pointer comparison %s %s %s" % (pred, show(a), show(b)))
        n = self.mod.resolve(ty).n if self.mod.resolve(ty).k == "int" else 64
        if not is_sym(a) and not is_sym(b):
            sa = a - (1 << n) if a >> (n - 1) else a
            sb = b - (1 << n) if b >> (n - 1) else b
            r = {"eq": a == b, "ne": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b,
                 "sgt": sa > sb, "sge": sa >= sb, "slt": sa < sb, "sle": sa <= sb}[pred]
            return int(r)
        if n == 1:
            A, B = bool_of(a), bool_of(b)
            A = A if is_sym(A) else z3.BoolVal(A)
            B = B if is_sym(B) else z3.BoolVal(B)
            if pred in ("eq", "ne"):
                return z3.simplify(A == B if pred == "eq" else A != B)
            raise Unsupported("i1 compare")
        if (is_sym(a) and z3.is_int(a)) or (is_sym(b) and z3.is_int(b)):
            A, B = a, b
            r = {"eq": lambda: A == B, "ne": lambda: A != B, "ugt": lambda: A > B, "uge": lambda: A >= B,
                 "ult": lambda: A < B, "ule": lambda: A <= B}[pred]()
            return r
        A, B = to_bv(a, n), to_bv(b, n)
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "ugt": lambda: z3.UGT(A, B),
             "uge": lambda: z3.UGE(A, B), "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B),
             "sgt": lambda: A > B, "sge": lambda: A >= B, "slt": lambda: A < B, "sle": lambda: A <= B}[pred]()
        return z3.simplify(r)

    def cast(self, w, op, fty, v, tty):
        f, t = self.mod.resolve(fty), self.mod.resolve(tty)
        if isinstance(v, tuple):
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                return v
            if undef(v):
                return v
            if op == "trunc" and t.n == 1:
                raise Unsupported("trunc of pointer")
            raise Unsupported("cast %s of %s" % (op, show(v)))
        if op == "inttoptr":
            if v == 0 and not is_sym(v):
                return NULL
            raise Unsupported("inttoptr")
        if op in ("ptrtoint", "bitcast"):
            return v
        if not is_sym(v):
            if op == "sext" and v >> (f.n - 1):
                v = v - (1 << f.n)
            return mask(v, t.n)
        if z3.is_int(v):
            return v
        if op == "trunc":
            if t.n == 1:
                return bool_of(v)
            return z3.simplify(z3.Extract(t.n - 1, 0, to_bv(v, f.n)))
        if z3.is_bool(v):
            one = 1 if op == "zext" else (1 << t.n) - 1
            return z3.If(v, z3.BitVecVal(one, t.n), z3.BitVecVal(0, t.n))
        if op == "zext":
            return z3.simplify(z3.ZeroExt(t.n - f.n, v))
        if op == "sext":
            return z3.simplify(z3.SignExt(t.n - f.n, v))
        raise Unsupported(op)

    # ------------------------------------------------------------ control
    def push_fn(self, w, s, fn, args, post=None):
        if len(s.frames) > 120:
            raise Unsupported("call depth")
        fn.parse()
        st = self.eng.stats.fns
        st[fn.name] = st.get(fn.name, 0) + (1 if s is w.body else 0)
        f = Frame(fn)
        if len(args) < len(fn.params):
            raise Unsupported("argument count for " + fn.dem)
        for (pn, pty, at), a in zip(fn.params, args):
            if "byval" in at:
                sz = self.mod.size(at["byval"])
                oid = s.new_private("byval", sz, "stack")
                self.copy_mem(w, s, P(oid, 0), a, sz)
                f.allocas += (oid,)
                a = P(oid, 0)
            f.regs[pn] = a
        f.post = post
        s.frames.append(f)

    def pop_allocas(self, s, f):
        for oid in f.allocas:
            s.mem.pop(oid, None)
            s.own.discard(oid)

    def do_return(self, w, s, val):
        f = s.frames.pop()
        if not f.spec:
            self.pop_allocas(s, f)
        if f.post is not None:
            val = f.post(self, w, s, val)
        self.deliver(w, s, val)

    def deliver(self, w, s, val):
        """give a call result to the frame on top"""
        if not s.frames:
            s.outcome = ("ret", val)
            return
        g = s.frames[-1]
        if g.spec:
            g.deliver(self, w, s, val)
            return
        ins = g.call
        g.call = None
        if ins is None:
            raise Unsupported("return without call")
        if ins.dst is not None:
            g.regs[ins.dst] = val
        if ins.op == "invoke":
            self.jump(g, ins.x["labels"][0])
        else:
            g.ix += 1

    def jump(self, f, label):
        f.prev = f.blk
        f.blk = label
        f.ix = 0

    def throw(self, w, s, exc):
        """unwind from the frame on top (whose pending call threw)"""
        s.flying = exc
        while s.frames:
            g = s.frames[-1]
            if g.spec:
                if g.catch(self, w, s, exc):
                    s.flying = None
                    return
            else:
                ins = g.call
                if ins is not None and ins.op == "invoke":
                    lab = ins.x["labels"][1]
                    lp = next(i for i in g.fn.blocks[lab] if i.op != "phi")
                    sel = self.select_handler(w, s, lp, exc)
                    if sel is not None:
                        g.call = None
                        self.jump(g, lab)
                        g.regs["$exc"] = (exc, sel)
                        s.flying = None
                        return
                self.pop_allocas(s, g)
            s.frames.pop()
        s.outcome = ("throw", exc)
        s.flying = None

    def tid(self, name):
        if name not in self.tinfo:
            self.tinfo[name] = len(self.tinfo) + 1
        return self.tinfo[name]

    def exc_matches(self, w, exc, ti):
        if exc.ty == ti:
            return True
        if exc.ty == "?":
            return w.decide_key("isexc:%s:%s" % (exc.name, ti))
        return self.eng.exc_subtype(exc.ty, ti)

    def select_handler(self, w, s, lp, exc):
        if lp.op != "landingpad":
            raise Unsupported("no landingpad")
        for k, v in lp.a:
            if k == "catch":
                if v[0] == "null":
                    return 999
                if self.exc_matches(w, exc, v[1]):
                    return self.tid(v[1])
            else:
                raise Unsupported("exception filter")
        return 0 if lp.x else None

    # ------------------------------------------------------------ one step
    def step(self, w, s):
        """execute one step of side s; returns an Op when one is requested"""
        f = s.frames[-1]
        if f.spec:
            return f.step(self, w, s)
        ins = f.fn.blocks[f.blk][f.ix]
        op = ins.op
        m = self.mod
        R = f.regs
        if op == "alloca":
            sz = m.size(ins.ty)
            if ins.a is not None:
                sz *= self.val(w, s, f, *ins.a)
            oid = s.new_private("local " + ins.dst, sz, "stack")
            f.allocas += (oid,)
            R[ins.dst] = P(oid, 0)
            f.ix += 1
        elif op == "load":
            p = self.val(w, s, f, *ins.a)
            ty = m.resolve(ins.ty)
            if ty.k == "struct":
                el = []
                for i in range(len(ty.elts)):
                    fo, fty = m.field_off(ty, i)
                    el.append(self.load(w, s, self.padd(w, p, fo), m.size(fty)))
                v = Agg((ty, tuple(el)))
            else:
                v = self.load(w, s, p, m.size(ty))
                if ty.k == "ptr":
                    if v == 0 and not is_sym(v):
                        v = NULL
                    v = w.norm(v) if isinstance(v, tuple) else v
            R[ins.dst] = v
            f.ix += 1
        elif op == "store":
            (vty, vv), (pty, pv) = ins.a
            v = self.val(w, s, f, vty, vv)
            rty = m.resolve(vty)
            if rty.k == "int" and rty.n == 1:
                v = self.cast(w, "zext", vty, v, INT(8))
            self.store(w, s, self.val(w, s, f, pty, pv), v, m.size(vty))
            f.ix += 1
        elif op == "getelementptr":
            b = self.val(w, s, f, *ins.a[0])
            R[ins.dst] = self.gep(w, s, ins.ty, b, [(t, self.val(w, s, f, t, v)) for t, v in ins.a[1:]])
            f.ix += 1
        elif op == "br":
            if ins.a is None:
                self.jump(f, ins.x[0])
            else:
                c = bool_of_cond(self.val(w, s, f, *ins.a))
                self.jump(f, ins.x[0] if w.decide(c) else ins.x[1])
        elif op == "switch":
            v = self.val(w, s, f, *ins.a)
            n = m.resolve(ins.ty).n
            dst = ins.x[0]
            if is_sym(v):
                for k, l in ins.x[1]:
                    if w.decide(to_bv(v, n) == z3.BitVecVal(mask(k, n), n)):
                        dst = l
                        break
            else:
                for k, l in ins.x[1]:
                    if mask(k, n) == v:
                        dst = l
            self.jump(f, dst)
        elif op == "ret":
            v = None if ins.a is None else self.val(w, s, f, *ins.a)
            self.do_return(w, s, v)
        elif op in ("call", "invoke"):
            return self.call(w, s, f, ins)
        elif op == "icmp":
            R[ins.dst] = self.icmp(w, s, ins.x, ins.ty, self.val(w, s, f, ins.ty, ins.a[0]),
                                   self.val(w, s, f, ins.ty, ins.a[1]))
            f.ix += 1
        elif op == "phi":
            # evaluate all phis of the block simultaneously
            blk = f.fn.blocks[f.blk]
            new = {}
            i = f.ix
            while blk[i].op == "phi":
                for v, l in blk[i].a:
                    if l == f.prev:
                        new[blk[i].dst] = self.val(w, s, f, blk[i].ty, v)
                        break
                else:
                    raise Unsupported("phi")
                i += 1
            R.update(new)
            f.ix = i
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a, b = self.val(w, s, f, ins.ty, ins.a[0]), self.val(w, s, f, ins.ty, ins.a[1])
            R[ins.dst] = self.arith(w, op, m.resolve(ins.ty).n, a, b)
            f.ix += 1
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            fty, v = ins.a
            R[ins.dst] = self.cast(w, op, fty, self.val(w, s, f, fty, v), ins.ty)
            f.ix += 1
        elif op == "select":
            c = bool_of_cond(self.val(w, s, f, *ins.a[0]))
            R[ins.dst] = self.val(w, s, f, *(ins.a[1] if w.decide(c) else ins.a[2]))
            f.ix += 1
        elif op == "extractvalue":
            v = self.val(w, s, f, *ins.a)
            for i in ins.x:
                v = v[1][i]
            R[ins.dst] = v
            f.ix += 1
        elif op == "insertvalue":
            v = self.val(w, s, f, *ins.a[0])
            e = self.val(w, s, f, *ins.a[1])
            R[ins.dst] = self.insertv(v, ins.x, e)
            f.ix += 1
        elif op == "landingpad":
            exc, sel = R.pop("$exc")
            R[ins.dst] = Agg((m.resolve(ins.ty), (exc, sel)))
            f.ix += 1
        elif op == "resume":
            v = self.val(w, s, f, *ins.a)
            exc = v[1][0]
            if not isinstance(exc, Exc):
                raise Unsupported("resume of %r" % (exc,))
            self.pop_allocas(s, f)
            s.frames.pop()
            self.throw(w, s, exc)
        elif op == "unreachable":
            raise Violation("no-undefined-behaviour", "unreachable reached in " + f.fn.dem)
        elif op == "atomicrmw":
            p = self.val(w, s, f, *ins.a[0])
            v = self.val(w, s, f, *ins.a[1])
            n = m.resolve(ins.ty).n
            old = self.load(w, s, p, n // 8)
            new = v if ins.x == "xchg" else self.arith(w, ins.x, n, old, v)
            self.store(w, s, p, new, n // 8)
            R[ins.dst] = old
            f.ix += 1
        elif op == "cmpxchg":
            p = self.val(w, s, f, *ins.a[0])
            n = m.size(ins.ty)
            old = self.load(w, s, p, n)
            eq = w.decide(bool_of(self.icmp(w, s, "eq", ins.ty, old, self.val(w, s, f, *ins.a[1]))))
            if eq:
                self.store(w, s, p, self.val(w, s, f, *ins.a[2]), n)
            R[ins.dst] = Agg((None, (old, int(eq))))
            f.ix += 1
        elif op == "fence":
            f.ix += 1
        elif op == "freeze":
            R[ins.dst] = self.val(w, s, f, *ins.a)
            f.ix += 1
        else:
            raise Unsupported("instruction " + op)
        return None

    def insertv(self, v, path, e):
        if not isinstance(v, Agg):
            raise Unsupported("insertvalue into %r" % (v,))
        el = list(v[1])
        if len(path) == 1:
            el[path[0]] = e
        else:
            el[path[0]] = self.insertv(el[path[0]], path[1:], e)
        return Agg((v[0], tuple(el)))

    # ------------------------------------------------------------ calls
    def call(self, w, s, f, ins):
        x = ins.x
        callee = x["callee"]
        if callee[0] == "glob":
            name = self.mod.aliases.get(callee[1], callee[1])
            target = FN(name)
        else:
            target = w.norm(self.val(w, s, f, PTR, callee))
        args = []
        if isinstance(target, FN) and target.name.startswith("llvm.") and not target.name.startswith("llvm.mem"):
            r = self.llvm_intrinsic(w, s, f, ins, target.name)
            if ins.dst is not None:
                f.regs[ins.dst] = r
            if ins.op == "invoke":
                self.jump(f, ins.x["labels"][0])
            else:
                f.ix += 1
            return None
        for ty, v, at in x["args"]:
            args.append(self.val(w, s, f, ty, v))
        f.call = ins
        try:
            return self.invoke(w, s, target, args)
        except Fork:
            f.call = None
            raise

    def llvm_intrinsic(self, w, s, f, ins, name):
        if name.startswith("llvm.type.test") or name.startswith("llvm.public.type.test"):
            return 1
        if name.startswith("llvm.assume") or name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") \
                or name.startswith("llvm.experimental.noalias") or name.startswith("llvm.stack"):
            return 0
        if name.startswith("llvm.eh.typeid.for"):
            return self.tid(ins.x["args"][0][1][1])
        if name == "llvm.trap":
            raise Violation("no-undefined-behaviour", "trap")
        if re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow", name):
            raise Unsupported(name)
        raise Unsupported(name)

    def ret(self, w, s, v):
        """immediate result of the pending call"""
        self.deliver(w, s, v)
        return None

    def invoke(self, w, s, target, args):
        """perform a call; the frame on top has .call set"""
        if isinstance(target, VF):
            return self.eng.vcall(self, w, s, target, args)
        if not isinstance(target, FN):
            return self.eng.call_pointer(self, w, s, target, args)
        name = target.name
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            n = args[2]
            if is_sym(n):
                raise Unsupported("symbolic memcpy")
            self.copy_mem(w, s, args[0], args[1], n)
            return self.ret(w, s, None)
        if name.startswith("llvm.memset"):
            n = args[2]
            p = w.resolve(args[0])
            o = self.obj(w, s, p.o, True)
            for k in [k for k in o.cells if p.off <= k < p.off + n]:
                del o.cells[k]
            for i in range(0, n - n % 8, 8):
                o.cells[p.off + i] = (args[1] * 0x0101010101010101, 8)
            for i in range(n - n % 8, n):
                o.cells[p.off + i] = (args[1], 1)
            return self.ret(w, s, None)
        r = self.eng.intercept(self, w, s, name, args)
        if r is not False:
            return r
        fn = self.mod.funcs.get(name)
        if fn is None:
            return self.eng.external(self, w, s, name, args)
        self.push_fn(w, s, fn, args)
        return None


def bool_of_cond(v):
    if undef(v):
        raise Violation("no-undefined-behaviour", "branch on uninitialised value")
    return bool_of(v)
