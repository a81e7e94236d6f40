"""Specification language: contracts are written as restricted Python functions
(parsed with `ast`, never executed as Python) over named fields of the real
objects.  They run as frames on the `spec` side (and, for contracts assumed at
call sites, on the `body` side)."""
import ast, z3
from core import *
from exec import Op, Exc, bool_of


class Ref(tuple):                 # reference to a field location (containers)
    __slots__ = ()

    def __new__(cls, o, off, kind):
        return tuple.__new__(cls, ("REF", o, off, kind))


class Code:
    def __init__(self, name, params, ins, handlers, src, defaults):
        self.name, self.params, self.ins, self.handlers, self.src = name, params, ins, handlers, src
        self.defaults = defaults


class Compiler:
    def __init__(self, fdef, src):
        self.ins, self.handlers = [], []
        self.loops = []
        self.fin = []              # enclosing finally bodies
        self.tmp = 0
        for st in fdef.body:
            self.stmt(st)
        self.emit(("ret", None))
        self.code = Code(fdef.name, [a.arg for a in fdef.args.args], self.ins, self.handlers, src,
                         [d for d in fdef.args.defaults])

    def emit(self, i):
        self.ins.append(i)
        return len(self.ins) - 1

    def patch(self, at, *v):
        self.ins[at] = v

    def iscall(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in PURE

    def rhs(self, e):
        """emit effectful call if needed; returns expr ast"""
        if self.iscall(e):
            self.tmp += 1
            nm = "$t%d" % self.tmp
            args = [self.rhs(a) for a in e.args]
            self.emit(("call", nm, e.func.id, args))
            return ast.Name(id=nm)
        return e

    def stmt(self, st):
        t = type(st)
        if t is ast.Expr:
            if isinstance(st.value, ast.Constant):
                return
            if self.iscall(st.value):
                self.emit(("call", None, st.value.func.id, [self.rhs(a) for a in st.value.args]))
                return
            raise SyntaxError("expression statement: " + ast.dump(st))
        if t is ast.Assign:
            self.emit(("set", st.targets[0], self.rhs(st.value)))
        elif t is ast.AugAssign:
            self.emit(("set", st.target, ast.BinOp(st.target, st.op, self.rhs(st.value))))
        elif t is ast.If:
            j = self.emit(("jmpf", self.rhs(st.test), None))
            for x in st.body:
                self.stmt(x)
            if st.orelse:
                k = self.emit(("jmp", None))
                self.patch(j, "jmpf", self.ins[j][1], len(self.ins))
                for x in st.orelse:
                    self.stmt(x)
                self.patch(k, "jmp", len(self.ins))
            else:
                self.patch(j, "jmpf", self.ins[j][1], len(self.ins))
        elif t is ast.While:
            top = len(self.ins)
            self.emit(("loop",))
            j = self.emit(("jmpf", self.rhs(st.test), None))
            self.loops.append(([], [], len(self.fin)))
            for x in st.body:
                self.stmt(x)
            br, co, _ = self.loops.pop()
            for c in co:
                self.patch(c, "jmp", top)
            self.emit(("jmp", top))
            self.patch(j, "jmpf", self.ins[j][1], len(self.ins))
            for b in br:
                self.patch(b, "jmp", len(self.ins))
        elif t is ast.Break:
            self.loops[-1][0].append(self.emit(("jmp", None)))
        elif t is ast.Continue:
            self.loops[-1][1].append(self.emit(("jmp", None)))
        elif t is ast.Return:
            v = self.rhs(st.value) if st.value is not None else None
            if self.fin:
                if v is not None:
                    self.emit(("set", ast.Name(id="$ret"), v))
                    v = ast.Name(id="$ret")
                saved = self.fin
                for k in range(len(saved) - 1, -1, -1):
                    if saved[k] is not None:
                        self.fin = saved[:k]
                        for x in saved[k]:
                            self.stmt(x)
                self.fin = saved
            self.emit(("ret", v))
        elif t is ast.Raise:
            if st.exc is None:
                self.emit(("raise", None))
            else:
                self.emit(("raise", st.exc))
        elif t is ast.Try:
            a = len(self.ins)
            if st.finalbody:
                self.fin.append(st.finalbody)
            if st.handlers:
                self.fin.append(None)
            for x in st.body:
                self.stmt(x)
            if st.handlers:
                self.fin.pop()
            b = len(self.ins)
            ends = []
            if st.handlers:
                ends.append(self.emit(("jmp", None)))
                h = len(self.ins)
                self.handlers.append((a, b, h))
                self.emit(("enter",))
                for x in st.handlers[0].body:
                    self.stmt(x)
                self.emit(("leave",))
                for e in ends:
                    self.patch(e, "jmp", len(self.ins))
            b2 = len(self.ins)
            if st.finalbody:
                self.fin.pop()
                for x in st.finalbody:
                    self.stmt(x)
                e = self.emit(("jmp", None))
                h = len(self.ins)
                self.handlers.append((a, b2, h))
                self.emit(("enter",))
                for x in st.finalbody:
                    self.stmt(x)
                self.emit(("raise", None))
                self.patch(e, "jmp", len(self.ins))
        elif t is ast.Pass:
            pass
        elif t is ast.Assert:
            self.emit(("check", self.rhs(st.test), st.msg.value if st.msg else ast.unparse(st.test)))
        else:
            raise SyntaxError("spec statement " + t.__name__)


PURE = {}
EFFECT = {}


def pure(f):
    assert f.__name__.rstrip("_") not in PURE, f.__name__
    PURE[f.__name__.rstrip("_")] = f
    return f


def effect(f):
    assert f.__name__.rstrip("_") not in EFFECT, f.__name__
    EFFECT[f.__name__.rstrip("_")] = f
    return f


class SpecFrame:
    spec = True
    __slots__ = ("code", "pc", "loc", "dst", "post", "call", "env", "exc", "fresh")

    def __init__(self, code, args, env):
        self.code, self.pc, self.loc, self.env = code, 0, {}, env
        for i, p in enumerate(code.params):
            if i < len(args):
                self.loc[p] = args[i]
            else:
                d = code.defaults[i - len(code.params)]
                self.loc[p] = d.value if not isinstance(d.value, bool) else int(d.value)
        self.dst, self.post, self.call, self.exc = None, None, None, ()

    def clone(self):
        n = SpecFrame.__new__(SpecFrame)
        n.code, n.pc, n.loc, n.env = self.code, self.pc, dict(self.loc), self.env
        n.dst, n.post, n.call, n.exc = self.dst, self.post, self.call, self.exc
        return n

    # results / exceptions delivered by callees
    def deliver(self, ex, w, s, v):
        if self.dst is not None:
            self.loc[self.dst] = v
        self.dst = None
        self.call = None
        self.pc += 1

    def catch(self, ex, w, s, exc):
        for a, b, h in self.code.handlers:       # inner handlers are appended first
            if a <= self.pc < b:
                self.pc = h
                self.exc = self.exc + (exc,)
                self.dst = None
                self.call = None
                return True
        return False

    # ------------------------------------------------------------ expressions
    def ev(self, ex, w, s, e):
        t = type(e)
        if t is ast.Name:
            if e.id in self.loc:
                v = self.loc[e.id]
                return w.norm(v) if isinstance(v, tuple) else v
            if e.id in self.env:
                return self.env[e.id]
            if e.id == "null":
                return NULL
            raise NameError("spec name %s in %s" % (e.id, self.code.name))
        if t is ast.Constant:
            if isinstance(e.value, bool):
                return int(e.value)
            if e.value is None:
                return NULL
            return e.value
        if t is ast.Attribute:
            o = self.ev(ex, w, s, e.value)
            return self.field(ex, w, s, o, e.attr)
        if t is ast.Compare:
            a = self.ev(ex, w, s, e.left)
            b = self.ev(ex, w, s, e.comparators[0])
            return compare(ex, w, s, type(e.ops[0]), a, b)
        if t is ast.BoolOp:
            isand = isinstance(e.op, ast.And)
            for x in e.values:
                v = w.decide(bool_of(self.ev(ex, w, s, x)))
                if v != isand:
                    return int(v)
            return int(isand)
        if t is ast.UnaryOp:
            v = self.ev(ex, w, s, e.operand)
            if isinstance(e.op, ast.Not):
                b = bool_of(v) if not isinstance(v, tuple) else not w.ptr_eq(v, NULL)
                return z3.Not(b) if is_sym(b) else int(not b)
            if isinstance(e.op, ast.USub):
                return -v
        if t is ast.BinOp:
            a, b = self.ev(ex, w, s, e.left), self.ev(ex, w, s, e.right)
            r = a + b if isinstance(e.op, ast.Add) else a - b
            return z3.simplify(r) if is_sym(r) else r
        if t is ast.IfExp:
            c = w.decide(bool_of(self.ev(ex, w, s, e.test)))
            return self.ev(ex, w, s, e.body if c else e.orelse)
        if t is ast.Subscript:
            a = self.ev(ex, w, s, e.value)
            i = self.ev(ex, w, s, e.slice)
            if isinstance(a, Ref) and a[3] == "leaflist":
                return w.norm(ex.leaf_read(w, s, (a[1], a[2]), i))
            if isinstance(a, Ref) and isinstance(a[3], tuple) and a[3][0] == "arr":
                v = ex.load(w, s, P(a[1], a[2] + 8 * i), 8)
                return w.norm(v) if isinstance(v, tuple) else v
            if isinstance(a, (list, tuple)):
                return a[i]
        if t is ast.Call:
            f = PURE.get(e.func.id)
            if f is None:
                raise NameError("not a pure builtin: " + e.func.id)
            return f(ex, w, s, self, *[self.ev(ex, w, s, a) for a in e.args])
        raise SyntaxError("spec expression " + ast.unparse(e))

    def field(self, ex, w, s, o, name):
        o = w.resolve(o)
        if not isinstance(o, P) or o.o == 0:
            raise Violation("spec", "field %s of null in %s" % (name, self.code.name))
        ob = ex.obj(w, s, o.o)
        off, kind = ex.eng.fieldof(ob.cls, name)
        off += o.off
        if kind in ("evlist", "leaflist", "map", "obj", "set") or isinstance(kind, tuple) and kind[0] == "arr":
            return Ref(o.o, off, kind)
        v = ex.load(w, s, P(o.o, off), KSIZE.get(kind, 8) if isinstance(kind, str) else 8)
        if kind == "bool":
            b = bool_of(v) if not isinstance(v, tuple) else v
            return b if is_sym(b) else int(b)
        if kind == "it":
            if not isinstance(v, IT):
                raise Unsupported("iterator field holds %r" % (v,))
            return v.idx
        if isinstance(v, int) and not isinstance(kind, str):
            return NULL if v == 0 else v
        return w.norm(v) if isinstance(v, tuple) else v

    def setfield(self, ex, w, s, o, name, v):
        o = w.resolve(o)
        ob = ex.obj(w, s, o.o)
        off, kind = ex.eng.fieldof(ob.cls, name)
        off += o.off
        if kind == "it":
            old = ex.load(w, s, P(o.o, off), 8)
            v = IT(ex.eng.listloc(w, ob, old), v)
        size = KSIZE.get(kind, 8) if isinstance(kind, str) else 8
        ex.store(w, s, P(o.o, off), v, size)

    # ------------------------------------------------------------ step
    def step(self, ex, w, s):
        i = self.code.ins[self.pc]
        k = i[0]
        if k == "set":
            v = self.ev(ex, w, s, i[2])
            t = i[1]
            if isinstance(t, ast.Name):
                self.loc[t.id] = v
            elif isinstance(t, ast.Attribute):
                self.setfield(ex, w, s, self.ev(ex, w, s, t.value), t.attr, v)
            elif isinstance(t, ast.Subscript):
                a = self.ev(ex, w, s, t.value)
                ix = self.ev(ex, w, s, t.slice)
                if a[3] == "leaflist":
                    ex.leaf_write(w, s, (a[1], a[2]), ix, v)
                else:
                    ex.store(w, s, P(a[1], a[2] + 8 * ix), v, 8)
            else:
                raise SyntaxError("target")
            self.pc += 1
        elif k == "jmpf":
            v = self.ev(ex, w, s, i[1])
            c = (not w.ptr_eq(v, NULL)) if isinstance(v, tuple) else w.decide(bool_of(v))
            self.pc = self.pc + 1 if c else i[2]
        elif k == "jmp":
            self.pc = i[1]
        elif k == "loop":
            self.pc += 1
        elif k == "ret":
            v = None if i[1] is None else self.ev(ex, w, s, i[1])
            ex.do_return(w, s, v)
        elif k == "enter":
            self.pc += 1
        elif k == "leave":
            self.exc = self.exc[:-1]
            self.pc += 1
        elif k == "raise":
            if i[1] is None:
                e = self.exc[-1] if self.exc else (s.caught[-1] if s.caught else None)
            else:
                e = self.ev(ex, w, s, i[1])
            if e is None:
                raise Violation("spec", "rethrow without exception")
            if self.exc and i[1] is None:
                self.exc = self.exc[:-1]
            # search an enclosing handler of this frame first (pc is outside the try range)
            s.flying = e
        elif k == "check":
            v = self.ev(ex, w, s, i[1])
            ex.eng.obligation(w, "assert: " + i[2], v)
            self.pc += 1
        elif k == "call":
            args = [self.ev(ex, w, s, a) for a in i[3]]
            self.dst = i[1]
            self.call = i
            try:
                return ex.eng.spec_call(ex, w, s, self, i[2], args)
            except Fork:
                self.dst = None
                self.call = None
                raise
        else:
            raise SyntaxError(k)
        return None


KSIZE = {"bool": 1, "i8": 1, "i32": 4, "i64": 8, "it": 8, "fn": 8, "id": 8, "vt": 8}


def compare(ex, w, s, op, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if a == 0 and not isinstance(a, tuple):
            a = NULL
        if b == 0 and not isinstance(b, tuple):
            b = NULL
        r = w.ptr_eq(a, b)
        return int(r if op is ast.Eq else not r)
    if is_sym(a) and z3.is_bool(a) or is_sym(b) and z3.is_bool(b):
        A, B = bool_of(a), bool_of(b)
        A = A if is_sym(A) else z3.BoolVal(A)
        B = B if is_sym(B) else z3.BoolVal(B)
        return z3.simplify(A == B if op is ast.Eq else A != B)
    r = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
         ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[op]()
    return r if is_sym(r) else int(r)


def compile_specs(text):
    out = {}
    for n in ast.parse(text).body:
        if isinstance(n, ast.FunctionDef):
            out[n.name] = Compiler(n, ast.get_source_segment(text, n)).code
    return out
