"""Parser for the textual LLVM-18 IR that clang++ emits for /repo's headers.

The IR is regenerated from /repo's working tree on every run; nothing of the
verified code is written by hand.  Function bodies are parsed lazily.
"""
import re, subprocess


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elts", "packed", "name")

    def __init__(self, k, n=0, elts=None, packed=False, name=None):
        self.k, self.n, self.elts, self.packed, self.name = k, n, elts, packed, name

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "named":
            return self.name
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.elts))
        if self.k == "array":
            return "[%d x %r]" % (self.n, self.elts)
        return self.k


PTR, VOID = Ty("ptr"), Ty("void")
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]


TOK = re.compile(
    r'\s*(?:(;.*)|("(?:[^"\\]|\\.)*")|(c"(?:[^"\\]|\\.)*")|([%@](?:"[^"]*"|[-\w$.]+))|'
    r'(![\w.]*)|(\.\.\.)|(-?\d+\.\d+(?:e[+-]?\d+)?)|(-?\d+)|([A-Za-z_][\w.]*)|(0x[0-9A-Fa-f]+)|(#\d+)|(.))')


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            break
        i = m.end()
        if m.group(1):
            break
        t = m.group(0).strip()
        if t:
            out.append(t)
    return out


PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "writable", "dead_on_unwind", "noalias",
               "nocapture", "readonly", "readnone", "returned", "immarg", "inreg", "nest", "writeonly",
               "noreturn", "nounwind", "willreturn", "inbounds", "volatile", "swiftself", "allocptr"}
LINKAGE = {"weak_odr", "linkonce_odr", "internal", "private", "external", "weak", "linkonce", "common",
           "available_externally", "extern_weak", "appending", "hidden", "protected", "default",
           "dso_local", "dso_preemptable", "unnamed_addr", "local_unnamed_addr", "thread_local",
           "externally_initialized"}


class Cursor:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise IRError("expected %s near %s" % (x, self.t[max(0, self.i - 5):self.i + 5]))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")

    def type(self):
        t = self.next()
        if t == "ptr":
            if self.accept("addrspace"):
                self.skip_parens()
            return PTR
        if t == "void":
            return VOID
        if t[0] == "i" and t[1:].isdigit():
            return INT(int(t[1:]))
        if t in ("float", "double", "metadata", "token", "label", "x86_fp80", "opaque", "half"):
            return Ty(t)
        if t[0] == "%":
            return Ty("named", name=t)
        if t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            return Ty("array", n, e)
        if t == "{":
            el = []
            if not self.accept("}"):
                while True:
                    el.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            return Ty("struct", 0, el)
        if t == "<":
            if self.peek() == "{":
                r = self.type()
                r = Ty("struct", 0, r.elts, True)
                self.expect(">")
                return r
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            return Ty("vector", n, e)
        raise IRError("type? %s" % t)

    def attrs(self):
        """skip parameter / return attributes; returns dict of interesting ones"""
        d = {}
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                if t == "noundef":
                    d[t] = True
                self.i += 1
            elif t in ("align",):
                self.i += 1
                if self.peek() == "(":
                    self.skip_parens()
                else:
                    self.i += 1
            elif t in ("dereferenceable", "dereferenceable_or_null", "memory", "captures", "range", "allocsize"):
                self.i += 1
                self.skip_parens()
            elif t in ("sret", "byval", "elementtype", "inalloca", "preallocated"):
                self.i += 1
                self.expect("(")
                d[t] = self.type()
                self.expect(")")
            else:
                return d

    # operands: ("reg",name) ("int",v) ("null",) ("glob",name) ("undef",) ("zero",)
    #           ("agg",[ (ty,op) ]) ("str",bytes) ("cexpr",opcode,...) ("md",text)
    def value(self, ty):
        t = self.next()
        if t[0] == "%":
            return ("reg", t)
        if t[0] == "@":
            return ("glob", t[1:].strip('"'))
        if t.lstrip("-").isdigit():
            return ("int", int(t))
        if t in ("true", "false"):
            return ("int", 1 if t == "true" else 0)
        if t in ("null", "none"):
            return ("null",)
        if t in ("undef", "poison"):
            return ("undef",)
        if t == "zeroinitializer":
            return ("zero",)
        if t.startswith('c"'):
            return ("str", t[2:-1])
        if t in ("getelementptr",):
            self.attrs()
            while self.peek() in ("inbounds", "inrange", "nuw", "nusw"):
                self.i += 1
                if self.peek() == "(" and self.t[self.i - 1] == "inrange":
                    self.skip_parens()
            self.expect("(")
            bty = self.type()
            self.expect(",")
            ops = []
            while True:
                self.accept("inrange")
                oty = self.type()
                ops.append((oty, self.value(oty)))
                if self.accept(")"):
                    break
                self.expect(",")
            return ("cgep", bty, ops)
        if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            fty = self.type()
            v = self.value(fty)
            self.expect("to")
            tty = self.type()
            self.expect(")")
            return ("ccast", t, fty, v, tty)
        if t in ("add", "sub", "mul"):
            while self.peek() in ("nsw", "nuw"):
                self.i += 1
            self.expect("(")
            a = self.tv()
            self.expect(",")
            b = self.tv()
            self.expect(")")
            return ("cbin", t, a, b)
        if t in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[t]
            packed = False
            if t == "<" and self.peek() == "{":
                self.next()
                packed, close = True, "}"
            el = []
            if not self.accept(close):
                while True:
                    el.append(self.tv())
                    if self.accept(close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return ("agg", el)
        if t == "metadata" or t[0] == "!":
            s = [t]
            while self.peek() not in (",", ")"):
                s.append(self.next())
            return ("md", " ".join(s))
        if t == "blockaddress" or t == "asm":
            raise IRError("unsupported value " + t)
        try:
            return ("float", float(t))
        except ValueError:
            raise IRError("value? %s near %s" % (t, self.t[max(0, self.i - 6):self.i + 6]))

    def tv(self):
        ty = self.type()
        self.attrs()
        return (ty, self.value(ty))


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "text", "x")

    def __init__(self, op, dst, ty, a, text, x=None):
        self.op, self.dst, self.ty, self.a, self.text, self.x = op, dst, ty, a, text, x


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self._parsed = False

    @property
    def dem(self):
        return self.mod.dem(self.name)

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        c = Cursor(tokenize(self.header), self.mod)
        c.expect("define")
        while c.peek() in LINKAGE or c.peek() in ("fastcc", "ccc"):
            c.next()
        c.attrs()
        self.ret = c.type()
        nm = c.next()
        c.expect("(")
        self.params = []
        self.sret = None
        if not c.accept(")"):
            while True:
                if c.accept("..."):
                    c.expect(")")
                    break
                ty = c.type()
                at = c.attrs()
                pn = c.next()
                self.params.append((pn, ty, at))
                if c.accept(")"):
                    break
                c.expect(",")
        self.blocks = {}
        self.order = []
        cur = None
        L = self.lines
        i = 0
        entry = None
        while i < len(L):
            ln = L[i]
            i += 1
            if not ln.strip():
                continue
            m = re.match(r'^([-\w$.]+|"[^"]+"):', ln)
            if m:
                cur = "%" + m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                # entry block label: number after params or explicit
                cur = "%" + str(len(self.params)) if all(
                    re.match(r'%\d+$', p[0]) for p in self.params) else "%entry"
                self.blocks[cur] = []
                self.order.append(cur)
            txt = ln.strip()
            # multi-line constructs
            if (re.match(r'(%\S+ = )?invoke ', txt)):
                while " unwind label " not in txt:
                    txt += " " + L[i].strip()
                    i += 1
            elif re.match(r'switch ', txt):
                while not txt.endswith("]"):
                    txt += " " + L[i].strip()
                    i += 1
            elif re.match(r'%\S+ = landingpad', txt):
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)\b', L[i]):
                    txt += " " + L[i].strip()
                    i += 1
            self.blocks[cur].append(txt)
        self.entry = self.order[0]
        for b in self.order:
            self.blocks[b] = [parse_instr(t, self.mod) for t in self.blocks[b]]
        self._loops()
        return self

    def _loops(self):
        """block -> True when the block lies on a CFG cycle"""
        succ = {}
        for b in self.order:
            s = []
            for ins in self.blocks[b][-1:]:
                if ins.op == "br":
                    s = ins.x
                elif ins.op == "switch":
                    s = [ins.x[0]] + [l for _, l in ins.x[1]]
                elif ins.op == "invoke":
                    s = list(ins.x["labels"])
            succ[b] = s
        reach = {}
        for b in self.order:
            seen, st = set(), list(succ[b])
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st.extend(succ.get(x, ()))
            reach[b] = seen
        self.inloop = {b: (b in reach[b]) for b in self.order}


def strip_md(t):
    # drop trailing metadata attachments
    return re.sub(r'(, ![\w.]+ ![\w.{}()]+)+\s*$', '', t)


def parse_call(c, dst, text, op):
    while c.peek() in ("tail", "musttail", "notail", "call", "invoke", "fastcc", "ccc", "nnan", "fast"):
        c.next()
    c.attrs()
    rty = c.type()
    if c.peek() == "(":  # explicit function type
        c.skip_parens()
    callee = c.value(PTR)
    c.expect("(")
    args = []
    if not c.accept(")"):
        while True:
            ty = c.type()
            if ty.k == "metadata":
                v = c.value(ty)
                args.append((ty, v, {}))
            else:
                at = c.attrs()
                args.append((ty, c.value(ty), at))
            if c.accept(")"):
                break
            c.expect(",")
    x = {"callee": callee, "args": args}
    if op == "invoke":
        while c.peek() != "to":
            c.next()
        c.expect("to")
        c.expect("label")
        n = c.next()
        c.expect("unwind")
        c.expect("label")
        u = c.next()
        x["labels"] = (n, u)
    return Instr(op, dst, rty, None, text, x)


def parse_instr(text, mod):
    t = strip_md(text)
    c = Cursor(tokenize(t), mod)
    dst = None
    if c.peek(1) == "=":
        dst = c.next()
        c.next()
    op = c.peek()
    if op in ("tail", "musttail", "notail", "call"):
        return parse_call(c, dst, text, "call")
    if op == "invoke":
        return parse_call(c, dst, text, "invoke")
    c.next()
    if op == "alloca":
        c.accept("inalloca")
        ty = c.type()
        cnt = None
        if c.accept(",") and c.peek() != "align":
            cnt = c.tv()
        return Instr(op, dst, ty, cnt, text)
    if op == "load":
        c.accept("atomic")
        c.accept("volatile")
        ty = c.type()
        c.expect(",")
        return Instr(op, dst, ty, c.tv(), text)
    if op == "store":
        c.accept("atomic")
        c.accept("volatile")
        v = c.tv()
        c.expect(",")
        return Instr(op, dst, v[0], (v, c.tv()), text)
    if op == "getelementptr":
        while c.peek() in ("inbounds", "nuw", "nusw", "inrange"):
            c.next()
        ty = c.type()
        ops = []
        while c.accept(","):
            ops.append(c.tv())
        return Instr(op, dst, ty, ops, text)
    if op == "br":
        if c.accept("label"):
            return Instr(op, None, None, None, text, [c.next()])
        ty = c.type()
        v = c.value(ty)
        c.expect(",")
        c.expect("label")
        a = c.next()
        c.expect(",")
        c.expect("label")
        b = c.next()
        return Instr(op, None, None, (ty, v), text, [a, b])
    if op == "switch":
        v = c.tv()
        c.expect(",")
        c.expect("label")
        d = c.next()
        c.expect("[")
        cases = []
        while not c.accept("]"):
            k = c.tv()
            c.expect(",")
            c.expect("label")
            cases.append((k[1][1], c.next()))
        return Instr(op, None, v[0], v, text, (d, cases))
    if op == "ret":
        if c.accept("void"):
            return Instr(op, None, VOID, None, text)
        return Instr(op, None, None, c.tv(), text)
    if op in ("icmp", "fcmp"):
        c.accept("samesign")
        p = c.next()
        ty = c.type()
        a = c.value(ty)
        c.expect(",")
        b = c.value(ty)
        return Instr(op, dst, ty, (a, b), text, p)
    if op == "phi":
        ty = c.type()
        inc = []
        while True:
            c.expect("[")
            v = c.value(ty)
            c.expect(",")
            inc.append((v, c.next()))
            c.expect("]")
            if not c.accept(","):
                break
        return Instr(op, dst, ty, inc, text)
    if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
        while c.peek() in ("nsw", "nuw", "exact", "disjoint"):
            c.next()
        ty = c.type()
        a = c.value(ty)
        c.expect(",")
        b = c.value(ty)
        return Instr(op, dst, ty, (a, b), text)
    if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "fptosi", "uitofp"):
        while c.peek() in ("nneg", "nuw", "nsw"):
            c.next()
        ty = c.type()
        v = c.value(ty)
        c.expect("to")
        return Instr(op, dst, c.type(), (ty, v), text)
    if op == "select":
        a = c.tv()
        c.expect(",")
        b = c.tv()
        c.expect(",")
        d = c.tv()
        return Instr(op, dst, b[0], (a, b, d), text)
    if op == "extractvalue":
        v = c.tv()
        idx = []
        while c.accept(","):
            idx.append(int(c.next()))
        return Instr(op, dst, None, v, text, idx)
    if op == "insertvalue":
        v = c.tv()
        c.expect(",")
        e = c.tv()
        idx = []
        while c.accept(","):
            idx.append(int(c.next()))
        return Instr(op, dst, v[0], (v, e), text, idx)
    if op == "landingpad":
        ty = c.type()
        cl = []
        cleanup = False
        while c.peek() is not None:
            k = c.next()
            if k == "cleanup":
                cleanup = True
            elif k == "catch":
                cl.append(("catch", c.tv()[1]))
            elif k == "filter":
                cl.append(("filter", c.tv()[1]))
        return Instr(op, dst, ty, cl, text, cleanup)
    if op == "resume":
        return Instr(op, None, None, c.tv(), text)
    if op == "unreachable":
        return Instr(op, None, None, None, text)
    if op == "atomicrmw":
        c.accept("volatile")
        k = c.next()
        p = c.tv()
        c.expect(",")
        v = c.tv()
        return Instr(op, dst, v[0], (p, v), text, k)
    if op == "cmpxchg":
        c.accept("weak")
        c.accept("volatile")
        p = c.tv()
        c.expect(",")
        a = c.tv()
        c.expect(",")
        b = c.tv()
        return Instr(op, dst, a[0], (p, a, b), text)
    if op == "fence":
        return Instr(op, None, None, None, text)
    if op == "freeze":
        v = c.tv()
        return Instr(op, dst, v[0], v, text)
    raise IRError("instr? " + text)


class Module:
    def __init__(self, path):
        self.path = path
        self.types, self.globals, self.funcs, self.aliases = {}, {}, {}, {}
        self.decls = set()
        self._tycache = {}
        self._gl = {}
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if ln.startswith("%"):
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)', ln)
                self.types[m.group(1)] = m.group(2)
            elif ln.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)', ln)
                nm = m.group(1).strip('"')
                self.globals[nm] = m.group(2)
                if re.search(r'\balias\b', m.group(2)[:80]):
                    am = re.search(r'alias .*?, ptr @("[^"]*"|[-\w$.]+)', m.group(2))
                    if am:
                        self.aliases[nm] = am.group(1).strip('"')
            elif ln.startswith("define"):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                nm = m.group(1).strip('"')
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                self.funcs[nm] = Function(self, nm, ln, body)
            elif ln.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
        self._dem = {}
        names = list(self.funcs) + list(self.decls) + list(self.globals)
        r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        for a, b in zip(names, r):
            self._dem[a] = b

    def dem(self, n):
        return self._dem.get(n, n)

    def parse_ty(self, s):
        return Cursor(tokenize(s), self).type()

    def resolve(self, ty):
        while ty.k == "named":
            n = ty.name
            if n not in self._tycache:
                if n not in self.types:
                    raise IRError("unknown type " + n)
                self._tycache[n] = self.parse_ty(self.types[n])
            ty = self._tycache[n]
        return ty

    def size_align(self, ty):
        ty = self.resolve(ty)
        if ty.k == "int":
            b = (ty.n + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16)
        if ty.k in ("ptr",):
            return 8, 8
        if ty.k == "double":
            return 8, 8
        if ty.k == "float":
            return 4, 4
        if ty.k == "array":
            s, a = self.size_align(ty.elts)
            return s * ty.n, a
        if ty.k == "struct":
            off, al = 0, 1
            for e in ty.elts:
                s, a = self.size_align(e)
                if ty.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if ty.k == "opaque":
            return 1, 1
        raise IRError("sizeof " + repr(ty))

    def size(self, ty):
        return self.size_align(ty)[0]

    def field_off(self, ty, idx):
        ty = self.resolve(ty)
        if ty.k == "array":
            return self.size(ty.elts) * idx, ty.elts
        off = 0
        for j, e in enumerate(ty.elts):
            s, a = self.size_align(e)
            if ty.packed:
                a = 1
            off = (off + a - 1) // a * a
            if j == idx:
                return off, e
            off += s
        raise IRError("field index")

    def global_init(self, nm):
        """-> (ty, value, is_const) or None for external"""
        if nm in self._gl:
            return self._gl[nm]
        txt = self.globals.get(nm)
        r = None
        if txt is not None:
            c = Cursor(tokenize(strip_md(txt)), self)
            ext = False
            while c.peek() not in ("global", "constant", "alias", None):
                x = c.next()
                if x in ("external", "extern_weak"):
                    ext = True
                if x == "thread_local" and c.peek() == "(":
                    c.skip_parens()
            k = c.next()
            ty = c.type()
            if not ext and k != "alias":
                r = (ty, c.value(ty), k == "constant")
            else:
                r = (ty, None, k == "constant")
        self._gl[nm] = r
        return r

    def vtable(self, nm):
        """list of symbol names/ints of the first array of a vtable global"""
        g = self.global_init(nm)
        if not g or g[1] is None:
            return None
        out = []
        for (ty, v) in g[1][1]:
            row = []
            for (_, e) in v[1]:
                row.append(e)
            out.append(row)
        return out


if __name__ == "__main__":
    import sys, time
    t = time.time()
    m = Module(sys.argv[1])
    n = 0
    for f in m.funcs.values():
        f.parse()
        n += sum(len(b) for b in f.blocks.values())
    for g in m.globals:
        m.global_init(g)
    print(len(m.funcs), n, time.time() - t)
