"""The contracts (contracts/*.py) executed as ordinary programs: what the drivers of inst/driver.hpp
must print.  Used only to find a concrete failing input once an obligation has failed."""
import os, sys
import chartgen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MASK = (1 << 64) - 1
NO, FORWARD, DISCARD, DEFER = 0, 1, 2, 3
TRANSITION, IN_STATE, DEFERRAL, TERMINATION, CUSTOM, FORWARD_IT, DISCARD_IT = range(1, 8)
KIND = {"tr": TRANSITION, "isr": IN_STATE, "def": DEFERRAL, "term": TERMINATION, "cust": CUSTOM}
HK = {"n": 0, "sh": 1, "dh": 2}


class Fault(Exception):
    pass


class BadAlloc(Exception):
    pass


class BadCast(Exception):
    pass


class Endless(Exception):
    pass


class Obj:
    id = None


def cast(f):
    return f


class Oracle:
    def __init__(self, chart, translate=False, relaxed=False, groups=()):
        self.chart = chart
        self.acc = chartgen.accessors(chart, groups)
        self.clears = [a for a in self.acc if a[0] == "hist"]
        self.g = self.builtins()
        self.g.update(NO=NO, FORWARD=FORWARD, DISCARD=DISCARD, DEFER=DEFER, TRANSLATE=int(translate), RELAXED=int(relaxed), LOOK=int("look" in groups),
                      TRANSITION=TRANSITION, IN_STATE=IN_STATE, DEFERRAL=DEFERRAL, TERMINATION=TERMINATION, CUSTOM=CUSTOM,
                      FORWARD_IT=FORWARD_IT, INITIAL=chart.initial, null=None)
        txt = open(VERIF + "/contracts/machine.py").read() + open(VERIF + "/contracts/charts.py").read() + \
            open(VERIF + "/contracts/access.py").read()
        if relaxed:
            txt += open(VERIF + "/contracts/relaxed.py").read()
        exec(compile(txt, "contracts", "exec"), self.g)

    # ---------------------------------------------------------------- the world
    def rnd(self):
        self.rng = (self.rng * 6364136223846793005 + 1442695040888963407) & MASK
        return self.rng >> 33

    def say(self, s):
        self.out.append(s)
        if len(self.out) > 20000:
            raise Endless()

    def event(self, n, heap):
        e = Obj()
        self.serials += 1
        e.name, e.serial, e.count, e.heap = n, self.serials, 0, heap
        return e

    def evn(self, e):
        return "none" if e is None else "exception" if e.name == "EXC" else str(e.serial)

    def act(self, s):
        self.say(s + " during " + self.evn(self.M.trig))
        if self.posts > 0:
            if self.rnd() % 100 < self.ppost:
                self.posts -= 1
                self.post()
        if self.throws > 0:
            if self.rnd() % 100 < self.pthrow:
                self.throws -= 1
                self.faults += 1
                self.say("  throws %d" % self.faults)
                raise Fault(self.faults)

    def post(self):
        n = len(self.chart.events)
        i = self.rnd() % (2 * n)
        e = self.event(self.chart.events[i % n], i < n)
        if i < n:
            self.say("  post %s %d" % (e.name, e.serial))
            e.count += 1                    # the poster's own reference
            self.g["post_event_impl"](e)
            if e.serial % 5 == 0:
                self.say("  and again")
                self.g["post_event_impl"](e)
            self.g["release"](e)
        else:
            self.say("  post %s by reference %d" % (e.name, e.serial))
            self.g["post_event_ref"](e)

    def machine(self):
        m = Obj()
        m.name = "M"
        m.queue, m.deferred, m.states, m.end = [], [], [], 0
        m.outermost = m.ous = m.trig = None
        m.ico, m.full, m.shallow, m.deep = False, True, {}, {}
        self.M = self.g["M"] = m
        G = self.g["G"] = Obj()
        G.pin = G.pin2 = None

    # ---------------------------------------------------------------- builtins of the specification language
    def builtins(self):
        me, ch = self, self.chart
        st = lambda p: ch.states[p.name]

        def inside(p, t, c):
            while t[2] is not None and p is not c and p.name != "M":
                if p.name == t[2]:
                    return p
                p = p.ctx
            return None

        def clone(e):
            n = me.event(e.name, True)
            me.say("clone %d" % e.serial)
            return n

        def pop_front(q):
            return q.pop(0)

        def push_back(q, e):
            if e.count == 0:
                e.count = 1             # a fresh copy
            q.append(e)

        def splice_front(q, d):
            q[:0] = d
            del d[:]

        def drop(e):
            me.g["release"](e)

        def clear_events(q):
            while q:
                drop(q.pop(0))

        def delete_event(e):
            me.say("delete %d" % e.serial)

        def current():
            return sys.exc_info()[1]

        def anc(p, n):
            while p.name != n:
                p = p.ctx
            return p

        def new_state(n):
            me.say("allocate")
            if me.throws > 0 and me.rnd() % 100 < me.palloc:
                me.throws -= 1
                me.say("  fails")
                raise BadAlloc()
            me.objects += 1
            p = Obj()
            p.name = n
            return p

        def deallocate(p):
            me.objects -= 1
            me.say("deallocate")

        def init_state_fields(p):
            p.ctx, p.deferred = None, False
            p.inner = [None] * len(st(p).init)

        def set_inner(c, i, p):
            c.inner[i] = p

        def new_exc():
            e = Obj()
            e.name = "EXC"
            return e

        def cb_react(p, e):
            me.act("react %s %s" % (p.name, me.evn(e)))
            return me.rnd() % 6

        def cell(l, p):
            l.append(p)

        def reaction_of(p, i):
            return st(p).reactions[i]

        def tgt(d, a):
            d = ch.dest(d)
            return (d[0], d[1], a)

        def choice_of(p, i, j):
            c = reaction_of(p, i)[2]
            return c[min(j, len(c) - 1)]

        def target(p, i):
            r = reaction_of(p, i)
            return tgt(r[2], r[3] if len(r) > 3 else None)

        def choice(p, i, j):
            c = choice_of(p, i, j)
            return {"fwd": FORWARD_IT, "dis": DISCARD_IT, "def": DEFERRAL, "term": TERMINATION}[c] if isinstance(c, str) else TRANSITION

        def choice_target(p, i, j):
            c = choice_of(p, i, j)
            return tgt(c[1], c[2] if len(c) > 2 else None)

        def isr_ctx(p, i):
            r = reaction_of(p, i)
            return anc(p, r[2]) if len(r) > 2 and r[2] else None

        def slot_of(n):
            return (ch.states[n].parent or "M", ch.states[n].region)

        g = dict(
            clone=clone, pop_front=pop_front, push_back=push_back, splice_front=splice_front, clear_events=clear_events,
            delete_event=delete_event, current=current, empty=lambda q: not q, size=len, type_of=lambda e: None,
            clear_map=lambda m: m.clear(), same=lambda a, b: a is b, append_cell=cell,
            hist=lambda m, k: m.get(k), set_hist=lambda m, k, v: m.__setitem__(k, v),
            new_exception_thrown=new_exc, drop_exception_thrown=lambda e: None,
            cb_ctor=lambda p: me.act("enter " + p.name), cb_dtor=lambda p: me.say("destroy " + p.name),
            cb_exit=lambda p: me.act("exit " + p.name), cb_react=cb_react,
            cb_action=lambda p, e: me.act("action %s %s" % (p.name, me.evn(e))),
            cb_unconsumed_event=lambda m, e: me.act("unconsumed " + me.evn(e)),
            new_state=new_state, deallocate=deallocate, init_state_fields=init_state_fields, set_inner=set_inner,
            is_state=lambda p: p is not None and p is not me.M, state_or_null=lambda p: None if p is me.M else p,
            is_leaf=lambda p: st(p).leaf, regions=lambda p: len(st(p).init), region=lambda p: st(p).region,
            inner=lambda p, i: p.inner[i], childless=lambda p: not any(p.inner),
            first_active=lambda p: next(i for i, x in enumerate(p.inner) if x), position=lambda l, p: l.index(p),
            stores_shallow=lambda p: st(p).parent is not None and ch.states[st(p).parent].hist in ("sh", "full"),
            has_deep=lambda p: st(p).hist in ("dh", "full"), slot=lambda p: slot_of(p.name), slot_of=slot_of,
            shallow_value=lambda p: p.name, deep_value=lambda h, p: p.name, stored_state=lambda v: v,
            knows_context_early=lambda n: ch.states[n].kind == "state",
            in_last_region=lambda p: st(p).region == (len(ch.states[st(p).parent].init) if st(p).parent else 1) - 1,
            on_way=lambda S, D, i: ch.states[ch.below(D, S)].region == i, next_to=lambda S, D: ch.below(D, S),
            first_towards=lambda c, D: ch.below(D, c.name), initial=lambda S, i: ch.states[S].init[i][1],
            initial_kind=lambda S, i: HK[ch.states[S].init[i][0]], target=target, choice=choice, choice_target=choice_target,
            lca=lambda p, t: anc(p, ch.lca(p.name, (t[0], t[1]))), below=lambda p, c: anc(p, ch.below(p.name, c.name)),
            has_action=lambda t: t[2] is not None, action_context=lambda c, t: anc(c, t[2]), dest=lambda t: t[1],
            dest_kind=lambda t: HK[t[0]], reactions=lambda p: len(st(p).reactions), kind=lambda p, i: KIND[reaction_of(p, i)[0]],
            triggered=lambda p, i, e: reaction_of(p, i)[1] in ("ANY", e.name), in_state_context=isr_ctx,
            class_of=lambda p: p.name, context_named=lambda p, n: anc(p, n), offers=lambda p, F: st(p).base == F, face_of=lambda p, F: p, bad_cast=BadCast,
            cb_visit=lambda p: setattr(me, "visited", me.visited + " " + p.name),
            cb_look=lambda p, q: me.say("look from %s: %s" % (p.name, q.name)), inside=inside)
        return g

    # ---------------------------------------------------------------- scripts
    def step(self, op):
        self.posts, self.throws = 4, 2
        g = self.g
        try:
            if self.M.outermost is None and op >= 60:
                op = 0
            if op < 12:
                self.say("> initiate")
                g["initiate"]()
            elif op < 18:
                self.say("> terminate")
                g["terminate"]()
            elif op < 22:
                self.say("> destroy")
                self.throws = self.posts = 0
                self.destroy()
                self.machine()
            elif self.clears and 30 <= op < 40:
                self.say("> clear history")
                _, name, recv, _, spec, args = self.clears[self.rnd() % len(self.clears)]
                self.say("  " + name[4:])
                rs = self.receivers(recv)
                if rs is not None:
                    k = (args[0][1], args[0][2])
                    g[spec](*(rs + [k]))
            elif op < 30:
                self.say("> post")
                self.post()
            else:
                self.say("> process")
                n = len(self.chart.events)
                heap = self.serials % 4 == 0
                e = self.event(self.chart.events[self.rnd() % n], heap)
                self.say("  process %s %d" % (e.name, e.serial))
                e.count += heap
                try:
                    g["process_event"](e)
                finally:
                    if heap:
                        g["release"](e)
            self.say("returns")
        except Fault as f:
            self.say("throws %d" % f.args[0])
        except BadAlloc:
            self.say("throws bad_alloc")
        m = self.M
        s = "active" if m.outermost else "terminated"
        act = set()
        for p in m.states[:m.end]:
            sep = " "
            while p is not m:
                s += sep + p.name
                sep = "<"
                act.add(p.name)
                p = p.ctx
        cs = "".join(" %s %s" % (n, n) for n in self.chart.order if n in act)
        self.say("%s objects %d during %s casts%s" % (s, self.objects, self.evn(m.trig), cs))
        for grp, name, recv, _, spec, args in self.acc:
            rs = self.receivers(recv)
            if grp in ("hist", "post") or rs is None:   # those change the machine: driven by name elsewhere
                continue
            self.visited = ""
            try:
                v = g[spec](*(rs + [a[1] for a in args]))
                v = v if isinstance(v, str) else "yes" if v is True else "no" if v is False else "null" if v is None else v.name
            except BadCast:
                v = "bad_cast"
            self.say("  %s = %s" % (name[4:], self.visited if spec.startswith("visit") else v))

    def receivers(self, recv):
        "arguments standing for the object that is asked, or None if there is no such object"
        recv = recv.replace("const ", "")
        if recv == "M":
            return []
        if recv in self.chart.events:
            return [None]
        for p in self.M.states[:self.M.end]:
            while p is not self.M:
                if p.name == recv:
                    return [p]
                p = p.ctx
        return None

    def destroy(self):
        "the destructor: no exit actions; pending events go too"
        self.g["terminate_all"](0)

    def run(self, seed):
        """(trace, precondition met)"""
        self.out = []
        self.say("== %d" % seed)
        self.rng = 0x9E3779B97F4A7C15 * (seed + 1) & MASK
        self.rnd()
        self.faults = self.serials = self.objects = 0
        prof = self.rnd() % 4
        self.ppost = 0 if prof == 0 else 12 * prof
        self.pthrow = 0 if prof < 2 else 4 * prof
        self.palloc = 0 if prof < 2 else 3 * prof
        self.machine()
        n = 3 + self.rnd() % 12
        try:
            self.step(0)
            for i in range(n):
                self.step(self.rnd() % 100)
            self.throws = self.posts = 0
            self.say("> destroy")
            self.destroy()
            self.say("end objects %d leaked blocks 0" % self.objects)
        except (AssertionError, Endless) as x:
            return self.out, False
        return self.out, True
