"""Charts chosen at random; the thorough tier instantiates the library with them as well."""
import random
from chartgen import Chart, St

LIMIT = 24      # configurations
RECORDS = 200   # configurations times contents of the history records


def configurations(c, n):
    """number of complete configurations below a state; a region may also be empty, because its state was terminated"""
    k = 1
    for r in range(len(c.states[n].init)):
        k *= 1 + sum(configurations(c, s) for s in c.children(n) if c.states[s].region == r)
    return k


def records(c):
    """number of possible contents of the history records"""
    k = 1
    for h in c.states.values():
        for r in range(len(h.init)):
            if h.hist in ("sh", "full"):
                k *= 1 + sum(1 for s in c.children(h.name) if c.states[s].region == r)
            if h.hist in ("dh", "full"):
                k *= 1 + sum(1 for s in c.states.values() if s.leaf and s.name != h.name and h.name in c.ctxs(s.name)
                             and c.states[c.below(s.name, h.name)].region == r)
    return k


def draw(rnd, name, relaxed):
    states, free = [], iter(list("ABCDFGHIJKLNOP") + ["Y%d" % i for i in range(500)])

    def add(parent, region, depth, deep):
        s = St(next(free), parent, region, kind=rnd.choice(["simple", "simple", "state"]))
        states.append(s)
        if depth < 3 and rnd.random() < (0.75 if depth == 0 else 0.45):
            regions = 1 if deep else rnd.choice([1, 1, 1, 2, 2, 3])
            s.hist = rnd.choice(["", "", "sh", "dh", "full"])
            for r in range(regions):
                inner = [add(s.name, r, depth + 1, deep or s.hist in ("dh", "full")) for _ in range(rnd.choice([1, 2, 2]) if regions < 3 else rnd.choice([1, 1, 2]))]
                kinds = ["n"] + ["sh"] * (s.hist in ("sh", "full")) + ["dh"] * (s.hist in ("dh", "full"))
                s.init.append((rnd.choice(kinds), rnd.choice(inner).name))
        return s
    tops = [add(None, 0, 0, False) for _ in range(2)]
    c = Chart(name, rnd.choice(tops).name, states, ["E1", "E2", "E3"])

    def destinations(n):
        out = []
        for d in c.order:
            x = c.lca(n, d)
            if x != "M" and c.states[c.below(n, x)].region != c.states[c.below(d, x)].region:
                continue
            h = c.states[c.states[d].parent].hist if c.states[d].parent else ""
            out += [d] + [("sh", d)] * (h in ("sh", "full")) + [("dh", d)] * (h in ("dh", "full"))
        return out

    def transition(n):
        d = rnd.choice(destinations(n))
        x = c.lca(n, d)
        near = [n] + c.ctxs(n) if relaxed else [x] + (c.ctxs(x) if x != "M" else [])
        return (d,) + ((rnd.choice(near),) if rnd.random() < 0.5 else ())
    for s in states:
        for e in rnd.sample(["E1", "E2", "E3", "EXC", "ANY"], 5):
            if rnd.random() > (0.4 if e[0] == "E" and e != "EXC" else 0.15):
                continue
            k = rnd.choice(["tr", "tr", "tr", "isr", "def", "term", "cust"])
            if k == "tr":
                s.reactions.append(("tr", e) + transition(s.name))
            elif k == "isr":
                s.reactions.append(("isr", e) + ((rnd.choice([s.name] + c.ctxs(s.name)),) if rnd.random() < 0.5 else ()))
            elif k == "cust":
                s.reactions.append(("cust", e, [rnd.choice(["fwd", "dis", "def", "term"]), ("tr",) + transition(s.name)]))
            else:
                s.reactions.append((k, e))
    return c


def chart(name):
    """R<seed>: any chart; Q<seed>: the actions of transitions may also run in contexts that are left (relaxed transition context)"""
    for i in range(1000):
        c = draw(random.Random("%s/%d" % (name[1:], i)), name, name[0] == "Q")
        n = sum(configurations(c, t) for t in c.children("M"))
        if 4 <= len(c.order) <= 10 and 4 <= n <= LIMIT and n * records(c) <= RECORDS:
            return c
