"""Runs units in parallel: one process per unit, one forked worker per task, at most JOBS at a time."""
import os, sys, time, pickle, traceback, multiprocessing as mp, threading
from core import Violation

JOBS = int(os.environ.get("VC_JOBS", "8"))


def plain(v):
    return {"obligation": getattr(v, "ob", "verifier-reach"), "message": getattr(v, "msg", str(v)),
            "mode": repr(getattr(v, "mode", "")), "where": getattr(v, "where", []),
            "trail": getattr(v, "trail", [])[-40:], "model": str(getattr(v, "model", "") or ""),
            "undecided": bool(getattr(v, "undecided", False)) or getattr(v, "ob", "") in ("verifier-reach", "resources")}


def pack(r):
    return {"name": r.name, "viol": [plain(v) for v in r.viol], "obl": r.obl, "paths": r.paths, "queries": r.queries,
            "qtime": r.qtime, "steps": r.steps, "wall": r.wall, "reached": sorted(r.reached), "fns": r.fns,
            "assumed": r.assumed, "ops": r.ops, "runs": 1}


def merge(a, b):
    for k in ("viol",):
        a[k] = a[k] + b[k]
    for k, (n, q) in b["obl"].items():
        x = a["obl"].setdefault(k, [0, 0])
        a["obl"][k] = [x[0] + n, x[1] + q]
    for k in ("paths", "queries", "qtime", "steps", "wall", "runs"):
        a[k] += b[k]
    a["reached"] = sorted(set(a["reached"]) | set(b["reached"]))
    for d in ("fns", "assumed", "ops"):
        for k, n in b[d].items():
            a[d][k] = a[d].get(k, 0) + n
    return a


def failed(name, msg, ob="verifier-reach"):
    v = Violation(ob, msg)
    return {"name": name, "viol": [plain(v)], "obl": {}, "paths": 0, "queries": 0, "qtime": 0.0, "steps": 0, "wall": 0.0,
            "reached": [], "fns": {}, "assumed": {}, "ops": {}, "runs": 1}


def _task(conn, unit, task, deadline):
    try:
        rs, new = unit.run_task(task, deadline)
        out = ([pack(r) for r in rs], new)
    except Exception as x:
        out = ([failed(str(task)[:80], "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-1500:]))], [])
    conn.send(out)
    conn.close()
    os._exit(0)


def _unit(conn, make, outdir, sem, deadline, only):
    out = []
    try:
        t0 = time.time()
        with sem:
            unit = make()
            unit.load(outdir)
        load = time.time() - t0
        todo = list(unit.tasks(only))
        seen = set(todo)
        running = []
        while todo or running:
            while todo and sem.acquire(block=not running, timeout=0.02 if running else None):
                a, b = mp.Pipe(False)
                p = mp.Process(target=_task, args=(b, unit, todo.pop(), deadline))
                p.start()
                b.close()
                running.append((p, a))
            for p, a in mp_wait(running):
                try:
                    rs, new = a.recv()
                except EOFError:
                    rs, new = [failed(unit.name, "the verifier process died", "resources")], []
                p.join()
                a.close()
                sem.release()
                running.remove((p, a))
                out += rs
                for t in new:
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
        info = {"tasks": len(seen), "load": load, "configurations": getattr(unit, "count", lambda s: None)(seen)}
    except Exception as x:
        info = {"tasks": 0, "load": 0, "configurations": None}
        out.append(failed("instantiate", "%s: %s" % (type(x).__name__, x), "build" if type(x).__name__ in ("BuildError",) else "verifier-reach"))
    res = {}
    for r in out:
        res[r["name"]] = merge(res[r["name"]], r) if r["name"] in res else r
    conn.send((info, list(res.values())))
    conn.close()
    os._exit(0)


def mp_wait(running):
    from multiprocessing.connection import wait
    if not running:
        return []
    ready = set(wait([a for _, a in running], 0.05))
    return [(p, a) for p, a in running if a in ready]


def run(units, outdir, deadline):
    """units: {key: (constructor, only)} -> {key: (info, [result])}"""
    mp.set_start_method("fork", force=True)
    sem = mp.Semaphore(JOBS)
    ps = {}
    for k, (make, only) in units.items():
        a, b = mp.Pipe(False)
        p = mp.Process(target=_unit, args=(b, make, outdir, sem, deadline, only))
        p.start()
        b.close()
        ps[k] = (p, a)
    out = {}
    for k, (p, a) in ps.items():
        try:
            out[k] = a.recv()
        except EOFError:
            out[k] = ({"tasks": 0, "load": 0, "configurations": None}, [failed("instantiate", "the verifier process died", "resources")])
        p.join()
    return out
