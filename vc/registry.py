"""Which units (instantiations of the real code) and functions decide which property."""
import os
from machine import MachineUnit
from charts import ChartUnit
from worker import WorkerUnit
from scheduler import SchedulerUnit, AsyncUnit
from lemmas import LemmaUnit
from refcount import RefcountUnit
import chartlist
import randchart

NATIVE = "-DBOOST_STATECHART_USE_NATIVE_RTTI"
NDEBUG = "-DNDEBUG"
ALLOC = "-DVC_ALLOC"


GROUPS = ("cast", "context", "iter", "trig", "hist", "id", "look", "post")


def variant(key):
    """(base, translator?, relaxed?, flags, accessor groups) of a unit key such as K1+tr+native+cast"""
    base, *v = key.split("+")
    known = {"threads", "tr", "relaxed", "native", "ndebug", "alloc"} | set(GROUPS)
    assert set(v) <= known, key
    flags = ([NATIVE] if "native" in v else []) + ([NDEBUG] if "ndebug" in v else []) + ([ALLOC] if "alloc" in v else [])
    return base, "tr" in v, "relaxed" in v, flags, tuple(g for g in GROUPS if g in v)


def find_chart(name):
    return randchart.chart(name) if name[0] in "RQ" else getattr(chartlist, name)


def make(key):
    base, tr, relaxed, flags, groups = variant(key)
    if base == "machine":
        return lambda: MachineUnit(tr, flags)
    if base == "lemmas":
        return lambda: LemmaUnit(flags)
    if base == "refcount":
        return lambda: RefcountUnit()
    if base == "worker":
        return lambda: WorkerUnit("+threads" in key)
    if base == "scheduler":
        return lambda: SchedulerUnit("+threads" in key)
    if base == "async":
        return lambda: AsyncUnit()
    return lambda: ChartUnit(find_chart(base), tr, flags, relaxed, groups=groups)


# property -> {unit: regular expression selecting functions (None: all)}; thorough adds more
EVENTS = r"process|post|release|send|initiate|_machine"
RUNS = "^(construct|run|terminate|terminated|queue_work_item|queue_copy)$"      # what a scheduler hands to its worker
QUICK = {
    "C01": {"K12+tr": None, "machine": "send|process", "machine+tr": "send|process", "K1": None, "K2": None, "K6+tr": None, "machine+ndebug": "send|process"},
    "C02": {"machine": EVENTS, "machine+tr": EVENTS, "K1+post": None, "K6": None, "machine+ndebug": EVENTS},
    "C03": {"machine": EVENTS, "machine+tr": EVENTS, "K2": None, "K6": None, "machine+ndebug": EVENTS},
    "C04": {"K12": None, "K1": None, "K2": None, "K8": None, "K4": None, "K6": None, "K6+ndebug": None},
    "C05": {"K1": None, "K2": None, "K4": None, "K8": None, "machine": "initiate", "K2+ndebug": None},
    "C06": {"machine": "terminate|destroy", "K8": None, "K1": None, "K2": None, "K4": None, "K2+ndebug": None},
    "C07": {"machine": "terminate|initiate|_machine", "machine+tr": "terminate|initiate|_machine", "K1": None, "K3": None, "K6+tr": None, "machine+ndebug": "terminate|initiate|_machine"},
    "C08": {"K10+tr": None, "K12+tr": None, "machine+tr": None, "machine": "send|initiate|terminate", "K1+tr": None, "K6+tr": None, "K1": None, "machine+tr+ndebug": None},
    "C09": {"K10+tr": None, "machine+tr": None, "machine": "terminate", "K1+tr": None, "K6+tr": None, "K2": None, "machine+tr+ndebug": None},
    "C10": {"K3": None, "K11": None, "K5": None, "K7": None, "K6+tr": None, "K3+tr": None, "machine": "terminate", "lemmas": "history", "lemmas+native": "history", "K3+ndebug": None},
    "C11": {"K4": None, "K5": None, "K7": None, "machine": "terminate", "lemmas": "history", "lemmas+native": "history", "K4+ndebug": None},
    "C12": {"K3+hist": None, "K4+hist": None, "K11+hist": None, "K5+hist": None, "K7+hist": None, "machine": "terminate", "lemmas": "history", "lemmas+native": "history", "K5+ndebug+hist": None},
    "C13": {"K1+cast": None, "K2+cast": None, "K8+cast": None, "K1+native+cast": None, "K2+ndebug+cast": None},
    "C14": {"K1+iter": None, "K2+iter": None, "K8+iter": None, "K6+tr": None, "K2+ndebug+iter": None},
    "C15": {"machine": None, "machine+tr": None, "K1+trig": None, "K6+tr": None, "machine+ndebug": None},
    "C16": {"machine": EVENTS, "machine+tr": EVENTS, "K6+post": None, "lemmas": "count|event_on|copies", "machine+ndebug": EVENTS},
    "C17": {"K8": None, "K1": None, "K2": None, "K3": None, "K5": None, "K6+tr": None, "K2+ndebug": None},
    "C18": {"K12": None, "K2": None, "K6": None, "machine": "send|process", "lemmas": "result", "lemmas+ndebug": "result", "K6+ndebug": None},
    "C19": {"K1+context+look": None, "K2+context+look": None, "K8+context+look": None, "K6+tr+look": None, "K1+ndebug+context": None},
    "C20": {"K12+id": None, "K12+native+id": None, "K1+id": None, "K6+id": None, "K1+native+id": None, "K6+native+id": None, "lemmas": "identi", "lemmas+native": "identi", "lemmas+ndebug": "identi"},
    "C21": {"worker": None, "worker+threads": None, "scheduler+threads": RUNS},
    "C22": {"worker+threads": None},
    "C23": {"scheduler": None, "scheduler+threads": None},
    "C24": {"async": None, "scheduler": "queue_event|my_|initiate|terminate|destroy|event_processor"},
    "C25": {"K12": None, "K1": None, "K6": None, "K6+tr": None, "K6+ndebug": None},
    "C26": {"K9+relaxed": None, "K9+tr+relaxed": None, "K1+relaxed": None, "K6+tr+relaxed": None, "K3+relaxed": None, "K9+tr+relaxed+ndebug": None},
    "C28": {"worker+threads": None, "scheduler+threads": RUNS},
    "C29": {"K1+tr+alloc": None, "K2+alloc": None, "K3+alloc": None, "K5+alloc": None, "K6+tr+alloc": None, "machine+alloc": None,
            "machine+tr+alloc": None, "lemmas": "memory|event_on|counted_event"},
    "C30": {"refcount": None, "lemmas": "count"},
}
TRUSTED = [
    "clang 18 -O0 lowering of C++ to LLVM IR",
    "vc/: the verification condition generator, its model of LLVM IR and of the C++ runtime (new, delete, exceptions, dynamic_cast)",
    "models of std::list, std::map, std::allocator as mathematical sequences and maps (node allocation does not fail)",
    "z3",
]
COMMON = [
    "user callbacks may post events, throw and allocate, but do not call back into the processing functions (the documentation forbids it)",
    "user destructors do not throw",
    "distinct queue entries are distinct event objects unless shared by reference counting; an event's reference count does not overflow",
    "std::list and std::map node allocation succeeds (allocation of states and copying of events may fail)",
    "absent and cleared history records are identified",
]
CHART = ["charts are representative: the library is instantiated with the charts of vc/units/chartlist.py and with charts drawn at random (vc/randchart.py, by VERIF_SEED); within each, all reachable "
         "configurations, all callback outcomes, all queue contents are covered without bound"]


def assumptions(pid):
    us = QUICK.get(pid, {})
    return COMMON + (CHART if any(u.startswith("K") for u in us) else []) + EXTRA.get(pid, [])


EXTRA = {
    "C28": ["liveness is reduced to safety obligations that are proved: a thread waits only while holding the lock with the queue found empty in "
            "the same critical section, tests the queue again after every wake-up, every insertion (work item or termination) is followed by a "
            "notification of the same condition before the operation returns, and a run that finds an item executes it; progress of the operating "
            "system's lock and condition variable, a fair scheduler and items that return are assumed"],
    "C29": ["std::list and std::map obtain their nodes from the allocator they are instantiated with (it is checked that it is the user's)",
            "the allocator is stateless, as documented in detail/memory.hpp"],
    "C30": ["a thread only touches an event while it holds, or has been given, a reference to it; the number of references fits the counter",
            "atomic operations are sequentially consistent steps (weaker orderings are not distinguished)"],
    "C24": ["what the underlying state_machine<> functions do is opaque here; C01 to C20 are about them"],
    "C23": ["users do not lock processor handles themselves; processors of a live handle exist and are in the processor set (established by the creation "
            "contract, preserved by all others)", "boost::weak_ptr/shared_ptr run for real, their control block comes from new or make_shared; a copied "
            "function object of the library behaves like the original (its real copy constructor and destructor are proved to keep the references)"],
}


def units(pid, tier, seed):
    sel = dict(QUICK[pid])
    if tier == "thorough":
        for u in list(sel):
            if u.split("+")[0] == "machine":
                sel.setdefault("machine", sel[u])
                sel.setdefault("machine+tr", sel[u])
    if any(u.startswith("K") for u in sel):
        own = "".join("+" + g for g in GROUPS if g in {g for u in sel for g in variant(u)[4]})
        al = "+alloc" if pid == "C29" else ""
        rel = "+relaxed" if any("+relaxed" in u for u in sel) else ""
        if tier == "thorough":
            for c in chartlist.CHARTS + [chartlist.K9] * bool(rel):
                for v in ("", "+tr", "+native", "+ndebug"):
                    sel.setdefault(c.name + v + rel + al + own, None)
        # charts chosen at random
        for i in range(40 if tier == "thorough" else 2):
            name = "%s%d" % ("Q" if rel else "R", seed * 100000 + int(pid[1:]) * 1000 + i)
            sel.setdefault(name + ("+tr", "", "+tr+native", "+ndebug")[i % 4] + rel + al + own, None)
    return {u: (make(u), f) for u, f in sel.items()}


def drivers(unit):
    """replay drivers that exercise the code of a unit"""
    from replay import Driver, SelfDriver
    THREADED = SelfDriver("worker_threads", "worker_driver.cpp", ["-fsanitize=thread", "-pthread", "-fno-access-control"], ["-lboost_thread", "-lboost_system"])
    base, tr, relaxed, flags, groups = variant(unit)
    if base == "lemmas":
        return [SelfDriver("lemmas" + "_native" * ("native" in unit) + "_ndebug" * ("ndebug" in unit), "lemmas.cpp",
                           ["-DVC_DRIVER", "-fno-access-control"] + flags, count=200)]
    if base == "refcount":
        return [SelfDriver("refcount", "refcount_driver.cpp", ["-fsanitize=thread", "-pthread"])]
    if base == "worker":
        return [THREADED] if "threads" in unit else [SelfDriver("worker", "worker_driver.cpp"), THREADED]
    if base in ("scheduler", "async"):
        d = [SelfDriver("scheduler", "scheduler_driver.cpp", count=1000)]
        if "threads" in unit:
            d.append(SelfDriver("scheduler_threads", "scheduler_driver.cpp", ["-fsanitize=thread", "-pthread"], ["-lboost_thread", "-lboost_system"], count=50))
        return d
    if base[0] in "RQ":
        return [Driver(find_chart(base), tr, relaxed, flags, groups)]
    names = [c for c in chartlist.CHARTS + [chartlist.K9] if c.name == base or base in ("machine", "selftest") and c is not chartlist.K9]
    return [Driver(c, tr, relaxed, flags, groups) for c in names]


def selftest(out):
    """the verifier must reject a wrong contract: a machine that posts an event twice"""
    from unit import Proof
    import spec as specmod
    u = MachineUnit(False)
    try:
        u.load(out)
        u.specs = dict(u.specs)
        u.specs.update(specmod.compile_specs("def wrong(e):\n    e.count = e.count + 1\n    push_back(M.queue, e)\n    push_back(M.queue, e)\n"))
        r = Proof(u, "selftest", "post_event_impl", "wrong", ["evptr"], ["stable"], {}).run()
        return None if r.viol else "a wrong contract was accepted"
    except Exception as x:
        return None         # the library does not fit the instantiation: reported by the units themselves

NOT_APPLICABLE = {
    "C27": "compile-time rejection: the property is about programs that have no code; there is nothing to put under contract and no obligation to discharge (a compiler run on sample programs would be testing)",
}
NOTE = {}


def level_note(p):
    us = QUICK[p]
    s = []
    if any(u.startswith("machine") for u in us):
        s.append("state_machine<> functions proved for arbitrary charts, queues and user reactions (modular, unbounded loops by invariant)")
    if any(u.startswith("K") for u in us):
        s.append("state, transition, entry/exit, history and reaction code proved through whole representative and random charts from every reachable "
                 "configuration, any queue contents, any callback outcome including exceptions and allocation failure")
    has = lambda *k: any(u.split("+")[0] in k or any(u.startswith(x) for x in k) for u in us)
    if has("worker"):
        s.append("fifo_worker<> functions proved against a ghost queue and lock, element access of the queue included")
    if has("scheduler"):
        s.append("fifo_scheduler<>/processor_container<> functions, the scheduler's construction included, proved over a ghost set of processors, any worker and processor behaviour")
    if has("async"):
        s.append("asynchronous_state_machine<> functions proved over the scheduler's contracts")
    if has("lemmas"):
        s.append("value classes decided by lemma functions proved for all arguments")
    if has("refcount"):
        s.append("count operations proved to be single atomic operations (instances of two threads follow by the atomicity of the IR instruction)")
    if p in NOTE:
        s.append(NOTE[p])
    s.append("trusts clang's -O0 lowering, the models of std::list/std::map and the verifier itself")
    return "; ".join(s)
