#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decides one property of /repo's current working tree.

Every run regenerates LLVM IR from /repo's headers (instantiations in inst/ and vc/chartgen.py), lets
the verifier (vc/) discharge every obligation of the functions under contract, and reports."""
import sys, os, time, json, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/vc", HERE + "/vc/units"]
sys.dont_write_bytecode = True
import registry, runner, replay
import z3


def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    out = tempfile.mkdtemp(prefix="vc_")
    try:
        units = registry.units(pid, tier, seed)
        budget = 420 if tier == "quick" else 3000
        res = runner.run(units, out, t0 + budget)
        canary = registry.selftest(out)
        viol = []
        for k, (info, rs) in res.items():
            if k[0] in "RQ":                        # extra charts: what the time did not suffice for is reported, not claimed
                cut = [r["name"] for r in rs if any(v["obligation"] == "resources" for v in r["viol"])]
                for r in rs:
                    r["viol"] = [v for v in r["viol"] if v["obligation"] != "resources"]
                if cut:
                    info["not_decided_for_lack_of_time"] = cut
            for r in rs:
                for v in r["viol"]:
                    viol.append((k, r["name"], v))
            if not rs:
                viol.append((k, "instantiate", {"obligation": "vacuity", "message": "no function was verified", "mode": "",
                                                "where": [], "trail": [], "model": "", "undecided": True}))
        if canary:
            viol.append(("selftest", "selftest", {"obligation": "selftest", "message": canary, "mode": "", "where": [],
                                                  "trail": [], "model": "", "undecided": True}))
        line = None
        if viol:
            line = report(pid, viol, out, seed, tier)
        evidence(pid, tier, seed, res, viol, time.time() - t0)
        if line:
            print(line)
            return 1
        n = sum(x[0] for _, rs in res.values() for r in rs for x in r["obl"].values())
        print("property %s: %d obligations discharged, %d functions under contract, %.1f s" % (
            pid, n, sum(len(rs) for _, rs in res.values()), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def report(pid, viol, out, seed, tier):
    d = HERE + "/evidence/replay"
    os.makedirs(d, exist_ok=True)
    path = "%s/%s.txt" % (d, pid)
    o = ["property %s: %d undischarged obligations" % (pid, len(viol)), ""]
    for k, fn, v in viol[:12]:
        o.append("unit %s, function %s, starting from %s" % (k, fn, v["mode"]))
        o.append("  failed obligation: %s" % v["obligation"])
        o.append("  %s" % v["message"])
        for side, w in zip(("code", "contract"), v["where"]):
            o.append("  %s at: %s" % (side, w))
        if v["trail"]:
            o.append("  history of observable actions:")
            o += ["    " + t for t in v["trail"]]
        if v["model"]:
            o.append("  counterexample: " + v["model"])
        o.append("")
    print("\n".join(o[:40])[:3000])
    found = None
    try:
        found = replay.search(pid, viol, out, seed, 240 if tier == "quick" else 600)
    except Exception as x:
        o.append("replay: %s: %s" % (type(x).__name__, x))
    if found:
        o = ["A failing input on the real code:", found, "", "-" * 60] + o
        print(found[:2000])
    else:
        o = ["no failing input found by the replay drivers", ""] + o
    open(path, "w").write("\n".join(o) + "\n")
    return "VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found")


def evidence(pid, tier, seed, res, viol, wall):
    obl = disch = 0
    kinds, funcs, assumed, ops, stime, q, paths = {}, [], {}, {}, 0.0, 0, 0
    bodies = set()
    for k, (info, rs) in sorted(res.items()):
        for r in rs:
            n = sum(x[0] for x in r["obl"].values())
            disch += n
            obl += n + len(r["viol"])
            for o, (c, _) in r["obl"].items():
                o = o.split(" (")[0]
                kinds[o] = kinds.get(o, 0) + c
            funcs.append({"unit": k, "function": r["name"], "obligations": n + len(r["viol"]), "discharged": n,
                          "paths": r["paths"], "start_states": r["runs"], "solver_s": round(r["qtime"], 3)})
            for a, c in r["assumed"].items():
                assumed[a] = assumed.get(a, 0) + c
            for a, c in r["ops"].items():
                ops[a] = ops.get(a, 0) + c
            bodies |= set(r["fns"])
            stime += r["qtime"]
            q += r["queries"]
            paths += r["paths"]
    e = {"property": pid, "tier": tier, "seed": seed, "level": "proof",
         "coverage": {"obligations": obl, "discharged": disch, "checker_cmd": "python3-vt check.py %s --tier %s" % (pid, tier),
                      "trusted_base": registry.TRUSTED, "back_end": "vc (lock-step VC generator) + z3 %s" % z3.get_version_string(),
                      "functions_under_contract": funcs, "obligations_by_kind": kinds, "paths": paths,
                      "smt_queries": q, "solver_s": round(stime, 3),
                      "library_bodies_executed": len(bodies), "sample_bodies": sorted(bodies)[:15],
                      "calls_by_contract": assumed, "observable_actions_matched": ops,
                      "units": {k: i for k, (i, _) in res.items()}},
         "assumptions": registry.assumptions(pid), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, pid), "w") as f:
        json.dump(e, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
