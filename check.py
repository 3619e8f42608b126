#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property for /repo's current tree.

exit 0: every obligation of the property's analysis was discharged
exit 1: VIOLATION property=<id> replay=<path>
"""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import importlib

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(40000)

UNIT_LIMIT = 780            # seconds per unit


class Timeout(BaseException):
    pass


_MIR = None


def _alarm(sig, frm):
    raise Timeout()


def _work(job):
    modname, group, idx = job
    from units.base import run_unit
    import threading
    mod = importlib.import_module("units." + modname)
    name, body = mod.UNITS[group][idx]
    hooks = getattr(mod, "HOOKS", None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(UNIT_LIMIT)
    t = time.time()
    try:
        u = run_unit(_MIR, name, body, hooks)
        signal.alarm(0)
        return {"unit": name, "group": modname + "." + group, "entry": u.entry, "wall": round(time.time() - t, 2),
                "obligations": u.obligations, "analysed": sorted(u.ip.stats["fns"]), "notes": getattr(u, "notes", []),
                "stats": {k: v for k, v in u.ip.stats.items() if isinstance(v, (int, float))} if isinstance(getattr(u.ip, "stats", None), dict) else {},
                "findings": [{"key": f.key, "detail": str(f.detail)[:600], "where": f.where, "kind": f.kind} for f in u.findings]}
    except Timeout:
        return {"unit": name, "group": modname + "." + group, "entry": None, "wall": round(time.time() - t, 2), "obligations": 0, "analysed": [], "notes": [], "stats": {},
                "findings": [{"key": "%s: not decided" % name, "detail": "time limit of %d s reached" % UNIT_LIMIT, "where": None}]}
    except BaseException as e:
        return {"unit": name, "group": modname + "." + group, "entry": None, "wall": round(time.time() - t, 2), "obligations": 0, "analysed": [], "notes": [], "stats": {},
                "findings": [{"key": "%s: not decided" % name, "detail": "%s: %s" % (type(e).__name__, e), "where": None}]}


def big_stack(job):
    """run in a thread with a large stack (deep recursion in the analyser)"""
    import threading
    out = []
    # signals are delivered to the main thread only, so run directly there
    return _work(job)


def known(prop):
    out = {}
    p = os.path.join(VERIF, "findings", "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                k = line.split(" ", 2)[2]
                out[k] = True
    return out


def main():
    global _MIR
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from units import registry
    from ai.build import ensure_dump, BuildError
    from ai.mir import Mir
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    results, own = [], set()
    try:
        if registry.needs_dump(prop):
            _MIR = Mir(ensure_dump())
        jobs = []
        own = set()
        for modname, group, *only in registry.PROPS[prop] + registry.DEPS.get(prop, []):
            mod = importlib.import_module("units." + modname)
            js = [(modname, group, i) for i in range(len(mod.UNITS[group])) if not only or mod.UNITS[group][i][0] in only]
            assert len(js) == len(only or mod.UNITS[group]), (modname, group, only)
            if (modname, group, *only) in registry.PROPS[prop]:
                own |= set(js)
            jobs += [j for j in js if j not in jobs]
        own = {(j[0] + "." + j[1], importlib.import_module("units." + j[0]).UNITS[j[1]][j[2]][0]) for j in own}
        cost = registry.cost
        jobs.sort(key=lambda j: -cost(j))
        resource_limit()
        with mp.get_context("fork").Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_work, jobs, chunksize=1):
                results.append(r)
    except BuildError as e:
        results.append({"unit": "build", "group": "build", "entry": None, "wall": 0, "obligations": 0, "analysed": [], "notes": [], "stats": {},
                        "findings": [{"key": "build: the tree could not be analysed", "detail": str(e), "where": None}]})
    results.sort(key=lambda r: (r["group"], r["unit"]))
    for r in results:
        r["own"] = r["group"] == "build" or (r["group"], r["unit"]) in own
        if not r["own"]:
            # an assumption about a lower layer that is not decided here
            r["undecided"] = [f["key"] for f in r["findings"] if f["key"].endswith(": not decided")]
            r["findings"] = [f for f in r["findings"] if not f["key"].endswith(": not decided")]
    finds = [dict(f, unit=r["unit"], group=r["group"]) for r in results for f in r["findings"] if registry.relevant(prop, r["group"], f)]
    obl = sum(r["obligations"] for r in results if r["own"])
    low = sum(r["obligations"] for r in results if not r["own"])
    floor = registry.FLOOR.get(prop, 1)
    if not finds and obl < floor:
        finds.append({"key": "coverage floor", "detail": "only %d obligations were generated, at least %d expected" % (obl, floor), "where": None, "unit": "coverage", "group": "coverage"})
    kn = known(prop)
    fresh, listed = [], []
    for f in finds:
        (listed if f["key"] in kn else fresh).append(f)
    level = registry.LEVEL.get(prop, "proof")
    fns = sorted({x for r in results for x in r["analysed"]})
    cov = {
        "explanation": registry.EXPLAIN.get(prop, "abstract interpretation of the compiled MIR of every listed function against its algebraic contract"),
        "obligations": obl + low, "discharged": max(0, obl + low - len(finds) - sum(len(r.get("undecided", [])) for r in results)), "obligations_of_lower_layers": low,
        "undecided_lower_layers": [k for r in results for k in r.get("undecided", [])],
        "checker_cmd": "python3 check.py %s" % prop,
        "trusted_base": registry.TRUST + registry.TRUST_EXTRA.get(prop, []),
        "units": [{k: r[k] for k in ("unit", "group", "entry", "wall", "obligations", "notes") if r.get(k)} for r in results],
        "functions_analysed": len(fns), "functions": fns[:400],
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": registry.ASSUME.get(prop, []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["key"]))
    if fresh:
        rp = os.path.join("evidence", prop + ".replay.json")
        with open(os.path.join(VERIF, rp), "w") as f:
            json.dump({"property": prop, "rerun": "python3 check.py " + prop, "findings": fresh}, f, indent=1)
        for x in fresh[:20]:
            print("  %s | %s | %s" % (x["key"], (x["where"] or ""), x["detail"].replace("\n", " ")[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.stdout.flush()
        os._exit(1)
    print("ok property=%s obligations=%d+%d units=%d functions=%d wall=%.1fs" % (prop, obl, low, len(results), len(fns), time.time() - t0))
    sys.stdout.flush()
    os._exit(0)


def resource_limit():
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except Exception:
        pass


if __name__ == "__main__":
    main()
