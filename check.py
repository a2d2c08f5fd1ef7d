#!/usr/bin/env python3
"""Decides one property: python3-vt -B check.py C04 [--tier quick|thorough]"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "replay"), os.path.join(HERE, "spec")]
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)

KNOWN = os.path.join(HERE, "known_findings.txt")


def verify_case(job):
    """One case in a worker process."""
    prop, index, tier = job
    from pyvc import cases, solver, verify

    case = cases.PROPERTY_CASES[prop]()[index]
    prover = solver.Prover(timeout_ms=10000 if tier == "quick" else 60000)
    prover.cvc5 = tier == "thorough"
    r = verify.verify(case, prover, cases.INLINE, cases.INLINE)
    hints = []
    for _, m in r.models[:3]:
        try:
            hints.append(cases.hints_from(m, case))
        except Exception:  # noqa
            pass
    return {"name": r.name, "status": r.status, "error": r.error, "obligations": [o.as_dict() for o in r.obligations],
            "inlined": sorted(r.inlined), "callees": sorted(r.callees), "assumptions": sorted(r.assumptions), "seconds": r.seconds,
            "queries": prover.stats.queries, "solver_seconds": prover.stats.seconds, "backends": prover.stats.backends,
            "disagreements": len(prover.cvc5_disagreements), "hints": hints}


def verify_all(prop, tier, seed):
    """-> (results, failing input or None, number of concrete runs, sample of them)

    As soon as a case is not proved, the search for a failing input starts beside the proof.
    """
    from pyvc import cases
    import search
    import workers

    import plans

    jobs = []
    for q in [prop] + plans.RELIES_ON.get(prop, []):
        cs = cases.PROPERTY_CASES[q]()
        jobs += [(q, i, tier) for i in sorted(range(len(cs)), key=lambda i: -cases.effort(cs[i]))]
    limit = 420 if tier == "quick" else 3000
    t0 = time.time()
    done, found, trials, sample, rounds = {}, None, 0, [], 0
    running = None
    pool = workers.Workers(verify_case, jobs, max(1, min(8, os.cpu_count() or 1, len(jobs))))
    try:
        while pool.busy() and time.time() - t0 < limit and not found:
            for j, ok, r in pool.poll():
                done[j] = r if ok else dict(blank(j), error=r)
            bad = [r for r in done.values() if r["status"] != "proved"]
            if running is None and bad and rounds < 2:
                rounds += 1
                running = search.Search(prop, seed + 100 * rounds, 40, [h for r in bad for h in r["hints"]], 5, tier, first=rounds == 1)
            if running is not None and running.ready():
                found, k, sample = running.get()
                trials += k
                running = None
        if running is not None and not found:
            found, k, sample = running.get()
            trials += k
            running = None
        why = "not run: a failing input was found" if found else "time limit"
        for j in jobs:
            if j not in done:
                done[j] = dict(blank(j), error=why)
    finally:
        if running is not None:
            running.stop()
        pool.stop()
    for (q, _, _), r in done.items():
        r["of"] = q
        if q != prop:
            r["name"] = f"{q}: {r['name']}"
    return [done[j] for j in jobs], found, trials, sample


def blank(job):
    return {"name": f"case {job[1]}", "status": "undecided", "error": None, "obligations": [], "inlined": [], "callees": [], "assumptions": [],
            "seconds": 0, "queries": 0, "solver_seconds": 0, "backends": {}, "disagreements": 0, "hints": []}


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                out.append(line)
    return out


def write_replay(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    import plans

    plan = plans.PLANS[prop]
    results, found, trials, sample = verify_all(prop, tier, seed)
    extra = plan["extra"](tier, seed) if "extra" in plan else []
    results += extra
    own = [r for r in results if r.get("of", prop) == prop]
    relied = [r for r in results if r.get("of", prop) != prop]
    obligations = [o for r in results for o in r["obligations"]]
    discharged = sum(1 for o in obligations if o["status"] == "proved")
    # A contract of a callee that does not hold is a violation of the callee's property; of this one only if the search finds an input.
    refuted = [o for r in own for o in r["obligations"] if o["status"] == "refuted"]
    undecided = [r for r in own if r["status"] == "undecided"] + [r for r in relied if r["status"] != "proved"]
    proved = bool(results) and all(r["status"] == "proved" for r in results)
    t1 = time.time()
    import search

    if not found:
        hints = [h for r in results for h in r["hints"]]
        budget = (4 if tier == "quick" else 60) if proved else (60 if tier == "quick" else 400)
        s = search.Search(prop, seed, budget, hints, 2 if proved else 8, tier, first=tier == "thorough")
        found, k, sample = s.get()
        trials += k
    status = 0
    if found:
        path = write_replay(prop, {"property": prop, "what": found.what, "trial": found.to_json(),
                                   "how": "python3-vt -B /verif/replay/again.py <this file>",
                                   "failed_obligations": [o for o in obligations if o["status"] != "proved"][:20],
                                   "undecided": [f"{r['name']}: {r['error']}" for r in undecided][:20]})
        for o in refuted[:5]:
            print(f"obligation not discharged: {o['name']}")
        print(f"failing input: {found.what[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        status = 1
    elif refuted:
        path = write_replay(prop, {"property": prop, "what": "obligations of the current source are refuted by the solver; no concrete failing input was found",
                                   "failed_obligations": refuted[:20]})
        for o in refuted[:5]:
            print(f"obligation not discharged: {o['name']}: {o['detail'][:300]}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        status = 1
    elif not proved:
        for r in undecided[:10]:
            bad = [o["name"] for o in r["obligations"] if o["status"] != "proved"][:3]
            what = "undecided" if r.get("of", prop) == prop else "contract of a callee not discharged"
            print(f"{what}, bounded check only: {r['name']}: {r['error'] or bad}")
    for line in known_findings(prop):
        print("KNOWN-FINDING: " + line[len("finding:"):].strip())
    backends = {}
    for r in results:
        for o in r["obligations"]:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        for k, x in r["backends"].items():
            backends[k] = backends.get(k, 0) + x
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof" if proved else "other",
        "coverage": {
            "explanation": "every obligation discharged" if proved else "not every obligation was discharged; what is missing is under not_proved, and the concrete runs are a bounded stand-in",
            "obligations": len(obligations), "discharged": discharged,
            "checker_cmd": f"python3-vt -B /verif/check.py {prop} --tier {tier}",
            "trusted_base": plan["trusted"],
            "functions_under_contract": sorted({x for r in results for x in r["inlined"]}),
            "callees_by_contract": sorted({x for r in results for x in r["callees"]}),
            "callee_contracts_discharged": {q: f"{sum(1 for r in relied if r['of'] == q and r['status'] == 'proved')} of {sum(1 for r in relied if r['of'] == q)} cases"
                                            for q in dict.fromkeys(r["of"] for r in relied)},
            "cases": len(results), "cases_proved": sum(1 for r in results if r["status"] == "proved"),
            "obligations_by_backend": backends,
            "solver_queries": sum(r["queries"] for r in results),
            "solver_seconds": round(sum(r["solver_seconds"] for r in results), 2),
            "cvc5_disagreements": sum(r["disagreements"] for r in results),
            "not_proved": [f"{r['name']}: {r['error'] or [o['name'] for o in r['obligations'] if o['status'] != 'proved'][:3]}" for r in results if r["status"] != "proved"][:40],
            "bounded_stand_in": None if proved else f"{trials} concrete runs of the real code against the specification functions (bounded, not counted as proved)",
            "concrete_cross_checks": trials,
            "samples": sample,
            "sample_obligations": [o["name"] for o in obligations[:3]],
        },
        "assumptions": plan["assumptions"] + sorted({x for r in results for x in r["assumptions"]}),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if status else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {discharged}/{len(obligations)} obligations discharged in {len(results)} cases ({t1 - t0:.1f} s), "
          f"{trials} concrete runs, {'proved' if proved else 'NOT proved'}, exit {status}, {time.time() - t0:.1f} s")
    return status


if __name__ == "__main__":
    sys.exit(main())
