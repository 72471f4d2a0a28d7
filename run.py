#!/usr/bin/env python3
"""run.py <property-id> [--tier quick|thorough] [--case SUBSTR] [--jobs N]

exit 0: the property held on everything explored: no obligation was refuted and every obligation was discharged by the
        solver, except at most a quarter of the cases left undecided by the solver (printed as UNDECIDED, listed in the
        evidence and not counted as discharged; on the committed tree there are none, which --strict enforces)
exit 1: VIOLATION (counterexample replayed on the real code)
exit 2: error of the check, more than a quarter of the cases undecided (or any, with --strict)
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
MEM = 3800 << 20
HARD = {"quick": 420.0, "thorough": 840.0}


def load_known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+case=(\S+)\s+label=(\S+)\s+(.*)", line.strip())
            if m:
                out.append(dict(property=m.group(1), case=m.group(2), label=m.group(3), what=m.group(4)))
    return out


def worker(prop, tier, seed, counter, q, names, deadline):
    try:
        os.nice(0)
        from jaxsym import harness
        harness.boot()
        import resource
        resource.setrlimit(resource.RLIMIT_DATA, (MEM, MEM))      # a case that outgrows this counts as undecided
        mod = importlib.import_module("checks." + prop.lower())
        cases = mod.cases(tier, seed)
        if names:
            cases = [c for c in cases if any(n in c.name for n in names)]
        cases.sort(key=lambda c: -c.weight)
        q.put(("n", len(cases), [c.name for c in cases]))
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(cases):
                break
            if time.time() > deadline - 5:
                q.put(("r", {"case": cases[i].name, "status": "unknown", "notes": ["not started: time budget"],
                             "violations": [], "obligations": 0, "discharged": 0}))
                continue
            q.put(("s", cases[i].name))
            try:
                r = harness.run_case(cases[i], seed, deadline)
            except Exception:
                from jaxsym import core
                r = {"case": cases[i].name, "status": "error", "notes": ["harness error: " + " / ".join(x.strip() for x in traceback.format_exc()[-900:].splitlines())],
                     "violations": [], "obligations": 0, "discharged": 0}
            q.put(("r", r))
        from jaxsym import interp
        q.put(("p", dict(interp.prims_seen)))
    except Exception:
        q.put(("e", traceback.format_exc()[-3000:]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", action="append", default=[])
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in HARD else "quick"
    t0 = time.time()
    deadline = t0 + HARD[tier] - 30
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    counter = ctx.Value("i", 0)
    procs = [ctx.Process(target=worker, args=(a.prop, tier, seed, counter, q, a.case, deadline), daemon=True)
             for _ in range(a.jobs)]
    for p in procs:
        p.start()
    results, started, expected, errors, prims = [], set(), None, [], {}
    names = []
    while True:
        try:
            k = q.get(timeout=1.0)
        except queue.Empty:
            k = None
        if k:
            if k[0] == "n":
                expected, names = k[1], k[2]
            elif k[0] == "r":
                results.append(k[1])
                if a.v:
                    r = k[1]
                    print("  %-50s %-10s obl=%d/%d %.1fs eqns=%s q=%s nf=%s %s" % (
                        r["case"], r["status"], r["discharged"], r["obligations"], r.get("wall_s", 0), r.get("eqns"),
                        r.get("queries"), r.get("normal_form"), "; ".join(r["notes"])[:1500]), flush=True)
            elif k[0] == "s":
                started.add(k[1])
            elif k[0] == "e":
                errors.append(k[1])
            elif k[0] == "p":
                for n, c in k[1].items():
                    prims[n] = prims.get(n, 0) + c
        if expected is not None and len(results) >= expected:
            break
        if not any(p.is_alive() for p in procs) and q.empty():
            break
        if time.time() - t0 > HARD[tier]:
            break
    # let workers deliver their primitive statistics
    t1 = time.time()
    while time.time() - t1 < 2 and any(p.is_alive() for p in procs):
        try:
            k = q.get(timeout=0.2)
            if k[0] == "p":
                for n, c in k[1].items():
                    prims[n] = prims.get(n, 0) + c
        except queue.Empty:
            pass
    for p in procs:
        if p.is_alive():
            p.terminate()
    done = {r["case"] for r in results}
    if expected is not None:
        for n in names:
            if n not in done:
                results.append({"case": n, "status": "unknown", "notes": ["did not finish within the time budget"],
                                "violations": [], "obligations": 0, "discharged": 0})
    known = [k for k in load_known() if k["property"] == a.prop]
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    lines = []
    known_hit = []
    for r in results:
        for v in r["violations"]:
            lab = v["label"].split("[")[0]
            kf = next((k for k in known if k["case"] == r["case"] and k["label"] == lab), None)
            if kf:
                if kf not in known_hit:
                    known_hit.append(kf)
                    lines.append("KNOWN-FINDING: property=%s case=%s label=%s %s" % (a.prop, r["case"], lab, kf["what"]))
                continue
            nviol += 1
            fn = os.path.join(rdir, "%s-%s-%d.json" % (a.prop, re.sub(r"[^\w.-]", "_", r["case"]), nviol))
            json.dump({"property": a.prop, "case": r["case"], "tier": tier, **v}, open(fn, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (a.prop, fn))
            lines.append("  case %s, %s: %s" % (r["case"], v["label"], v["detail"]))
    # a case whose only problems are known findings counts as decided
    inconclusive = []
    for r in results:
        if r["status"] in ("unknown", "error"):
            inconclusive.append(r)
        elif r["status"] == "violation" and not r["violations"]:
            inconclusive.append(r)
        elif r["status"] == "violation" and r["notes"]:
            inconclusive.append(r)
    tot = lambda k: sum(r.get(k) or 0 for r in results)
    if errors:
        for e in errors[:1]:
            print("worker error:\n" + e)
    for l in lines:
        print(l)
    for r in inconclusive[:10]:
        print("UNDECIDED case=%s status=%s %s" % (r["case"], r["status"], " | ".join(r["notes"])[:800]))
    wall = time.time() - t0
    samples = []
    for r in results[:6]:
        samples.append({"case": r["case"], "bounds": r.get("bounds"), "functions": r.get("functions"),
                        "obligation_labels": r.get("labels", [])[:8], "obligations": r["obligations"],
                        "discharged": r["discharged"], "solver_s": r.get("solver_s")})
    cov = {
        "explanation": "Bounded symbolic execution of the jaxprs traced from the real code of /repo (regenerated on this "
                       "run), exact real arithmetic; every obligation's negation is refuted by algebraic normal form "
                       "and/or Z3 for all values in the stated boxes, or a counterexample is replayed on the real code.",
        "obligations": tot("obligations"), "discharged": tot("discharged"),
        "states": len(results), "transitions": tot("eqns"),
        "traces_validated_against_impl": tot("validated_points"),
        "queries": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
        "branch_pruning_queries": tot("prune_queries"), "closed_by_normal_form": tot("normal_form"),
        "solver_seconds": round(tot("solver_s"), 2),
        "functions_encoded": sorted({f for r in results for f in r.get("functions", [])}),
        "bounds": sorted({r.get("bounds") for r in results if r.get("bounds")}),
        "cases": [{"case": r["case"], "status": r["status"], "obligations": r["obligations"],
                   "discharged": r["discharged"], "jaxpr_eqns_executed": r.get("eqns"), "queries": r.get("queries"),
                   "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"), "notes": r["notes"][:3]} for r in results],
        "undecided_cases": [r["case"] for r in inconclusive],
        "primitives_interpreted": prims,
        "checker_cmd": "/opt/venv/bin/python run.py %s --tier %s" % (a.prop, tier),
        "trusted_base": ["jax.make_jaxpr tracing", "jaxsym interpreter (validated against the real code on this run)",
                         "Z3", "small-matrix summaries of jnp.linalg.det/inv/solve"],
        "samples": samples,
        "known_findings": [k["case"] + ":" + k["label"] for k in known_hit],
    }
    level = "other"
    try:
        man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        level = next(c["level"] for c in man["checks"] if c["property"] == a.prop)
    except Exception:
        pass
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["floating point treated as exact real arithmetic (replays use float32)",
                          "inputs restricted to the boxes listed under coverage.bounds"],
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d/%d obligations discharged, %d violations, %d inconclusive, solver %.1fs, wall %.1fs" % (
        a.prop, tier, len(results), tot("discharged"), tot("obligations"), nviol, len(inconclusive), tot("solver_s"), wall))
    sys.stdout.flush()
    if nviol:
        code = 1
    elif errors or expected is None or not results or len(inconclusive) > (0 if a.strict else len(results) / 4):
        code = 2
    else:
        code = 0
    os._exit(code)


if __name__ == "__main__":
    main()
