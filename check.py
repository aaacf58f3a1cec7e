#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decide one property on /repo's working tree
   check.py --replay <file>               re-run a counterexample on the real code
   check.py --one <property> <obligation> [tier]   one obligation, verbose"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PY) \
        and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[v] = "1"
sys.path.insert(0, HERE)
sys.path.append(Z3DIR)
sys.setrecursionlimit(20000)

CONFIRM_FILE = os.path.join(HERE, "known_findings.txt")


def load_props():
    for f in sorted(os.listdir(os.path.join(HERE, "props"))):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("props." + f[:-3])
    from engine.harness import OBLIGATIONS
    return OBLIGATIONS


def known(prop):
    """known_findings.txt: '<property> <obligation> <label...>' per open finding."""
    out = []
    if os.path.exists(CONFIRM_FILE):
        for line in open(CONFIRM_FILE):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            head, _, what = line.partition(" :: ")
            p = head.split(None, 2)
            if p[0] == prop:
                out.append((p[1], p[2], what))
    return out


def worker(args):
    prop, name, seed, tier = args
    from engine import harness
    ob = [o for o in load_props()[prop] if o.name == name][0]
    run = harness.Run(ob, seed, tier)
    try:
        run.go()
        return run.result()
    except BaseException:
        return {"name": name, "bounds": ob.bounds, "crash": traceback.format_exc()[-1500:]}


def child(conn, args):
    try:
        conn.send(worker(args))
    finally:
        conn.close()


def run_all(obs, prop, seed, tier, jobs=8, total=800):
    """One process per obligation, at most `jobs` at a time, each with its own limit."""
    todo = list(obs)
    running = []
    results = []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            ob = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(b, (prop, ob.name, seed, tier)))
            p.start()
            b.close()
            lim = ob.budget * (1 if tier == "quick" else 6) + 45
            running.append((ob, p, a, time.time() + lim))
        for item in list(running):
            ob, p, a, limit = item
            if a.poll(0.01):
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({"name": ob.name, "bounds": ob.bounds, "crash": "process ended"})
                p.join()
                running.remove(item)
            elif time.time() > limit or time.time() - t0 > total or not p.is_alive():
                if not p.is_alive() and a.poll(0.2):
                    continue
                p.kill()
                p.join()
                results.append({"name": ob.name, "bounds": ob.bounds,
                                "crash": "time limit" if time.time() > limit else "ended"})
                running.remove(item)
        time.sleep(0.01)
    order = {o.name: i for i, o in enumerate(obs)}
    return sorted(results, key=lambda r: order[r["name"]])


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--selftest":
        import z3
        x = z3.Real("x")
        t = z3.Solver()
        t.add(x * x == 2, x > 0)
        n = sum(len(v) for v in load_props().values())
        print("z3 %s %s, %d harnesses" % (z3.get_version_string(), t.check(), n))
        return 0 if t.check() == z3.sat and n else 1
    if sys.argv[1] == "--one":
        r = worker((sys.argv[2], sys.argv[3], int(os.environ.get("VERIF_SEED", "1")),
                    sys.argv[4] if len(sys.argv) > 4 else "quick"))
        print(json.dumps(r, indent=1, default=str))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    obs = [o for o in load_props().get(prop, []) if o.tier == "quick" or tier == "thorough"]
    results = run_all(obs, prop, seed, tier, total=800 if tier == "quick" else 6 * 3600)
    kn = known(prop)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    tot = dict(paths=0, paths_checked=0, branches=0, forks=0, queries=0, branch_queries=0,
               unsat=0, sat=0, unknown=0, solver_s=0.0, validated=0)
    funcs = set()
    samples = []
    obl = []
    inconclusive = []
    seen_known = set()
    for r in results:
        for k in tot:
            tot[k] += r.get(k, 0)
        funcs.update(r.get("functions", []))
        if r.get("samples") and len(samples) < 8:
            samples.append(r["samples"][0])
        if r.get("crash"):
            inconclusive.append("%s: %s" % (r["name"], r["crash"]))
        for x in r.get("inconclusive", []):
            inconclusive.append("%s: %s" % (r["name"], x))
        for x in r.get("mismatch", []):
            inconclusive.append("%s: encoding differs from the real code: %s" % (r["name"], x))
        if not r.get("crash") and not r.get("violations") and not r.get("reachable"):
            inconclusive.append("%s: no reachability witness" % r["name"])
        for v in r.get("violations", []):
            k = [x for x in kn if x[0] == r["name"] and x[1] == v["label"]]
            if k:
                if (r["name"], v["label"]) not in seen_known:
                    seen_known.add((r["name"], v["label"]))
                    print("KNOWN-FINDING: property=%s %s %s %s" % (prop, r["name"], v["label"], k[0][2]))
                continue
            nviol += 1
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, r["name"], nviol))
            with open(path, "w") as f:
                json.dump({"property": prop, "obligation": r["name"], "label": v["label"],
                           "values": v["values"], "detail": v["detail"]}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  obligation %s, requirement '%s'" % (r["name"], v["label"]))
            print("  inputs %s" % json.dumps(v["values"], default=str)[:600])
            for d in v["detail"][:2]:
                print("  " + "\n  ".join(str(d[1]).splitlines()[:12]))
        nl = sum(sum(x.values()) for x in r.get("labels", {}).values())
        nd = sum(x["unsat"] for x in r.get("labels", {}).values())
        obl.append({k: r.get(k) for k in ("name", "bounds", "wall_s", "paths", "queries",
                                          "branch_queries", "unsat", "sat", "unknown",
                                          "solver_s", "max_terms", "validated", "reachable")})
        obl[-1]["requirements"] = nl
        obl[-1]["discharged"] = nd
        obl[-1]["status"] = ("violated" if r.get("violations") else "incomplete"
                             if (r.get("crash") or r.get("inconclusive") or r.get("mismatch")
                                 or not r.get("reachable")) else "held")
        print("%-34s %-10s paths %-4d requirements %d/%d queries %d solver %.2fs wall %.1fs" % (
            r["name"], obl[-1]["status"], r.get("paths", 0), nd, nl,
            r.get("queries", 0) + r.get("branch_queries", 0), r.get("solver_s", 0),
            r.get("wall_s", 0)))
    for x in inconclusive:
        print("INCONCLUSIVE %s" % x)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["branches"] + tot["queries"],
            "traces_validated_against_impl": tot["validated"],
            "samples": samples or [{"note": "no sample"}],
            "explanation": "states: symbolic execution paths of the real code explored; "
                           "transitions: branch decisions taken plus requirement queries; "
                           "traces: concrete runs of the real code compared with the encoding",
            "obligations": sum(o["requirements"] for o in obl),
            "discharged": sum(o["discharged"] for o in obl),
            "functions_encoded": sorted(funcs),
            "harnesses": obl,
            "queries": tot["queries"], "branch_queries": tot["branch_queries"],
            "unsat": tot["unsat"], "sat": tot["sat"], "unknown": tot["unknown"],
            "solver_s": round(tot["solver_s"], 3),
            "paths_with_requirements": tot["paths_checked"], "forks": tot["forks"],
            "inconclusive": inconclusive,
            "exhaustive": False,
        },
        "assumptions": [
            "floating point treated as real arithmetic; float constants a rounding error from a "
            "simple rational are that rational; differences below 1e-12 relative are rounding",
            "numpy.linalg.inv/solve/pinv replaced by their contract for nonsingular matrices; "
            "eig/eigvals by contracts stated per harness",
            "bounds per harness as listed in coverage.harnesses; nothing is claimed outside them",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    return 1 if nviol else 0


def replay(path):
    d = json.load(open(path))
    from engine import harness
    ob = [o for o in load_props()[d["property"]] if o.name == d["obligation"]][0]
    r = harness.replay_values(ob, d["values"])
    print(r["status"])
    for l, x in r["fails"]:
        print(l)
        print("  " + "\n  ".join(str(x).splitlines()))
    return 1 if r["status"] == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())
