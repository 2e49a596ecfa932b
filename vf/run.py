"""python3 -m vf.run <property> <quick|thorough>"""
import json, os, sys, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor
from . import build as B, engine as E
from .props import SPECS


EXPL = ("The listed functions of the current tree are compiled with a symbolic scalar and executed once per case and path; every input is a solver variable ranging over the stated "
        "interval.  Each obligation is an equation or inequality between the code's output and the reference; it is discharged when z3 answers unsat for its negation over all inputs "
        "of the case.  Counterexamples are replayed on the same functions compiled with double before they are reported.")


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    spec = SPECS[prop]
    drivers = spec["drivers"] + (spec["tdrivers"] if tier == "thorough" else [])
    t0 = time.time()
    budget = 780 if tier == "quick" else 5400
    deadline = t0 + budget
    stats = E.Stats()
    logs = []

    def log(s):
        logs.append(s)
        print(s, flush=True)

    known = json.load(open(os.path.join(B.VERIF, "known_findings.json")))["findings"]
    pool = ThreadPoolExecutor(B.JOBS)
    comp = []
    try:
        exe = B.build(drivers, True, log=comp)
    except B.BuildError as e:
        print(str(e))
        print("INCONCLUSIVE property=%s: the symbolic driver does not compile against the current tree" % prop)
        return 2
    t_build = time.time() - t0
    log("built symbolic driver in %.0fs" % t_build)
    rexe = []

    rlock = threading.Lock()

    def replay_exe():
        with rlock:
            if not rexe:
                rexe.append(B.build(drivers, False))
            return rexe[0]

    dec = E.Decider(prop, exe, replay_exe, stats, pool, deadline, known, log)
    cov_cases = []
    tot = {"lemmas_proved": 0, "lemmas_open": 0, "undecided_flips": 0, "closed_flips": 0, "pending": 0}
    notes = set()
    outer = ThreadPoolExecutor(4)
    cases = list(spec["cases"]) + (list(spec.get("thorough_cases", [])) if tier == "thorough" else [])
    if tier == "thorough":
        cases = [c.scaled(4) for c in cases]
    futs = [outer.submit(E.process, c, dec, stats, pool, deadline) for c in cases]
    for f in futs:
        cs, res, info, dt = f.result()
        for k in tot:
            tot[k] += info[k]
        for r in res:
            notes.update(r.get("notes", []))
        nob = sum(len(g["obls"]) for r in res for g in r.get("groups", []))
        log("case %-40s paths=%d nodes=%s obligations=%d flips: %d impossible %d undecided, signs: %d proved %d open  %.1fs" % (
            cs.name, len(res), max([r.get("nodes", 0) for r in res] or [0]), nob, info["closed_flips"], info["undecided_flips"], info["lemmas_proved"], info["lemmas_open"], dt))
        cov_cases.append({"case": cs.name, "paths": len(res), "path_witnesses": [{x["name"]: x["val"] for x in r.get("inputs", [])} for r in res][:4],
                          "inputs": [{"name": x["name"], "lo": x["lo"], "hi": x["hi"]} for x in (res[0].get("inputs", []) if res else [])],
                          "nodes": max([r.get("nodes", 0) for r in res] or [0]), "branch_conditions": max([r.get("branches", 0) for r in res] or [0]),
                          "branch_flips_impossible": info["closed_flips"], "branch_flips_undecided": info["undecided_flips"], "paths_left_unexplored": info["pending"],
                          "sign_conditions_proved": info["lemmas_proved"], "sign_conditions_open": info["lemmas_open"], "obligations": nob})
    outer.shutdown()
    pool.shutdown()
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "other"),
          "coverage": {
              "explanation": EXPL,
              "functions_encoded": spec["functions"], "bounds": spec["bounds"], "outside_bounds": spec["outside"],
              "obligations": dec.total, "discharged": dec.discharged, "holds_within_tolerance_on_path": dec.subtol,
              "queries": stats.queries, "unsat": stats.unsat, "sat": stats.sat, "unknown": stats.unknown, "solver_s": round(stats.solver_s, 2),
              "largest_query_terms": dec.maxterms, "paths": tot,
              "cases": cov_cases, "concretised": sorted(notes), "build_s": round(t_build, 1), "inconclusive": dec.inconclusive, "undecided_on_side_paths": dec.minor,
              "solver": "z3 (z3-new)", "known_findings": [k["what"] for k in dec.knownhits]},
          "assumptions": spec["assumptions"], "violations": len(dec.violations), "wall_s": round(time.time() - t0, 1)}
    os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
    rpath = os.path.join(B.VERIF, "evidence", "replay-%s.json" % prop)
    if dec.violations:
        json.dump({"property": prop, "driver": drivers, "violations": dec.violations,
                   "how": "python3 -m vf.replay %s  (runs the listed inputs through the real code compiled with double)" % prop}, open(rpath, "w"), indent=1)
    json.dump(ev, open(os.path.join(B.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in dec.knownhits:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v in dec.minor:
        print("note: " + v)
    for v in dec.inconclusive:
        print("inconclusive: " + v)
    print("%s %s: %d/%d obligations discharged, %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, wall %.0fs" % (
        prop, tier, dec.discharged, dec.total, stats.queries, stats.unsat, stats.sat, stats.unknown, stats.solver_s, time.time() - t0))
    if dec.violations:
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        return 1
    if dec.discharged + dec.subtol < 0.5 * max(1, dec.total) or len(dec.bad_cases) > len(cases) / 3:
        # too little was decided for a verdict
        print("INCONCLUSIVE property=%s" % prop)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
