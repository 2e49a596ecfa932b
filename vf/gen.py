"""python3 -m vf.gen: writes properties.jsonl and MANIFEST.json from vf/props.py"""
import json, os
from . import build as B
from .props import P, NOT_APPLICABLE

TECH = ("solver-based checking of the real code: /repo's templates are compiled with a symbolic scalar type and executed symbolically; z3 decides the "
        "property's assertions over all input values within the bounds; counterexamples are replayed on the same code compiled with double")


def main():
    with open(os.path.join(B.VERIF, "properties.jsonl"), "w") as f:
        for p in P + [n for n in NOT_APPLICABLE]:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}
            if p.get("observe"):
                d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "true",
         "checks": [{"property": p["id"], "quick_cmd": "python3 -m vf.run %s quick" % p["id"], "thorough_cmd": "python3 -m vf.run %s thorough" % p["id"],
                     "technique": TECH, "level": "other",
                     "level_note": "bounded symbolic execution decided by SMT; bounds: %s; outside: %s" % (p["bounds"], p["outside"]) + (" " + p["note"] if p["note"] else "")} for p in P],
         "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE]}
    json.dump(m, open(os.path.join(B.VERIF, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(B.VERIF, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
