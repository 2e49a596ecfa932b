"""python3 -m vf.replay <property> [file]: runs the counterexamples of the last violation through the real code (double)."""
import json, os, sys
from fractions import Fraction
from . import build as B, engine as E


def main():
    prop = sys.argv[1]
    f = sys.argv[2] if len(sys.argv) > 2 else os.path.join(B.VERIF, "evidence", "replay-%s.json" % prop)
    d = json.load(open(f))
    exe = B.build(d["driver"], False)
    rc = 0
    for v in d["violations"]:
        rep = E.run_driver(exe, v["case"], {k: Fraction(x) for k, x in v["inputs"].items()}, 120)
        bad = E.replay_bad(rep, v["obligation"])
        print("%s %s inputs=%s: %s" % (v["case"], v["obligation"], v["inputs"], "FAILS: " + bad if bad else "holds"))
        rc |= bool(bad)
    return rc


if __name__ == "__main__":
    sys.exit(main())
