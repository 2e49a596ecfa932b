"""Path exploration, solver queries, counterexample replay."""
import json, os, re, subprocess, sys, tempfile, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from . import build as B

Z3 = shutil.which("z3-new") or shutil.which("z3")
CVC5 = shutil.which("cvc5")


def frac(s):
    return Fraction(s)


def smtq(f):
    f = Fraction(f)
    n = "%d.0" % abs(f.numerator)
    r = n if f.denominator == 1 else "(/ %s %d.0)" % (n, f.denominator)
    return "(- %s)" % r if f < 0 else r


class Stats:
    def __init__(self):
        self.lock = threading.Lock()
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0

    def add(self, verdict, t):
        with self.lock:
            self.queries += 1
            self.solver_s += t
            setattr(self, verdict, getattr(self, verdict) + 1)


def solve(smt, timeout, stats, want_model=False):
    """returns (verdict, model dict)"""
    txt = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n" + smt + "\n(check-sat)\n" + ("(get-model)\n" if want_model else "")
    t = time.time()
    try:
        r = subprocess.run([Z3, "-in", "-T:%d" % max(1, int(timeout)), "-memory:6000"], input=txt.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout + 15)
        out = r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        out = "timeout"
    first = out.strip().split("\n")[0].strip() if out.strip() else "unknown"
    v = first if first in ("sat", "unsat") else "unknown"
    if "error" in out and v == "unknown" and os.environ.get("VF_DEBUG"):
        sys.stderr.write("solver error: " + out[:500] + "\n")
        open("/tmp/vf_err.smt2", "w").write(txt)
    stats.add(v, time.time() - t)
    m = {}
    if v == "sat" and want_model:
        for k, val in re.findall(r"\(define-fun\s+(\|[^|]*\||\S+)\s+\(\)\s+Real\s+((?:\([^()]*(?:\([^()]*\))?[^()]*\)|[^()\s]+))\)", out):
            f = parse_val(val)
            if f is not None:
                m[k.strip("|")] = f
    return v, m


def parse_val(s):
    s = s.strip().replace("?", "")
    try:
        toks = s.replace("(", " ( ").replace(")", " ) ").split()

        def p(i):
            if toks[i] == "(":
                op = toks[i + 1]
                args = []
                i += 2
                while toks[i] != ")":
                    v, i = p(i)
                    args.append(v)
                i += 1
                if op == "-":
                    return (-args[0] if len(args) == 1 else args[0] - args[1]), i
                if op == "/":
                    return args[0] / args[1], i
                if op == "+":
                    return sum(args), i
                if op == "*":
                    r = Fraction(1)
                    for a in args:
                        r *= a
                    return r, i
                raise ValueError
            return Fraction(toks[i]), i + 1
        return p(0)[0]
    except Exception:
        return None


def run_driver(exe, case, inputs, timeout, mem_gb=8):
    d = tempfile.mkdtemp(prefix="vf-", dir=B.BUILD)
    try:
        outf = os.path.join(d, "out.json")
        args = [exe, case, outf]
        if inputs:
            inf = os.path.join(d, "in.txt")
            with open(inf, "w") as f:
                for k, v in inputs.items():
                    v = Fraction(v)
                    f.write("%s %d/%d\n" % (k, v.numerator, v.denominator))
            args.append(inf)
        pre = "ulimit -v %d; exec \"$@\"" % (mem_gb * 1024 * 1024)
        try:
            r = subprocess.run(["bash", "-c", pre, "sh"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            return {"status": "timeout", "case": case}
        if not os.path.exists(outf):
            return {"status": "crash", "case": case, "rc": r.returncode, "msg": r.stdout.decode("utf8", "replace")[-2000:]}
        try:
            return json.load(open(outf))
        except Exception as e:
            return {"status": "crash", "case": case, "rc": r.returncode, "msg": "bad output %s %s" % (e, r.stdout.decode("utf8", "replace")[-500:])}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def domain(inputs):
    s = ""
    for i in inputs:
        s += "(declare-const |%s| Real)\n(assert (and (<= %s |%s|) (<= |%s| %s)))\n" % (i["name"], smtq(i["lo"]), i["name"], i["name"], smtq(i["hi"]))
    return s


def group_decls(g, inputs):
    """declarations of all atoms of a group with their defining constraints"""
    names = {i["name"] for i in inputs}
    s = domain(inputs)
    for a in g["atoms"]:
        if a["kind"] == 0 and a["name"] in names:
            continue
        s += "(declare-const %s Real)\n" % a["name"]
    for a in g["atoms"]:
        if a["kind"] == 1:
            s += "(assert (and (> %s 0.0) (= (* %s) %s)))\n" % (a["name"], " ".join([a["name"]] * a["k"]), a["base"])
        if a["kind"] == 3:
            s += "(assert (= 1.0 (+ (* %s %s) (* %s %s))))\n" % (a["name"], a["name"], a["cos"], a["cos"])
    for d in g["dens"]:
        s += "(assert (not (= %s 0.0)))\n" % d
    for x in g["assume"]:
        s += "(assert %s)\n" % x
    return s


def lemma_asserts(g):
    return "".join("(assert (%s %s 0.0))\n" % (">" if l["s"] > 0 else "<", l["p"]) for l in g["lemmas"])


def goal(o):
    l, r = o["l"], o["r"]
    if o["kind"] == 0:
        return "(not (= %s %s))" % (l, r)
    if o["kind"] == 1:
        return "(> %s %s)" % (l, r)
    return "(>= %s %s)" % (l, r)


def margin_goal(o, rel):
    l, r = o["l"], o["r"]
    if o["kind"] != 0:
        return goal(o)
    m = "(* %s (+ (ite (< L 0.0) (- L) L) (ite (< R 0.0) (- R) R)))" % smtq(rel)
    return "(let ((L %s) (R %s)) (or (> (- L R) %s) (< (- L R) (- %s))))" % (l, r, m, m)


class Violation(Exception):
    pass


REL_TOL = 2e-5   # replay: relative deviation that counts as a confirmed violation
ABS_TOL = 1e-9


def replay_bad(rep, name):
    """does the replay (real double code) confirm that obligation `name` fails?"""
    if rep.get("status") in ("exception", "crash"):
        return "the real code fails: " + rep.get("msg", "")[:300]
    for o in rep.get("obls", []):
        if o["name"] == name:
            l, r = o["l"], o["r"]
            if o["nan"]:
                return "not-a-number result"
            sc = max(abs(l), abs(r))
            d = l - r
            if o["kind"] == 0 and abs(d) > REL_TOL * sc + ABS_TOL:
                return "got %.12g expected %.12g" % (l, r)
            if o["kind"] in (1, 2) and d > REL_TOL * sc + ABS_TOL:
                return "%.12g exceeds %.12g" % (l, r)
            return None
    return None


class Case:
    def __init__(self, name, max_paths=3, flip_timeout=3, timeout=120, flips=True, budget=60):
        self.name, self.max_paths, self.flip_timeout, self.timeout, self.flips, self.budget = name, max_paths, flip_timeout, timeout, flips, budget

    def scaled(self, k):
        return Case(self.name, self.max_paths * k, self.flip_timeout * k, self.timeout * k, self.flips, self.budget * k * 2)


def flip_queries(r, case, stats, pool, flipped):
    """solver queries for the branches not taken on this path; returns (inputs of new paths, undecided)"""
    key = tuple(r["path"])
    pre = domain(r["inputs"]) + r["pathdefs"] + "".join("(assert %s)\n" % a for a in r["assume"])
    jobs = []
    for i in range(len(key)):
        fk = key[:i] + ("!" + key[i],)
        if fk in flipped:
            continue
        flipped.add(fk)
        c = key[i]
        neg = c[5:-1] if c.startswith("(not ") else "(not %s)" % c
        smt = pre + "".join("(assert %s)\n" % x for x in key[:i]) + "(assert %s)\n" % neg
        jobs.append(pool.submit(solve, smt, case.flip_timeout, stats, True))
        if len(jobs) >= 24:
            break
    new, unk, closed = [], 0, 0
    for j in jobs:
        v, m = j.result()
        if v == "sat":
            new.append({x["name"]: clamp(m.get(x["name"], Fraction(x["val"])), x) for x in r["inputs"]})
        elif v == "unknown":
            unk += 1
        else:
            closed += 1
    return new, unk, closed


def clamp(v, x):
    lo, hi = Fraction(x["lo"]), Fraction(x["hi"])
    return min(max(v, lo), hi)


def lemma_queries(r, stats, pool, timeout):
    """are the sign assumptions of the encoding (taken from the path witness) forced by the bounds?"""
    jobs = []
    for g in r.get("groups", []):
        for l in g["lemmas"]:
            smt = group_decls(g, r["inputs"]) + "(assert (%s %s 0.0))\n" % ("<=" if l["s"] > 0 else ">=", l["p"])
            jobs.append(pool.submit(solve, smt, timeout, stats, True))
    proved = open_ = 0
    new = []
    for j in jobs:
        v, m = j.result()
        if v == "unsat":
            proved += 1
        else:
            open_ += 1
            if v == "sat":
                new.append({x["name"]: clamp(m.get(x["name"], Fraction(x["val"])), x) for x in r["inputs"]})
    return proved, open_, new


MAX_VIOLATIONS = 6


def process(case, dec, stats, pool, deadline):
    """explore the paths of one case and decide the obligations of each"""
    t0 = time.time()
    results, work, seen, flipped = [], [{}], set(), set()
    info = {"undecided_flips": 0, "closed_flips": 0, "lemmas_proved": 0, "lemmas_open": 0, "pending": 0}
    tried = 0
    while work and len(results) < case.max_paths and tried < 3 * case.max_paths and len(dec.violations) < MAX_VIOLATIONS:
        if results and (time.time() > deadline or time.time() - t0 > case.budget):
            break
        inputs = work.pop(0)
        tried += 1
        r = run_driver(dec.exe, case.name, inputs, case.timeout)
        r["given"] = {k: str(v) for k, v in inputs.items()}
        key = tuple(r.get("path", [])) + tuple(str(l["s"]) for g in r.get("groups", []) for l in g["lemmas"])
        if key in seen and results:
            continue
        seen.add(key)
        main = not results
        results.append(r)
        dec.result(case, r, main)
        if r["status"] != "ok" or not case.flips or len(results) >= case.max_paths and case.max_paths > 1:
            continue
        new, unk, closed = flip_queries(r, case, stats, pool, flipped)
        info["undecided_flips"] += unk
        info["closed_flips"] += closed
        work += new
        p, o, new = lemma_queries(r, stats, pool, case.flip_timeout)
        info["lemmas_proved"] += p
        info["lemmas_open"] += o
        work += new
    info["pending"] = len(work)
    return case, results, info, time.time() - t0


class Decider:
    def __init__(self, prop, exe_sym, exe_replay_fn, stats, pool, deadline, known, log):
        self.prop, self.exe, self.replay_fn, self.stats, self.pool, self.deadline, self.known, self.log = prop, exe_sym, exe_replay_fn, stats, pool, deadline, known, log
        self.violations, self.knownhits, self.inconclusive, self.minor, self.discharged, self.total, self.subtol = [], [], [], [], 0, 0, 0
        self.lock = threading.Lock()
        self.maxterms = 0
        self.skipped = 0
        self.fid_checked = 0
        self.bad_cases = set()

    def query(self, r, g, obls, with_path=False, mg=None, pins=None, timeout=60, model=False):
        if len(self.violations) >= MAX_VIOLATIONS:
            return "unknown", {}
        s = group_decls(g, r["inputs"]) + lemma_asserts(g)
        raw = [o for o in obls if o["form"] == "raw"]
        if with_path or raw:
            # raw definitions share names, keep the first of each
            defs = {}
            blocks = ([r["pathdefs"]] if with_path else []) + [o["defs"] for o in raw]
            lines, seen = [], set()
            for b in blocks:
                for ln in b.split("\n"):
                    mm = re.match(r"\((?:define-fun|declare-const) (\S+)", ln)
                    if mm:
                        if mm.group(1) in seen:
                            continue
                        seen.add(mm.group(1))
                    lines.append(ln)
            s += "\n".join(lines) + "\n"
            if with_path:
                s += "".join("(assert %s)\n" % x for x in r["assume"]) + "".join("(assert %s)\n" % x for x in r["path"])
        if pins:
            s += "".join("(assert (= |%s| %s))\n" % (k, smtq(v)) for k, v in pins.items())
        gs = [margin_goal(o, mg) if mg else goal(o) for o in obls]
        s += "(assert %s)\n" % (gs[0] if len(gs) == 1 else "(or %s)" % " ".join(gs))
        return solve(s, timeout, self.stats, model)

    def replay(self, case, inputs, name):
        exe = self.replay_fn()
        rep = run_driver(exe, case, inputs, 120)
        return replay_bad(rep, name), rep

    def candidate(self, case, r, o, inputs):
        bad, rep = self.replay(case, inputs, o["name"])
        if not bad:
            return False
        self.report(case, o["name"], inputs, bad, rep)
        return True

    def report(self, case, name, inputs, bad, rep):
        for k in self.known:
            if k.get("property") == self.prop and k.get("status") == "open" and re.fullmatch(k["case"], case) and re.fullmatch(k["obligation"], name):
                if k not in self.knownhits:
                    self.knownhits.append(k)
                return
        self.violations.append({"case": case, "obligation": name, "inputs": {a: str(b) for a, b in inputs.items()}, "observed": bad,
                                "replay_status": rep.get("status")})
        self.log("counterexample confirmed: case=%s obligation=%s inputs=%s: %s" % (case, name, {a: str(b) for a, b in inputs.items()}, bad))

    def undecided(self, main, msg):
        """main path: the check gives no verdict; other paths: reported in the evidence only"""
        with self.lock:
            (self.inconclusive if main else self.minor).append(msg)

    def count(self, what, n):
        with self.lock:
            setattr(self, what, getattr(self, what) + n)

    def result(self, cs, r, main=True):
        """decide all obligations of one explored path"""
        case = cs.name
        wit = {x["name"]: Fraction(x["val"]) for x in r.get("inputs", [])}
        if r["status"] in ("exception", "crash"):
            # the real code must not fail on admissible inputs
            self.count("total", 1)
            bad, rep = self.replay(case, wit, "")
            if bad:
                self.report(case, "no-failure", wit, bad, rep)
            else:
                if main:
                    self.bad_cases.add(case)
                self.undecided(main, "%s: symbolic run failed (%s) but the real code does not" % (case, r.get("msg", "")[:200]))
            return
        if r["status"] != "ok":
            if main:
                self.bad_cases.add(case)
            self.undecided(main, "%s: %s %s" % (case, r["status"], r.get("msg", "")[:300]))
            return
        for g in r["groups"]:
            obls = g["obls"]
            self.count("total", len(obls))
            poly = [o for o in obls if o["form"] == "poly"]
            raw = [o for o in obls if o["form"] == "raw"]
            for o in poly:
                self.maxterms = max(self.maxterms, o["terms"])
            batches, cur, size = [], [], 0
            for o in poly:
                if cur and (size + o["terms"] > 20000 or len(cur) >= 60):
                    batches.append(cur)
                    cur, size = [], 0
                cur.append(o)
                size += o["terms"]
            if cur:
                batches.append(cur)
            jobs = [(b, self.pool.submit(self.query, r, g, b)) for b in batches]
            todo = []
            for b, j in jobs:
                v, _ = j.result()
                if v == "unsat":
                    self.count("discharged", len(b))
                elif len(b) == 1:
                    todo.append(b[0])
                else:
                    # obligations that fail at the witness of the path go straight to the confirmation
                    todo += [o for o in b if self.bad_at_witness(o)]
                    jj = [(o, self.pool.submit(self.query, r, g, [o])) for o in b if not self.bad_at_witness(o)]
                    for o, x in jj:
                        if x.result()[0] == "unsat":
                            self.count("discharged", 1)
                        else:
                            todo.append(o)
            jj = [(o, self.pool.submit(self.query, r, g, [o], False, None, None, 30)) for o in raw]
            for o, x in jj:
                if x.result()[0] == "unsat":
                    self.count("discharged", 1)
                else:
                    todo.append(o)
            self.failing(case, r, g, todo, wit, main)

    @staticmethod
    def bad_at_witness(o):
        sc = abs(o["wl"]) + abs(o["wr"])
        return abs(o["wd"]) > 1e-4 * sc + 1e-8 if o["kind"] == 0 else o["wd"] > 1e-4 * sc + 1e-8

    def failing(self, case, r, g, todo, wit, main):
        hits = 0
        # largest deviation at the witness first
        todo.sort(key=lambda o: -abs(o["wd"]) / (abs(o["wl"]) + abs(o["wr"]) + 1e-3))
        for o in todo:
            if hits >= 2 or len(self.violations) >= MAX_VIOLATIONS:
                self.count("skipped", 1)
                continue
            # 1. the witness of the path itself
            if self.bad_at_witness(o):
                v, _ = self.query(r, g, [o], False, None, wit, 20)
                if self.candidate(case, r, o, wit):
                    hits += 1
                    continue
            # 2. with the path condition: is the deviation reachable at all?
            v, m = self.query(r, g, [o], True, None, None, 20, False)
            if v == "unsat":
                self.count("discharged", 1)
                continue
            # 3. a model with a margin, on this path
            done = False
            for rel, pins in [(Fraction(1, 20), None), (Fraction(1, 1000), None)]:
                v, m = self.query(r, g, [o], True, rel, pins, 20, True)
                if v == "sat":
                    inp = {k: m.get(k, wit[k]) for k in wit}
                    if self.candidate(case, r, o, inp):
                        done = True
                        break
                elif v == "unsat" and rel == Fraction(1, 1000):
                    self.count("subtol", 1)
                    done = True
                    break
            if done:
                hits += 1
                continue
            # 4. pin all inputs but one
            names = list(wit)
            for k in names[:8]:
                pins = {n: wit[n] for n in names if n != k}
                v, m = self.query(r, g, [o], True, Fraction(1, 100), pins, 10, True)
                if v == "sat" and k in m:
                    inp = dict(pins)
                    inp[k] = m[k]
                    if self.candidate(case, r, o, inp):
                        done = True
                        break
            if done:
                hits += 1
                continue
            self.undecided(main, "%s: obligation %s not decided (witness deviation %.3g)" % (case, o["name"], o["wd"]))
