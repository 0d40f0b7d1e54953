#!/usr/bin/env python3-vt
"""Decides one property: check.py C01 [--tier quick|thorough] | check.py --replay FILE

1. Generates the proof obligations of every function under contract of the
   property from /repo's current source and discharges them with SMT solvers.
2. Runs the real code on inputs (solver counterexamples, fixed and random ones)
   against executable readings of the contracts: the replay of failures, and the
   bounded stand-in for functions outside the verifier's reach.
"""
import argparse, hashlib, importlib.util, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JOBS = 8


def load(p):
    spec = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def build(prop):
    from pyvc.program import Program
    reg = load(HERE + "/specs/registry.py").PROPS[prop]
    contracts = {}
    for f in reg["contracts"]:
        f, _, only = f.partition("#")
        cs = load(HERE + "/specs/" + f).CONTRACTS
        contracts.update({k: v for k, v in cs.items() if not only or k.startswith(only)})
    theories = [HERE + "/specs/" + t for t in reg["theories"]]
    return reg, Program(REPO, theories, contracts), contracts


class Proof:
    def __init__(self):
        self.failed = []          # (obligation, detail)
        self.results = []
        self.engines = {}
        self.functions = {}
        self.trusted = set()
        self.notes = set()
        self.inlined = set()
        self.unterminated = set()
        self.beyond = []
        self.time = 0.0


def prove(prop, P, contracts, workdir, slow):
    from pyvc import solve
    from pyvc.symex import Unsupported
    pr = Proof()
    vcs = []
    for n in P.specfns:
        vcs += P.verify_spec(n)
    for n in P.lemmas:
        vcs += P.verify_lemma(n).vcs
    pr.theory = len(vcs)
    for k in contracts:
        if contracts[k].get("assumed"):
            pr.trusted.add("contract of %s is assumed: %s" % (k, contracts[k]["assumed"]))
            continue
        try:
            e = P.verify_function(k)
        except Unsupported as ex:
            pr.failed.append(("%s:within the verifier's reach" % k, str(ex)))
            pr.functions[k] = {"obligations": 0, "beyond reach": str(ex)}
            pr.beyond.append(k)
            continue
        except Exception as ex:                      # an engine error is no verdict on the code
            pr.failed.append(("%s:within the verifier's reach" % k, "%s: %s" % (type(ex).__name__, ex)))
            pr.functions[k] = {"obligations": 0, "beyond reach": "%s: %s" % (type(ex).__name__, ex)}
            pr.beyond.append(k)
            continue
        pr.engines[k] = e
        pr.functions[k] = {"obligations": len(e.vcs)}
        pr.trusted |= set(e.trusted)
        pr.notes |= {k + ": " + n for n in e.notes}
        pr.inlined |= set(e.inlined)
        pr.unterminated |= set(e.unproved_termination)
        if not e.vcs:
            pr.failed.append(("%s:has obligations" % k, "no obligation was generated"))
        bad = vacuous(e)
        if bad:
            pr.failed.append(("%s:not vacuous" % k, bad))
        vcs += e.vcs
    t = time.time()
    pr.results = solve.discharge(vcs, P, workdir, jobs=JOBS, slow=slow)
    pr.wall = time.time() - t
    for r in pr.results:
        pr.time += r.time
        if not r.ok:
            pr.failed.append((r.vc.name, r.detail))
    return pr


def vacuous(e):
    """Preconditions, and some path to a return, must not be contradictory."""
    import z3

    def refuted(hyps):
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*hyps)
        return s.check() == z3.unsat
    if refuted(e.requires_pc):
        return "the precondition is contradictory"
    rets = getattr(e, "return_pcs", [])
    if rets and all(refuted(h) for h in rets[:6]) and len(rets) <= 6:
        return "no return is reachable under the precondition"
    return None


def candidates(pr, P, reg):
    """Inputs from solver models of failed obligations."""
    import z3
    from pyvc import solve
    out, hints = [], {}
    th = None
    for r in pr.results:
        if r.ok or len(out) > 40:
            continue
        key = next((k for k in pr.engines if r.vc.name.startswith(k + ":")), None)
        rep = reg.get("replay", {}).get(key)
        if rep is None:
            continue
        e = pr.engines[key]
        try:
            th = th or solve.Theory(P, ())
            for base, g2, ax in solve.prepare(r.vc, P, th):
                s = z3.Solver()
                s.set("timeout", 3000)
                s.add(*base)
                s.add(*g2)
                if s.check() == z3.unsat:
                    continue
                m = s.model()
                vals = {n: concrete(m, v, e) for n, v in e.entry_params.items()}
                if all(vals.get(a) is not None for a in rep[1]):
                    out.append([rep[0], [vals[a] for a in rep[1]]])
                    r.model = {n: x for n, x in vals.items() if x is not None}
        except Exception:
            continue
    return out


def concrete(m, v, e, depth=0):
    import z3
    from pyvc.symex import VRef, SListV, CListV
    if isinstance(v, (bool, int)):
        return v
    if isinstance(v, z3.ExprRef):
        x = m.eval(v, model_completion=True)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x) or z3.is_false(x):
            return z3.is_true(x)
        return None
    if isinstance(v, VRef):
        c = e.entry_heap[v.id]
        if isinstance(c, SListV):
            n = concrete(m, c.length, e)
            if n is None or not 0 <= n <= 60 or c.elem.kind not in ("int", "bool"):
                return None
            return [concrete(m, z3.Select(c.arr, i), e) for i in range(n)]
        if isinstance(c, CListV):
            return [concrete(m, x, e) for x in c.items]
    return None


def bounded(prop, tier, seed, budget, scratch, cands=None):
    """Runs the bounded part in JOBS processes; returns the merged result."""
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
    cf = None
    if cands:
        cf = os.path.join(scratch, "cands.json")
        json.dump(cands, open(cf, "w"))
    procs = []
    for i in range(JOBS):
        out = os.path.join(scratch, "b%d.json" % i)
        sd = os.path.join(scratch, "s%d" % i)
        cmd = [PY, HERE + "/bounded/harness.py", prop, "--repo", REPO, "--seed", str(seed), "--shard", "%d/%d" % (i, JOBS),
               "--tier", tier, "--budget", str(budget), "--out", out, "--scratch", sd]
        if cf:
            cmd += ["--candidates", cf]
        procs.append((subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(scratch, "e%d" % i), "w"), cwd=scratch), out, i))
    res = {"evaluations": 0, "distinct": 0, "failures": [], "samples": [], "kinds": {}, "errors": []}
    t0 = time.time()
    for p, out, i in procs:
        try:
            p.wait(timeout=max(5, budget + 240 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            d = json.load(open(out))
        except Exception:
            res["errors"].append("worker %d ended with %s: %s" % (i, p.returncode, open(os.path.join(scratch, "e%d" % i)).read()[-400:]))
            continue
        if d.get("error"):
            res["errors"].append(d["error"])
        res["evaluations"] += d["evaluations"]
        res["distinct"] += d["distinct"]
        res["failures"] += d["failures"]
        res["samples"] += d["samples"]
        for k, n in d["kinds"].items():
            res["kinds"][k] = res["kinds"].get(k, 0) + n
    res["samples"] = res["samples"][:12]
    return res


def known_findings(prop):
    try:
        d = json.load(open(HERE + "/known_findings.json"))
    except OSError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


def matches(f, case):
    """A listed finding names the kind of case and the exact inputs or message it covers."""
    if f["case"] != case["name"]:
        return False
    if "args" in f:
        return f["args"] == case["args"]
    return case["message"].startswith(f["message_prefix"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--noproof", action="store_true")
    ap.add_argument("--nobounded", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return run(prop, tier, seed, scratch, t0, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, scratch, t0, a):
    reg, P, contracts = build(prop)
    if not a.noproof:
        pr = prove(prop, P, contracts, os.path.join(scratch, "vc"), 20 if tier == "quick" else 60)
    else:
        pr = Proof()
        pr.theory = 0
    cands = candidates(pr, P, reg) if pr.failed else None
    budget = reg.get("budget", 30) if tier == "quick" else 240
    b = bounded(prop, tier, seed, budget, scratch, cands) if not a.nobounded else {"evaluations": 0, "distinct": 0, "failures": [], "samples": [], "kinds": {}, "errors": []}
    findings = known_findings(prop)
    new, known = [], {}
    for f in b["failures"]:
        k = next((x for x in findings if matches(x, f)), None)
        if k is None:
            new.append(f)
        else:
            known.setdefault(k["id"], f)
    # ---- obligations that failed without a failing input: try harder
    if pr.failed and not new:
        from pyvc import solve
        redo = [r for r in pr.results if not r.ok]
        if redo and len(redo) <= 12:
            again = solve.discharge([r.vc for r in redo], P, os.path.join(scratch, "vc2"), jobs=3, slow=100 if tier == "quick" else 240, quick=15)
            for r, r2 in zip(redo, again):
                pr.time += r2.time
                if r2.ok:
                    r.ok, r.backend = True, r2.backend
                    pr.failed = [x for x in pr.failed if x[0] != r.vc.name]
        if pr.failed and not a.nobounded:
            b2 = bounded(prop, tier, seed + 7919, budget, scratch, cands)
            b["evaluations"] += b2["evaluations"]
            b["distinct"] += b2["distinct"]
            b["errors"] += b2["errors"]
            new += [f for f in b2["failures"] if not any(matches(x, f) for x in findings)]
    os.makedirs(HERE + "/replays", exist_ok=True)
    code = 0
    violations = 0
    for k, f in sorted(known.items()):
        fk = next(x for x in findings if x["id"] == k)
        print("KNOWN-FINDING: property=%s %s" % (prop, fk["what"]))
    if new:
        code = 1
        new.sort(key=lambda f: len(json.dumps(f["args"])))
        shown = {}
        for f in new:
            shown.setdefault(f["name"], f)
        for f in list(shown.values())[:5]:
            violations += 1
            h = hashlib.sha1(json.dumps([f["name"], f["args"]]).encode()).hexdigest()[:10]
            path = HERE + "/replays/%s-%s.json" % (prop, h)
            json.dump({"property": prop, "name": f["name"], "args": f["args"], "message": f["message"],
                       "failed_obligations": [list(x) for x in pr.failed[:40]], "replay_command": "python3-vt %s/check.py --replay %s" % (HERE, path)}, open(path, "w"), indent=1)
            print("%s: %s" % (f["name"], f["message"]))
            for x in pr.failed[:8]:
                print("  failed obligation: %s" % x[0])
            print("VIOLATION property=%s replay=%s" % (prop, path))
    elif pr.failed or b["errors"]:
        code = 1
        violations = 1
        path = HERE + "/replays/%s-obligations.json" % prop
        models = {r.vc.name: r.model for r in pr.results if not r.ok and hasattr(r, "model")}
        json.dump({"property": prop, "failed_obligations": [list(x) for x in pr.failed], "solver_models_that_did_not_replay": models,
                   "harness_errors": b["errors"], "notes": sorted(pr.notes)[:60]}, open(path, "w"), indent=1)
        for x in pr.failed[:12]:
            print("failed obligation: %s (%s)" % (x[0], str(x[1])[:200]))
        for x in b["errors"][:3]:
            print("harness: %s" % x[-600:])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    evidence(prop, tier, seed, reg, P, contracts, pr, b, known, violations, time.time() - t0)
    n = len(pr.results)
    print("%s: %d of %d obligations discharged, %d real runs, %.0f s" % (prop, sum(r.ok for r in pr.results), n, b["evaluations"], time.time() - t0))
    return code


BASE_TRUST = [
    "the verification condition generator /verif/pyvc and its reading of Python (builtins and list, tuple, dict, str semantics as axiomatised in pyvc/builtins_.py)",
    "the SMT solvers z3 5.3.2, z3 4.8.12 and cvc5 1.1.2",
    "Python integers are mathematical integers (exact); floats, where a contract speaks of them, are treated as real numbers",
    "lists handed in as different parameters do not share rows",
]


def evidence(prop, tier, seed, reg, P, contracts, pr, b, known, violations, wall):
    backs = {}
    for r in pr.results:
        if r.ok:
            backs[r.backend] = backs.get(r.backend, 0) + 1
    for k in pr.functions:
        own = [r for r in pr.results if r.vc.name.startswith(k + ":")]
        pr.functions[k].update(discharged=sum(r.ok for r in own), solver_s=round(sum(r.time for r in own), 2))
    cov = {
        "obligations": len(pr.results) + len(pr.beyond),
        "discharged": sum(r.ok for r in pr.results),
        "checker_cmd": "python3-vt check.py %s" % prop,
        "trusted_base": BASE_TRUST + sorted(pr.trusted),
        "functions_under_contract": pr.functions,
        "theory_obligations": getattr(pr, "theory", 0),
        "by_back_end": backs,
        "solver_s": round(pr.time, 1),
        "inlined_callees": sorted(pr.inlined),
        "evaluations": b["evaluations"],
        "distinct_nontrivial": b["distinct"],
        "rule": reg.get("rule", "bounded: the real code run on fixed small, boundary and random inputs (seeded by VERIF_SEED) and compared with an independent computation; every counted input is distinct within its worker"),
        "bounded_kinds": b["kinds"],
        "samples": b["samples"][:8],
        "explanation": reg.get("explanation", ""),
        "known_findings": sorted(known),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": reg.get("level", "proof"), "coverage": cov, "wall_s": round(wall, 1),
          "assumptions": reg.get("assumptions", []) + (["termination of these loops is not proved: %s" % ", ".join(sorted(pr.unterminated))] if pr.unterminated else []),
          "violations": violations}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    if "name" not in d:
        print("no failing input was found; failed obligations:")
        for x in d["failed_obligations"]:
            print(" ", x[0])
        return 1
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        r = subprocess.run([PY, HERE + "/bounded/harness.py", d["property"], "--repo", REPO, "--case", os.path.abspath(path), "--scratch", scratch], env=env)
        return r.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
