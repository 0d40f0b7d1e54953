"""Runs the real code of /repo against executable readings of the contracts.

Each property module defines
  CHECKS = {name: function(*args) -> None, or a sentence saying what is wrong}
  cases(ctx) -> an iterable of (name, args): fixed part first, then random part
args are JSON values, so that every failing case can be replayed from its file.
"""
import argparse, ast, contextlib, hashlib, importlib, io, itertools, json, os, random, signal, sys, time, traceback, warnings

HERE = os.path.dirname(os.path.abspath(__file__))


class TooSlow(BaseException):
    pass


def _alarm(sig, frame):
    raise TooSlow()


class Ctx:
    def __init__(self, seed, shard, shards, tier, repo, budget, scratch):
        self.seed, self.shard, self.shards, self.tier = seed, shard, shards, tier
        self.rng = random.Random(1000003 * seed + shard)
        self.repo = repo
        self.budget = budget
        self.scratch = scratch
        self.t0 = time.time()
        self.thorough = tier == "thorough"

    def left(self):
        return self.budget - (time.time() - self.t0)

    def constants(self, files, lo=2, hi=400):
        """Whole numbers that occur in the code: inputs around them are worth trying."""
        out = set()
        for f in files:
            try:
                tree = ast.parse(open(os.path.join(self.repo, f)).read())
            except (OSError, SyntaxError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) in (int, float) and lo <= n.value <= hi:
                    out.add(int(n.value))
        return sorted(out)

    def around(self, files, lo, hi):
        s = set()
        for c in self.constants(files, lo=lo, hi=hi):
            s |= {c - 1, c, c + 1}
        return sorted(x for x in s if lo <= x <= hi)


def key(name, args):
    return name + json.dumps(args, sort_keys=True, default=str)


def evaluate(mod, name, args, limit):
    """None if the case holds, otherwise a sentence."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            return mod.CHECKS[name](*args)
    except TooSlow:
        return "no result within %d s" % limit
    except KeyboardInterrupt:
        raise
    except MemoryError:
        raise
    except BaseException as ex:           # SystemExit of the code under test included
        if isinstance(ex, Skip):
            return None
        tb = traceback.extract_tb(ex.__traceback__)
        where = ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-3:]
        return "%s: %s (%s)" % (type(ex).__name__, str(ex)[:300], " > ".join(where))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Skip(Exception):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=40)
    ap.add_argument("--out")
    ap.add_argument("--scratch", default=None)
    ap.add_argument("--candidates")
    ap.add_argument("--case")
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(5000)
    sys.path.insert(0, HERE)
    sys.path.insert(0, a.repo)
    sys.dont_write_bytecode = True
    i, k = map(int, a.shard.split("/"))
    scratch = a.scratch or os.path.join(os.environ.get("TMPDIR", "/tmp"), "bounded_%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    ctx = Ctx(a.seed, i, k, a.tier, a.repo, a.budget, scratch)
    res = {"evaluations": 0, "distinct": 0, "failures": [], "samples": [], "kinds": {}, "complete": False}
    seen = set()
    try:
        import phenum
        base = os.path.dirname(os.path.abspath(phenum.__file__))
        if not base.startswith(os.path.abspath(a.repo)):
            raise RuntimeError("phenum imported from %s" % base)
        mod = importlib.import_module(a.prop.lower())
        mod.ctx = ctx
    except BaseException as ex:
        res["error"] = traceback.format_exc()[-1500:]
        json.dump(res, open(a.out, "w")) if a.out else print(res)
        return
    limit = getattr(mod, "LIMIT", 30)
    if a.case:
        c = json.load(open(a.case))
        msg = evaluate(mod, c["name"], c["args"], 4 * limit)
        print(json.dumps({"holds": msg is None, "message": msg}))
        return 0 if msg is None else 1
    todo = []
    if a.candidates:
        todo = [(c[0], c[1]) for c in json.load(open(a.candidates)) if c[0] in mod.CHECKS]
    stream = itertools.chain(((n, x, True) for n, x in todo), ((n, x, False) for n, x in mod.cases(ctx)))
    nfix = 0
    names = set()
    for n, args, own in stream:
        if ctx.left() < 0:
            break
        args = json.loads(json.dumps(args))
        kk = hashlib.sha1(key(n, args).encode()).digest()
        if kk in seen:
            continue
        seen.add(kk)
        # one worker in k looks at each case
        if k > 1 and not own and int.from_bytes(kk[:4], "big") % k != i and not getattr(ctx, "random_part", False):
            continue
        msg = evaluate(mod, n, args, limit)
        if msg is not None and msg.startswith("no result"):
            msg = evaluate(mod, n, args, 3 * limit)
        res["evaluations"] += 1
        res["kinds"][n] = res["kinds"].get(n, 0) + 1
        if len(res["samples"]) < 3 or (n not in names and len(res["samples"]) < 12):
            names.add(n)
            t = json.dumps([n, args])
            res["samples"].append(t if len(t) < 400 else t[:400] + "...")
        if msg is not None:
            # findings on record must not crowd out anything else
            if msg.startswith(tuple(getattr(mod, "KNOWN", ()))):
                if sum(1 for f in res["failures"] if f.get("known")) < 2:
                    res["failures"].append({"name": n, "args": args, "message": msg, "known": True})
                continue
            res["failures"].append({"name": n, "args": args, "message": msg})
            if sum(1 for f in res["failures"] if not f.get("known")) >= (60 if a.tier == "thorough" else 30):
                break
    else:
        res["complete"] = True
    res["distinct"] = res["evaluations"]
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        print(json.dumps(res, indent=1))


if __name__ == "__main__":
    sys.modules["harness"] = sys.modules["__main__"]
    sys.exit(main())
