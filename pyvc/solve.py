"""Discharging verification conditions with SMT solvers.

Goals are skolemised and split, recursive specification functions are unfolded
on the ground terms that occur, and the query is given to z3 and cvc5.
"""
import itertools
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import threading
import time
import z3
from .terms import *
from . import terms as TM
from .symex import VC, State, And, Or, Not, Implies, _has_quant


def peel(goal, hyps, depth=0):
    """Split a goal into (hyps, goal) pairs without outer quantifiers."""
    g = goal
    if z3.is_quantifier(g) and g.is_forall():
        vs = [fresh("sk_" + g.var_name(i).split("!")[0], g.var_sort(i)) for i in range(g.num_vars())]
        body = z3.substitute_vars(g.body(), *reversed(vs))
        return peel(body, hyps, depth + 1)
    if z3.is_implies(g):
        return peel(g.arg(1), hyps + [g.arg(0)], depth + 1)
    if z3.is_and(g):
        out, acc = [], list(hyps)
        for x in g.children():
            out.extend(peel(x, acc, depth + 1))
            acc = acc + [x]
        return out
    return [(hyps, g)]


def flatten(hyps):
    out = []
    stack = list(reversed(hyps))
    while stack:
        h = stack.pop()
        if z3.is_and(h):
            stack.extend(reversed(h.children()))
        elif z3.is_quantifier(h) and h.is_exists():
            vs = [fresh("ex_" + h.var_name(i).split("!")[0], h.var_sort(i)) for i in range(h.num_vars())]
            stack.append(z3.substitute_vars(h.body(), *reversed(vs)))
        elif z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_forall():
            q = h.arg(0)
            vs = [fresh("ex_" + q.var_name(i).split("!")[0], q.var_sort(i)) for i in range(q.num_vars())]
            stack.append(z3.Not(z3.substitute_vars(q.body(), *reversed(vs))))
        elif z3.is_not(h) and z3.is_implies(h.arg(0)):
            stack.append(h.arg(0).arg(0))
            stack.append(z3.Not(h.arg(0).arg(1)))
        elif z3.is_not(h) and z3.is_or(h.arg(0)):
            stack.extend(z3.Not(x) for x in h.arg(0).children())
        elif z3.is_true(h):
            pass
        else:
            out.append(h)
    return out


class Theory:
    """Axioms about the specification functions."""

    def __init__(self, program, exclude=(), reveal=()):
        self.P = program
        self.reveal = set(reveal)
        self.fns = {f.decl.name(): f for f in program.specfns.values() if not f.macro}
        self.exclude = set(exclude)
        self.autos = []
        for lm in program.lemmas.values():
            if lm.auto and lm.name not in self.exclude:
                self.autos.append(self.compile_auto(lm))

    def compile_auto(self, lm):
        eng = self.P.theory_engine()
        st = State()
        xs = {}
        for p, t in lm.params:
            x = z3.Const("au_%s_%s" % (lm.name, p), self.psort(t))
            xs[p] = x
            st.env[p] = self.P.wrap(x, t, eng, st)
        req = And(*[to_z3(self.P.eval_spec(eng, r, st)) for r in lm.requires]) if lm.requires else z3.BoolVal(True)
        ens = And(*[to_z3(self.P.eval_spec(eng, r, st)) for r in lm.ensures])
        pats = []
        for a in lm.auto:
            v = eng.eval(self.P.parse(a), st, True)
            pats.append(to_z3(v))
        return (lm, list(xs.values()), z3.Implies(req, ens), pats)

    def psort(self, t):
        from .program import psort
        return psort(t)

    def ground(self, forms, rounds, frame=None, cap=400):
        """Ground instances of definitions, frame facts, automatic lemmas."""
        insts, done = [], set()
        work = list(forms)
        seen_terms = {}
        for rnd in range(rounds + 1):
            terms, _ = subterms(work)
            new = []
            fresh_terms = []
            for t in terms:
                if z3.is_app(t) and t.get_id() not in seen_terms:
                    seen_terms[t.get_id()] = t
                    fresh_terms.append(t)
            for t in fresh_terms:
                nm = t.decl().name()
                if nm in self.fns and rnd < rounds:
                    f = self.fns[nm]
                    if f.body is not None and (f.opts.get("unfold", True) or f.name in self.reveal) and len(insts) < cap:
                        body = z3.substitute(f.body, *[(x, t.arg(i)) for i, x in enumerate(f.xs)])
                        new.append(t == z3.simplify(body, arith_lhs=False) if False else t == body)
                    if f.opts.get("frame") and (frame is None or f.name in frame):
                        new.extend(self.frame_inst(f, t))
                elif nm == "fdiv" or nm == "fmod":
                    a, b = t.arg(0), t.arg(1)
                    key = ("div", a.get_id(), b.get_id())
                    if key not in done:
                        done.add(key)
                        q, r = fdiv(a, b), fmod(a, b)
                        new.append(z3.Implies(b > 0, z3.And(a == b * q + r, r >= 0, r < b)))
                        new.append(z3.Implies(b < 0, z3.And(a == b * q + r, r <= 0, r > b)))
            # automatic lemmas
            pool = list(seen_terms.values())
            for (lm, xs, form, pats) in self.autos:
                for sub in match_all(pats, xs, pool):
                    key = (lm.name,) + tuple(s.get_id() for s in sub)
                    if key in done or len(insts) > cap:
                        continue
                    done.add(key)
                    new.append(z3.substitute(form, *list(zip(xs, sub))))
            new.extend(self.frame_pairs(pool, done, frame))
            new = [n for n in new if n.get_id() not in done]
            for n in new:
                done.add(n.get_id())
            if not new:
                break
            insts.extend(new)
            work = new
        return insts

    def frame_inst(self, f, t):
        out = []
        ai = self.P.arr_index(f)
        args = list(t.children())
        a = args[ai]
        lo, hi = self.P.frame_range(f, args)
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            args2 = list(args)
            args2[ai] = a.arg(0)
            out.append(z3.Implies(z3.Or(a.arg(1) < lo, a.arg(1) >= hi), f.decl(*args) == f.decl(*args2)))
            args = args2
            a = a.arg(0)
        return out

    def frame_pairs(self, pool, done, frame, cap=60):
        out = []
        by = {}
        for t in pool:
            f = self.fns.get(t.decl().name())
            if f is not None and f.opts.get("frame") and (frame is None or f.name in frame):
                by.setdefault(f.name, []).append(t)
        for nm, ts in by.items():
            f = self.P.specfns[nm]
            ai = self.P.arr_index(f)
            n = m = 0
            for x, y in itertools.combinations(ts[:40], 2):
                if x.arg(ai).eq(y.arg(ai)):
                    continue
                if base_array(x.arg(ai)).eq(base_array(y.arg(ai))):
                    continue
                key = ("fp", x.get_id(), y.get_id())
                if key in done or n > cap:
                    continue
                # only when the other arguments can coincide syntactically
                same = all(z3.simplify(x.arg(i) - y.arg(i)).eq(z3.IntVal(0)) if x.arg(i).sort().kind() == z3.Z3_INT_SORT else x.arg(i).eq(y.arg(i))
                           for i in range(x.num_args()) if i != ai)
                diff = []
                if not same:
                    m += 1
                    if m > 24:
                        continue
                    diff = [x.arg(i) != y.arg(i) for i in range(x.num_args()) if i != ai]
                done.add(key)
                n += 1
                lo, hi = self.P.frame_range(f, list(x.children()))
                j = fresh("fj", z3.IntSort())
                out.append(z3.Or(*diff, x == y, z3.And(j >= lo, j < hi, z3.Select(x.arg(ai), j) != z3.Select(y.arg(ai), j))))
        return out

    def axioms(self, names, frame=None):
        """Quantified definitions (one unfolding) of the functions that occur."""
        out = []
        done = set()
        stack = list(names)
        while stack:
            nm = stack.pop()
            if nm in done:
                continue
            done.add(nm)
            if nm in ("fdiv", "fmod"):
                a, b = z3.Ints("ax_a ax_b")
                for pat in (fdiv(a, b), fmod(a, b)):
                    q, r = fdiv(a, b), fmod(a, b)
                    out.append(z3.ForAll([a, b], z3.Implies(b > 0, z3.And(a == b * q + r, r >= 0, r < b)), patterns=[pat]))
                continue
            f = self.fns.get(nm)
            if f is None:
                continue
            if f.body is not None and f.opts.get("unfold", True) and f.opts.get("quant", True):
                app = f.decl(*f.xs)
                lim = replace_decl(f.body, f.decl, f.lim)
                out.append(z3.ForAll(f.xs, app == lim, patterns=[app]))
                out.append(z3.ForAll(f.xs, app == f.lim(*f.xs), patterns=[app]))
                stack.extend(all_decls([f.body]))
            if f.opts.get("frame") and (frame is None or f.name in frame):
                ai = self.P.arr_index(f)
                i = z3.Int("ax_i")
                v = z3.Const("ax_v", f.xs[ai].sort().range())
                args = list(f.xs)
                args[ai] = z3.Store(f.xs[ai], i, v)
                lo, hi = self.P.frame_range(f, f.xs)
                app = f.decl(*args)
                out.append(z3.ForAll(list(f.xs) + [i, v], z3.Implies(z3.Or(i < lo, i >= hi), app == f.decl(*f.xs)), patterns=[app]))
        for (lm, xs, form, pats) in self.autos:
            ds = all_decls(pats)
            if ds <= done or all(d in done for d in ds if d.startswith("s_")):
                if set(v.decl().name() for v in consts_in(pats)) >= set(x.decl().name() for x in xs) and lm.opts.get("quant", True):
                    out.append(z3.ForAll(xs, form, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]]))
        return out


def base_array(a):
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        a = a.arg(0)
    return a


def consts_in(ts):
    terms, _ = subterms(ts)
    return [t for t in terms if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]


def replace_decl(e, d, d2):
    cache = {}

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k][1]
        if z3.is_quantifier(t):
            # rebuild through fresh constants
            vs = [fresh("rb", t.var_sort(i)) for i in range(t.num_vars())]
            b = go(z3.substitute_vars(t.body(), *reversed(vs)))
            r = z3.ForAll(vs, b) if t.is_forall() else z3.Exists(vs, b)
        elif z3.is_app(t) and t.num_args() > 0:
            args = [go(c) for c in t.children()]
            r = d2(*args) if t.decl().eq(d) else t.decl()(*args)
        else:
            r = t
        cache[k] = (t, r)
        return r
    return go(e)


def match(pat, xs, term, sub):
    for i, x in enumerate(xs):
        if pat.eq(x):
            if sub[i] is None:
                if x.sort() != term.sort():
                    return None
                s = list(sub)
                s[i] = term
                return s
            return sub if sub[i].eq(term) else None
    if not z3.is_app(term) or not z3.is_app(pat):
        return None
    if pat.num_args() == 0:
        return sub if pat.eq(term) else None
    if not pat.decl().eq(term.decl()) or pat.num_args() != term.num_args():
        return None
    for p, t in zip(pat.children(), term.children()):
        sub = match(p, xs, t, sub)
        if sub is None:
            return None
    return sub


def match_all(pats, xs, pool, cap=300):
    subs = [[None] * len(xs)]
    for p in pats:
        nxt = []
        for s in subs:
            for t in pool:
                if z3.is_app(p) and z3.is_app(t) and p.num_args() and p.decl().eq(t.decl()):
                    r = match(p, xs, t, s)
                    if r is not None:
                        nxt.append(r)
                        if len(nxt) > cap:
                            break
        subs = nxt
    return [s for s in subs if all(x is not None for x in s)]


# ---------------------------------------------------------------- back ends
def smt2(forms):
    s = z3.Solver()
    for f in forms:
        s.add(f)
    txt = s.to_smt2()
    return txt


def clean_for_cvc5(txt):
    return "(set-logic ALL)\n" + txt


class Runner:
    def __init__(self, workdir, jobs=8):
        self.dir = workdir
        self.pool = threading.Semaphore(jobs)
        self.n = 0
        self.lock = threading.Lock()

    def launch(self, cmd, path):
        return subprocess.Popen(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True,
                                preexec_fn=_limit)

    def one(self, cmd, path, timeout):
        with self.pool:
            t0 = time.time()
            p = self.launch(cmd, path)
            try:
                out, _ = p.communicate(timeout=timeout + 2)
            except subprocess.TimeoutExpired:
                _kill(p)
                out = "timeout"
            first = out.strip().split("\n")[0] if out.strip() else "unknown"
            if "(error" in out and first not in ("unsat", "sat"):
                first = "error " + out[:200]
            return first, time.time() - t0

    def race(self, cmds, timeout):
        """First unsat wins."""
        procs = []
        res = []
        done = threading.Event()
        winner = []

        def go(name, cmd, path):
            with self.pool:
                if done.is_set():
                    return
                t0 = time.time()
                p = self.launch(cmd, path)
                procs.append(p)
                try:
                    out, _ = p.communicate(timeout=timeout + 2)
                except subprocess.TimeoutExpired:
                    _kill(p)
                    out = "timeout"
                first = out.strip().split("\n")[0] if out.strip() else "unknown"
                res.append((name, first, time.time() - t0))
                if first == "unsat" and not done.is_set():
                    winner.append((name, time.time() - t0))
                    done.set()
                    for q in list(procs):
                        if q is not p:
                            _kill(q)
        ts = [threading.Thread(target=go, args=c) for c in cmds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return (winner[0] if winner else None), res


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


class Result:
    def __init__(self, vc):
        self.vc = vc
        self.ok = False
        self.backend = None
        self.time = 0.0
        self.detail = ""


def prepare(vc, program, theories):
    """All (hyps, goal) pieces as lists of formulas to refute."""
    key = getattr(vc, "exclude", ())
    th = theories
    pieces = []
    for hyps, goal in peel(vc.goal, list(vc.hyps)):
        hs = flatten(hyps)
        neg = flatten([z3.Not(goal)])
        base = hs + neg
        frame = getattr(vc, "frames", None)
        g2 = th.ground(base, 2, frame)
        names = all_decls(base + g2)
        ax = th.axioms(names, frame)
        lits = sorted(n for n in names if n.startswith("str_lit_"))
        if len(lits) > 1:
            g2 = g2 + [z3.Distinct(*[z3.Const(n, TM.Obj) for n in lits])]
        pieces.append((base, g2, ax))
    return pieces


def discharge(vcs, program, workdir, jobs=8, quick=4, slow=25, log=None, exclude=None, stuck=90, wall=330):
    """Forked workers prepare and solve their share of the obligations."""
    os.makedirs(workdir, exist_ok=True)
    results = [Result(vc) for vc in vcs]
    n = max(1, min(jobs, len(vcs)))
    sys.stdout.flush()
    procs = []
    for w in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                with os.fdopen(wr, "w") as f:
                    t0, lost = time.time(), 0.0
                    for i in range(w, len(vcs), n):
                        r = results[i]
                        t1 = time.time()
                        try:
                            # a worker that meets many unprovable obligations stops spending time on each
                            _discharge_one(r, i, program, workdir, quick if time.time() - t0 < wall else 1, slow if lost < stuck and time.time() - t0 < wall else 0)
                        except Unsupported as ex:
                            r.detail = str(ex)
                        except Exception as ex:
                            r.detail = "%s: %s" % (type(ex).__name__, ex)
                        if not r.ok:
                            lost += time.time() - t1
                        f.write(json.dumps([i, r.ok, r.backend, r.time, r.detail]) + "\n")
                        f.flush()
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        procs.append((pid, rd))

    def collect(rd):
        with os.fdopen(rd) as f:
            for line in f:
                i, ok, be, t, d = json.loads(line)
                r = results[i]
                r.ok, r.backend, r.time, r.detail = ok, be, t, d
    ts = [threading.Thread(target=collect, args=(rd,)) for _, rd in procs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for pid, _ in procs:
        os.waitpid(pid, 0)
    for r in results:
        if r.backend is None and not r.ok and not r.detail:
            r.detail = "the worker ended early"
    return results


_theories = {}


def _theory_for(program, ex, reveal):
    k = (id(program), tuple(sorted(ex)), tuple(sorted(reveal)))
    if k not in _theories:
        _theories[k] = Theory(program, k[1], k[2])
    return _theories[k]


def linearise(forms):
    """The formulas with every product of unknowns replaced by one symbol per product:
    what follows from these weaker formulas follows from the originals.  None if there is no product."""
    memo, names, found = {}, {}, [False]

    def go(t):
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        xs = [go(c) for c in t.children()]
        kind = t.decl().kind()
        r = t.decl()(*xs) if any(not a.eq(b) for a, b in zip(xs, t.children())) else t
        if kind == z3.Z3_OP_MUL:
            con = [x for x in xs if z3.is_rational_value(x) or z3.is_int_value(x)]
            var = [x for x in xs if not (z3.is_rational_value(x) or z3.is_int_value(x))]
            if len(var) > 1:
                found[0] = True
                key = tuple(sorted(x.sexpr() for x in var)) + (t.sort().name(),)
                if key not in names:
                    names[key] = z3.Const("prod!%d" % len(names), t.sort())
                r = names[key]
                for c in con:
                    r = c * r
        elif kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not (z3.is_rational_value(xs[1]) or z3.is_int_value(xs[1])):
            found[0] = True
            key = (t.decl().name(),) + tuple(x.sexpr() for x in xs)
            if key not in names:
                names[key] = z3.Const("quot!%d" % len(names), t.sort())
            r = names[key]
        memo[k] = (t, r)
        return r
    out = []
    for f in forms:
        if _quantified(f):
            continue
        out.append(go(z3.simplify(f, som=True, som_blowup=40)))
    return out if found[0] else None


def _quantified(e):
    seen, todo = set(), [e]
    while todo:
        t = todo.pop()
        if z3.is_quantifier(t):
            return True
        if t.get_id() not in seen:
            seen.add(t.get_id())
            todo += t.children()
    return False


def _discharge_one(r, i, program, workdir, quick, slow):
    vc = r.vc
    th = _theory_for(program, getattr(vc, "exclude", ()), getattr(vc, "reveal", ()))
    alt = getattr(vc, "alt_reveal", ())
    th2 = _theory_for(program, getattr(vc, "exclude", ()), tuple(getattr(vc, "reveal", ())) + tuple(alt)) if alt else None
    runner = Runner(workdir, 8)
    backs = []
    for j, (base, g2, ax) in enumerate(prepare(vc, program, th)):
        p1 = os.path.join(workdir, "vc%d_%d_a.smt2" % (i, j))
        p2 = os.path.join(workdir, "vc%d_%d_b.smt2" % (i, j))
        p3 = os.path.join(workdir, "vc%d_%d_c.smt2" % (i, j))
        t1 = smt2(base + g2)
        open(p1, "w").write(t1)
        first, dt = runner.one(["z3-new", "-T:%d" % quick], p1, quick)
        r.time += dt
        if first == "unsat":
            backs.append("z3-new")
            os.unlink(p1)
            continue
        first = None
        for tx in [th] + ([th2] if th2 else []):
            lin = linearise(base + (g2 if tx is th else tx.ground(base, 2, getattr(vc, "frames", None))))
            if lin is None:
                break
            p0 = os.path.join(workdir, "vc%d_%d_l.smt2" % (i, j))
            open(p0, "w").write(smt2(lin))
            first, dt = runner.one(["z3-new", "-T:%d" % quick], p0, quick)
            r.time += dt
            if first == "unsat":
                backs.append("z3-new")
                break
        if first == "unsat":
            continue
        if th2:
            open(p3, "w").write(smt2(base + th2.ground(base, 2, getattr(vc, "frames", None))))
            first, dt = runner.one(["z3-new", "-T:%d" % quick], p3, quick)
            r.time += dt
            if first == "unsat":
                backs.append("z3-new")
                continue
        t2 = smt2(base + g2 + ax) if ax else t1
        open(p2, "w").write(t2)
        if ax:
            first, dt = runner.one(["z3-new", "-T:%d" % quick], p2, quick)
            r.time += dt
            if first == "unsat":
                backs.append("z3-new")
                continue
        if not slow:
            r.detail = "not decided within the quick limit, slow attempts used up (%s)" % os.path.basename(p1)
            r.ok = False
            return
        open(p2 + ".cvc5", "w").write(clean_for_cvc5(t2))
        open(p1 + ".cvc5", "w").write(clean_for_cvc5(t1))
        cmds = [("cvc5", ["cvc5", "--tlimit=%d" % (slow * 1000)], p1 + ".cvc5"),
                ("z3", ["z3", "-T:%d" % slow], p1),
                ("z3-new", ["z3-new", "-T:%d" % slow, "smt.mbqi=false", "smt.auto_config=false"], p2),
                ("cvc5", ["cvc5", "--tlimit=%d" % (slow * 1000)], p2 + ".cvc5"),
                ("z3-new", ["z3-new", "-T:%d" % slow, "smt.arith.solver=2"], p2),
                ("z3", ["z3", "-T:%d" % slow, "smt.mbqi=false", "smt.auto_config=false"], p2)]
        if th2:
            cmds = [("z3-new", ["z3-new", "-T:%d" % slow, "smt.arith.solver=2"], p3), ("z3", ["z3", "-T:%d" % slow], p3)] + cmds
        # few cores are free while other workers run: two at a time
        win, res = None, []
        for a in range(0, len(cmds), 2):
            win, rs = runner.race(cmds[a:a + 2], slow)
            res += rs
            if win:
                break
        r.time += sum(x[2] for x in res)
        if not win:
            r.detail = "; ".join("%s:%s" % (x[0], x[1]) for x in res) + " (" + os.path.basename(p1) + ")"
            r.ok = False
            return
        backs.append(win[0])
    r.ok = True
    r.backend = "+".join(sorted(set(backs))) if backs else "trivial"
