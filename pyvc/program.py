"""The program under verification: source modules, contracts, theory, driver."""
import ast
import os
import time
import z3
from .terms import *
from . import terms as TM
from . import symex as S
from .symex import (Engine, State, VC, VTuple, VRef, VNone, NONE, VPoison, VFunc, VSeq, CListV, SListV, DictV, And, Or, Not, Implies)


class A(T):
    """Array parameter of a specification function (a list without its length)."""

    def __init__(self, elem):
        T.__init__(self, "A", elem)


def ptype(s):
    if isinstance(s, T):
        return s
    return eval(s, {"__builtins__": {}}, dict(int=INT, bool=BOOL, real=REAL, float=REAL, obj=OBJ, str=STR, L=L, Tup=Tup, CL=CL, A=A))


def psort(t):
    if t.kind == "A":
        return z3.ArraySort(z3.IntSort(), sort_of(t.args[0]))
    return sort_of(t)


class Module:
    def __init__(self, path, text):
        self.path = path
        self.text = text
        self.tree = ast.parse(text)
        self.funcs, self.classes, self.imports, self.globals = {}, {}, {}, {}
        for n in self.tree.body:
            self.add(n)

    def add(self, n):
        if isinstance(n, ast.FunctionDef):
            self.funcs[n.name] = n
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = n
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    self.funcs[n.name + "." + m.name] = m
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
        elif isinstance(n, ast.ImportFrom):
            mod = n.module or ""
            if n.level:
                mod = "phenum" + ("." + mod if mod else "")
            for a in n.names:
                self.imports[a.asname or a.name] = (mod, a.name)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.globals[n.targets[0].id] = n.value
        elif isinstance(n, (ast.If, ast.Try)):
            for x in n.body:
                self.add(x)


class SpecFn:
    def __init__(self, name, fn, opts):
        self.name = name
        self.fn = fn
        self.opts = opts
        self.params = [(a.arg, ptype(ast.unparse(a.annotation) if not isinstance(a.annotation, ast.Constant) else a.annotation.value)) for a in fn.args.args]
        self.ret = ptype(ast.unparse(fn.returns) if not isinstance(fn.returns, ast.Constant) else fn.returns.value)
        self.decl = z3.Function("s_" + name, *([psort(t) for _, t in self.params] + [psort(self.ret)]))
        self.lim = z3.Function("lim_" + name, *([psort(t) for _, t in self.params] + [psort(self.ret)]))
        self.xs = [z3.Const("%s__%s" % (name, p), psort(t)) for p, t in self.params]
        self.body_expr = to_expr(fn.body)
        self.recursive = any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(self.body_expr)) if self.body_expr is not None else True
        self.body = None
        self.reccalls = []

    @property
    def macro(self):
        return self.body_expr is not None and not self.recursive and not self.opts.get("keep") and self.opts.get("unfold", True)


def to_expr(body):
    """def body (docstring, if/return chain) as one expression; None for an opaque function."""
    stmts = [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]

    def go(ss):
        if not ss:
            return None
        s = ss[0]
        if isinstance(s, ast.Return):
            return s.value
        if isinstance(s, ast.If):
            a = go(s.body)
            b = go(s.orelse) if s.orelse else go(ss[1:])
            if a is None or b is None:
                return None
            return ast.IfExp(test=s.test, body=a, orelse=b)
        if isinstance(s, ast.Pass):
            return go(ss[1:])
        raise Unsupported("statement in a specification function")
    e = go(stmts)
    return ast.fix_missing_locations(e) if e is not None else None


class Lemma:
    def __init__(self, name, fn, opts):
        self.name = name
        self.fn = fn
        self.opts = opts
        self.params = [(a.arg, ptype(ast.unparse(a.annotation) if not isinstance(a.annotation, ast.Constant) else a.annotation.value)) for a in fn.args.args]
        self.requires = opts.get("requires", [])
        self.ensures = opts.get("ensures", [])
        self.auto = opts.get("auto", [])
        self.trusted = opts.get("trusted")


class Program:
    def __init__(self, repo, specfiles, contracts):
        self.repo = repo
        self.modules = {}
        self.contracts = contracts
        self.specfns, self.lemmas, self.spec_consts = {}, {}, {}
        self._strings = {}
        self._parsed = {}
        self.hook = None
        self.order = []
        d = os.path.join(repo, "phenum")
        self.errors = {}
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                try:
                    self.modules["phenum." + f[:-3]] = Module("phenum/" + f, open(p, encoding="utf-8").read())
                except SyntaxError as ex:
                    self.errors["phenum/" + f] = str(ex)
        for sf in specfiles:
            self.load_theory(sf)

    # ------------------------------------------------------------- theory
    def load_theory(self, path):
        tree = ast.parse(open(path).read())
        for n in tree.body:
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                name = d.func.id if isinstance(d, ast.Call) else d.id
                opts = {k.arg: ast.literal_eval(k.value) for k in d.keywords} if isinstance(d, ast.Call) else {}
                if name == "spec":
                    self.specfns[n.name] = SpecFn(n.name, n, opts)
                    self.order.append(n.name)
                elif name == "lemma":
                    self.lemmas[n.name] = Lemma(n.name, n, opts)
                    self.lemmas[n.name].index = len(self.lemmas)
        self.expand_bodies()

    def theory_engine(self):
        e = Engine(self, "theory", {})
        e.suppress = 1
        return e

    def expand_bodies(self):
        for f in self.specfns.values():
            if f.body is not None or f.body_expr is None or f.macro:
                continue
            eng = self.theory_engine()
            st = State()
            st.env = {p: self.wrap(x, t, eng, st) for (p, t), x in zip(f.params, f.xs)}
            calls = []
            self.hook = lambda name, args, pc: calls.append((name, args, pc)) if name == f.name else None
            try:
                v = eng.eval(f.body_expr, st, True)
            finally:
                self.hook = None
            f.body = self.unwrap(v, f.ret, eng, st)
            f.reccalls = calls

    def wrap(self, term, t, eng, st):
        if t.kind == "A":
            return eng.alloc(st, SListV(t.args[0], z3.Int("nolen"), term, frozen=True))
        return eng.from_smt(term, t, st, spec=True)

    def unwrap(self, v, t, eng, st):
        if t.kind == "A":
            if not isinstance(v, VRef):
                raise Unsupported("array argument expected")
            return eng.as_slist(v, st, t.args[0]).arr
        return eng.to_smt(v, t, st)

    def apply_spec(self, eng, name, args, st):
        f = self.specfns[name]
        if len(args) != len(f.params):
            raise Unsupported("specification function %s: arity" % name)
        if f.macro:
            saved = st.env
            st.env = {p: self.coerce(a, t, eng, st) for (p, t), a in zip(f.params, args)}
            try:
                return eng.eval(f.body_expr, st, True)
            finally:
                st.env = saved
        ts = [self.unwrap(a, t, eng, st) for a, (p, t) in zip(args, f.params)]
        if self.hook:
            self.hook(name, ts, list(st.pc))
        r = f.decl(*ts)
        return self.wrap(r, f.ret, eng, st)

    def coerce(self, a, t, eng, st):
        if t.kind in ("int", "real", "bool"):
            return self.unwrap(a, t, eng, st)
        if t.kind == "real" and is_int(a):
            return z3.ToReal(to_z3(a))
        return a

    def apply_lemma(self, eng, name, args, st, node):
        lm = self.lemmas[name]
        if len(args) != len(lm.params):
            raise Unsupported("lemma %s: arity" % name)
        if eng.key.startswith("lemma:") and eng.key[6:] in self.lemmas and lm.index > self.lemmas[eng.key[6:]].index:
            raise Unsupported("lemma %s uses the later lemma %s" % (eng.key[6:], name))
        env = {p: self.coerce(a, t, eng, st) for (p, t), a in zip(lm.params, args)}
        saved, saved_mod, saved_entry = st.env, eng.module, st.entry
        eng.module = None
        st.env = env
        try:
            st.entry = (env, dict(st.heap))
            for r in lm.requires:
                eng.oblige(st, self.eval_spec(eng, r, st), "precondition of lemma %s [%s]" % (name, r), node)
            if eng.key == "lemma:" + name:
                if "decreases" not in lm.opts:
                    raise Unsupported("recursive lemma without decreases")
                m1 = self.eval_spec(eng, lm.opts["decreases"], st)
                eng.oblige(st, z3.And(to_z3(m1) >= 0, to_z3(m1) < to_z3(eng.measure0)), "lemma terminates", node)
            for r in lm.ensures:
                st.pc.append(to_z3(self.eval_spec(eng, r, st)))
        finally:
            st.env, eng.module, st.entry = saved, saved_mod, saved_entry
        return NONE

    # ---------------------------------------------------------- utilities
    def find_module(self, name):
        return self.modules.get(name)

    def string_const(self, s):
        if s not in self._strings:
            self._strings[s] = z3.Const("str_lit_%d" % len(self._strings), TM.Obj)
        return self._strings[s]

    def literal_of(self, t):
        n = t.decl().name() if z3.is_const(t) else ""
        if n.startswith("str_lit_"):
            return list(self._strings)[int(n[8:])]
        return None

    def parse(self, s):
        assert isinstance(s, str), s
        if s not in self._parsed:
            self._parsed[s] = ast.parse(s.strip(), mode="eval").body
        return self._parsed[s]

    def eval_spec(self, eng, s, st):
        e = self.parse(s)
        v = eng.eval(e, st, True)
        return v if is_int(v) or is_real(v) else eng.truth(v, st)

    def exec_ghost(self, eng, line, st, node):
        tree = ast.parse(line.strip())
        for s in tree.body:
            self.ghost_stmt(eng, s, st, node)

    def ghost_stmt(self, eng, s, st, node):
        if isinstance(s, ast.If):
            c = eng.truth(eng.eval(s.test, st, True), st)
            cb = const_bool(c)
            if cb is not None:
                for x in (s.body if cb else s.orelse):
                    self.ghost_stmt(eng, x, st, node)
                return
            eng.under(st, c, lambda: [self.ghost_stmt(eng, x, st, node) for x in s.body])
            if s.orelse:
                eng.under(st, Not(c), lambda: [self.ghost_stmt(eng, x, st, node) for x in s.orelse])
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in self.lemmas:
            args = [eng.eval(a, st, True) for a in s.value.args]
            self.apply_lemma(eng, s.value.func.id, args, st, node)
        elif isinstance(s, ast.Assert):
            eng.oblige(st, eng.truth(eng.eval(s.test, st, True), st), "ghost assertion [%s]" % ast.unparse(s.test), node)
        elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            # ghost variable; must not clash with program variables: prefix g_
            if not s.targets[0].id.startswith("g_"):
                raise Unsupported("ghost variables start with g_")
            st.env[s.targets[0].id] = eng.eval(s.value, st, True)
        else:
            raise Unsupported("ghost statement %s" % ast.unparse(s))

    def adopt(self, new, src):
        for n in ast.walk(new):
            if not hasattr(n, "lineno"):
                n.lineno = getattr(src, "lineno", 0)
                n.col_offset = 0
                n.end_lineno = n.lineno
                n.end_col_offset = 0

    # ------------------------------------------------------------- driver
    def verify_function(self, key):
        """Obligations of the function under its contract; raises Unsupported."""
        c = self.contracts[key]
        path, fname = key.split("#")[0].split(":")
        mod = next((m for m in self.modules.values() if m.path == path), None)
        if mod is None:
            raise Unsupported("module %s cannot be read: %s" % (path, self.errors.get(path, "missing")))
        fn = mod.funcs.get(fname)
        if fn is None:
            raise Unsupported("function %s not found in %s" % (fname, path))
        eng = Engine(self, key.split("#")[0], c)
        eng.module = mod
        eng.fn_node = fn
        st = State()
        names = [a.arg for a in fn.args.args]
        if fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
            raise Unsupported("parameter kinds of %s" % fname)
        for n in c["params"]:
            if n not in names:
                raise Unsupported("parameter %s of %s no longer exists" % (n, fname))
        ndef = len(fn.args.defaults)
        for i, n in enumerate(names):
            if n in c["params"]:
                st.env[n] = eng.fresh_value(parse_type_c(c["params"][n]), st, n)
            elif i >= len(names) - ndef:
                st.env[n] = eng.eval(fn.args.defaults[i - (len(names) - ndef)], st, False)
            else:
                raise Unsupported("parameter %s of %s is not covered by the contract" % (n, fname))
        for g, t in c.get("ghosts", {}).items():
            st.env[g] = eng.fresh_value(parse_type_c(t), st, g)
        eng.entry_params = {n: st.env[n] for n in c["params"]}
        eng.entry_heap = dict(st.heap)
        st.entry = (dict(st.env), dict(st.heap))
        for r in c.get("requires", []):
            st.pc.append(to_z3(self.eval_spec(eng, r, st)))
        if c.get("recursive"):
            eng.measure0 = to_z3(self.eval_spec(eng, c["recursive"], st))
        eng.requires_pc = list(st.pc)
        eng.index_loops(fn)
        for ln in c.get("begin", []):
            self.exec_ghost(eng, ln, st, fn)
        outs = eng.exec_block(fn.body, st)
        returns = 0
        for o in outs:
            if o[0] == "next":
                o = ("return", o[1], NONE)
            if o[0] == "return":
                returns += 1
                self.check_return(eng, c, o[1], o[2], fn)
            elif o[0] == "raise":
                self.check_raise(eng, c, o[1], o[2], o[3])
            else:
                raise Unsupported("break outside a loop")
        for s, nm, node in eng.raises:
            self.check_raise(eng, c, s, nm, node)
        if not returns and not c.get("never_returns"):
            raise Unsupported("no path of %s returns" % fname)
        return eng

    def check_return(self, eng, c, st, res, fn):
        eng.return_pcs = getattr(eng, "return_pcs", []) + [list(st.pc)]
        env0, heap0 = st.entry
        mods = c.get("modifies", [])
        s = st.fork()
        # parameters denote their entry values in postconditions
        s.env = {}
        locals_ = dict(st.env)
        for n, v in locals_.items():
            if n not in env0:
                s.env["l_" + n] = v
        for n in env0:
            s.env[n] = self._entry_copy(eng, env0[n], heap0, s)
        rt = parse_type_c(c["returns"]) if c.get("returns") else None
        s.env["result"] = self.fit(eng, res, rt, s)
        for n in mods:
            s.env["final_" + n] = env0[n]
        for n, t in c.get("ghost_out", {}).items():
            s.env[n] = self.fit(eng, st.env.get(n, VPoison("not assigned")), parse_type_c(t), s)
        for n in c.get("exposes", []):
            s.env["final_" + n] = st.env.get(n, VPoison("not assigned"))
        for ln in c.get("end", []):
            try:
                self.exec_ghost(eng, ln, s, fn)
            except (Unsupported, S._Dead) as ex:
                eng.notes.add("ghost statement not applicable: %s (%s)" % (ln, ex))
        for i, r in enumerate(c.get("ensures", []) + c.get("ensures_ghost", [])):
            try:
                eng.oblige_spec(s, r, "postcondition [%s]", fn)
            except (Unsupported, S._Dead) as ex:
                eng.notes.add("postcondition cannot be stated: %s (%s)" % (r, ex))
                eng.oblige(s, False, "postcondition [%s]" % (r,), fn)
        # frame: lists handed in and not listed in modifies are unchanged
        allowed = set()
        for n in mods:
            allowed |= self._reach(env0[n], heap0)
        for n, v in env0.items():
            for cid in self._reach(v, heap0):
                if cid in allowed:
                    continue
                a, b = heap0[cid], s.heap.get(cid)
                if b is a or S._same_cell(a, b):
                    continue
                if self._froze_only(a, b):
                    continue
                ra = eng.alloc(s, a)
                try:
                    g = eng.eq(ra, VRef(cid), s)
                except Unsupported:
                    g = False
                eng.oblige(s, g, "frame: parameter %s unchanged" % n, fn)

    def _froze_only(self, a, b):
        if isinstance(a, SListV) and isinstance(b, SListV):
            return a.length.eq(b.length) and a.arr.eq(b.arr)
        return False

    def fit(self, eng, v, t, st):
        if t is not None and t.kind == "real" and is_int(v):
            return z3.ToReal(to_z3(v))
        if t is not None and t.kind == "L" and isinstance(v, VRef) and isinstance(st.heap[v.id], CListV):
            try:
                sl = eng.as_slist(v, st, t.args[0])
                return eng.alloc(st, SListV(sl.elem, sl.length, sl.arr, True))
            except Unsupported:
                return v
        return v

    def _reach(self, v, heap):
        out, stack = set(), [v]
        while stack:
            x = stack.pop()
            if isinstance(x, VTuple):
                stack.extend(x.items)
            elif isinstance(x, VRef) and x.id not in out and x.id in heap:
                out.add(x.id)
                c = heap[x.id]
                if isinstance(c, CListV):
                    stack.extend(c.items)
                elif isinstance(c, DictV):
                    stack.extend(c.items.values())
        return out

    def _entry_copy(self, eng, v, heap, st):
        return eng.import_value(v, heap, st)

    def check_raise(self, eng, c, st, name, node):
        allowed = c.get("raises", {})
        cond = allowed.get(name)
        if cond is None:
            eng.oblige(st, False, "no %s is raised" % name, node, assume=False)
            return
        if cond is True:
            return
        env0, heap0 = st.entry
        s = st.fork()
        s.env = {n: self._entry_copy(eng, v, heap0, s) for n, v in env0.items()}
        eng.oblige(s, self.eval_spec(eng, cond, s), "%s only if [%s]" % (name, cond), node, assume=False)

    def verify_lemma(self, name):
        lm = self.lemmas[name]
        eng = Engine(self, "lemma:" + name, {"merge": False})
        st = State()
        st.env = {p: self.wrap_param(eng, st, p, t) for p, t in lm.params}
        st.entry = (dict(st.env), dict(st.heap))
        for r in lm.requires:
            st.pc.append(to_z3(self.eval_spec(eng, r, st)))
        eng.requires_pc = list(st.pc)
        if "decreases" in lm.opts:
            eng.measure0 = self.eval_spec(eng, lm.opts["decreases"], st)
        body = [s for s in lm.fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        outs = eng.exec_block(body, st)
        for o in outs:
            if o[0] not in ("next", "return"):
                raise Unsupported("lemma body")
            for r in lm.ensures:
                eng.oblige(o[1], self.eval_spec(eng, r, o[1]), "lemma %s [%s]" % (name, r), lm.fn)
        later = tuple(x.name for x in self.lemmas.values() if x.index >= lm.index)
        for v in eng.vcs:
            v.exclude = later
            v.reveal = tuple(lm.opts.get("reveal", ()))
        return eng

    def wrap_param(self, eng, st, p, t):
        if t.kind == "A":
            return eng.alloc(st, SListV(t.args[0], z3.Int("nolen"), fresh(p, psort(t)), frozen=True))
        return eng.fresh_value(t, st, p)

    def verify_spec(self, name):
        """Recursive specification functions are well founded; frame facts hold."""
        f = self.specfns[name]
        vcs = []
        if f.recursive and f.body is not None:
            m = f.opts.get("decreases")
            if m is None:
                raise Unsupported("specification function %s has no measure" % name)
            eng = self.theory_engine()

            def meas(args):
                st = State()
                st.env = {p: self.wrap(x, t, eng, st) for (p, t), x in zip(f.params, args)}
                return to_z3(self.eval_spec(eng, m, st))
            m0 = meas(f.xs)
            for i, (_, args, pc) in enumerate(f.reccalls):
                m1 = meas(args)
                vcs.append(VC("spec:%s:terminates#%d" % (name, i), list(pc), z3.And(m1 < m0, m0 >= 0), 0, "well-founded"))
        if f.opts.get("frame"):
            vcs.append(self.frame_vc(f))
        return vcs

    def frame_range(self, f, args):
        arr, lo, hi = f.opts["frame"]
        eng = self.theory_engine()
        st = State()
        st.env = {p: self.wrap(x, t, eng, st) for (p, t), x in zip(f.params, args)}
        return to_z3(self.eval_spec(eng, lo, st)), to_z3(self.eval_spec(eng, hi, st))

    def arr_index(self, f):
        return [p for p, _ in f.params].index(f.opts["frame"][0])

    def frame_vc(self, f):
        ai = self.arr_index(f)
        xs = f.xs
        b = z3.Const(f.name + "__other", xs[ai].sort())
        lo, hi = self.frame_range(f, xs)
        j = z3.Int("fj")
        hyps = [z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), z3.Select(xs[ai], j) == z3.Select(b, j)), patterns=[z3.Select(xs[ai], j), z3.Select(b, j)])]
        bodyb = z3.substitute(f.body, (xs[ai], b))
        for _, args, pc in f.reccalls:
            l1, h1 = self.frame_range(f, args)
            argsb = list(args)
            argsb[ai] = z3.substitute(args[ai], (xs[ai], b))
            hyps.append(z3.Implies(And(*(list(pc) + [l1 >= lo, h1 <= hi])), f.decl(*args) == f.decl(*argsb)))
            # the range may only shrink where the call is made
        goal = f.body == bodyb
        vc = VC("spec:%s:frame" % f.name, hyps, goal, 0, "frame")
        # only the frames of functions defined earlier may be used
        names = list(self.specfns)
        vc.frames = set(names[:names.index(f.name)])
        vc.exclude = tuple(self.lemmas)
        return vc


def parse_type_c(s):
    if isinstance(s, T):
        return s
    env = dict(int=INT, bool=BOOL, real=REAL, float=REAL, obj=OBJ, str=STR, L=L, Tup=Tup, CL=CL, D=D, none=T("none"),
               const=lambda v: T("const", v), A=A)
    return eval(s, {"__builtins__": {}}, env)
