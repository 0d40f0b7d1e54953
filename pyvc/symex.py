"""Symbolic execution of Python source under contracts.

Every function under contract is executed once, symbolically, for all inputs:
branches fork, loops are cut at invariants, calls use the callee's contract
(or are inlined when the callee has none).  Each point where the contract,
an invariant, an index, a divisor or a callee's precondition has to hold
produces a verification condition.
"""
import ast
from fractions import Fraction
import z3
from .terms import *
from . import terms as TM


# ----------------------------------------------------------------- values
class VTuple:
    def __init__(self, items):
        self.items = tuple(items)


class VRef:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class VNone:
    pass


NONE = VNone()


class VPoison:
    def __init__(self, why):
        self.why = why


class VFunc:
    """kind: builtin | repo | ext | lambda | spec | lemma | method | class"""

    def __init__(self, kind, name, **kw):
        self.kind = kind
        self.name = name
        self.__dict__.update(kw)


class VModule:
    def __init__(self, name):
        self.name = name


class VSeq:
    """Lazy iterable: length and getter."""

    def __init__(self, length, get, src=None):
        self.length = length
        self.get = get
        self.src = src  # ids of heap cells it reads


class CListV:
    def __init__(self, items, frozen=False):
        self.items = tuple(items)
        self.frozen = frozen


class SListV:
    def __init__(self, elem, length, arr, frozen=False):
        self.elem = elem
        self.length = length
        self.arr = arr
        self.frozen = frozen


class DictV:
    def __init__(self, items, cls=None):
        self.items = dict(items)
        self.cls = cls
        self.frozen = False


class State:
    def __init__(self):
        self.env = {}
        self.heap = {}
        self.pc = []
        self.entry = None      # (env, heap) at function entry
        self.ghost = {}

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.entry = self.entry
        s.ghost = dict(self.ghost)
        return s


class VC:
    def __init__(self, name, hyps, goal, line, kind):
        self.name = name
        self.hyps = hyps
        self.goal = goal
        self.line = line
        self.kind = kind


_cell = [0]


def new_cell():
    _cell[0] += 1
    return _cell[0]


def And(*xs):
    xs = [x for x in xs if not (x is True or (is_expr(x) and z3.is_true(x)))]
    if any(x is False for x in xs):
        return z3.BoolVal(False)
    xs = [to_z3(x) for x in xs]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not (x is False or (is_expr(x) and z3.is_false(x)))]
    if any(x is True for x in xs):
        return z3.BoolVal(True)
    xs = [to_z3(x) for x in xs]
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    if a is True:
        return b
    if a is False:
        return z3.BoolVal(True)
    return z3.Implies(to_z3(a), to_z3(b))


class Engine:
    """Executes one function (or lemma) and collects its verification conditions."""

    MAX_STATES = 600
    MAX_UNROLL = 64
    MAX_INLINE = 6

    fn_node = None

    def __init__(self, program, func_key, contract):
        self.P = program              # Program: modules, contracts, spec functions
        self.key = func_key
        self.ghostmode = func_key.startswith("lemma:")
        self.contract = contract
        self.vcs = []
        self.suppress = 0             # discovery mode: no obligations
        self.fresh_guard = None
        self.loop_ids = {}
        self.trusted = set()
        self.notes = set()
        self.depth = 0
        self.module = None
        self.cls = None
        self.loopshape = {}
        self.nq = 0
        self.raises = []
        self.used_contracts = set()
        self.inlined = set()
        self.unproved_termination = set()
        self.nd = set()
        self.nd_escaped = False
        self.plain_sums = False

    # ------------------------------------------------------------ helpers
    def oblige(self, st, goal, kind, node=None, assume=True):
        if isinstance(goal, bool):
            if goal:
                return
            goal = z3.BoolVal(False)
        if z3.is_true(goal):
            return
        line = getattr(node, "lineno", 0) if node is not None else 0
        if not self.suppress:
            name = "%s:%s:line%d#%d" % (self.key, kind, line, len(self.vcs))
            vc = VC(name, list(st.pc), goal, line, kind)
            vc.alt_reveal = tuple(self.contract.get("reveal", ()))
            self.vcs.append(vc)
        if assume:
            st.pc.append(goal)

    def oblige_spec(self, st, r, label, node, ghost=None):
        """Oblige a specification; (formula, [ghost lines]) proves a forall by introduction."""
        if isinstance(r, tuple):
            text, lines = r
            e = self.P.parse(text)
            if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "forall"):
                s = st.fork()
                for ln in lines:
                    self.P.exec_ghost(self, ln, s, node)
                self.oblige(s, self.P.eval_spec(self, text, s), label % text, node, assume=False)
                st.pc.append(to_z3(self.P.eval_spec(self, text, st)))
                return
            lam = e.args[0]
            s = st.fork()
            for a in lam.args.args:
                s.env[a.arg] = fresh("in_" + a.arg, z3.IntSort())
            body = lam.body
            while isinstance(body, ast.Call) and isinstance(body.func, ast.Name) and body.func.id == "implies":
                s.pc.append(to_z3(self.truth(self.eval(body.args[0], s, True), s)))
                body = body.args[1]
            for ln in lines:
                self.P.exec_ghost(self, ln, s, node)
            self.oblige(s, self.truth(self.eval(body, s, True), s), label % text, node, assume=False)
            st.pc.append(to_z3(self.P.eval_spec(self, text, st)))
            return
        self.oblige(st, self.P.eval_spec(self, r, st), label % r, node)

    def alloc(self, st, cell):
        i = new_cell()
        st.heap[i] = cell
        return VRef(i)

    def entails(self, st, goal, timeout=400):
        """Quick, incomplete: True only if proved."""
        if isinstance(goal, bool):
            return goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        s = z3.Solver()
        s.set("timeout", timeout)
        lin = self.contract.get("split")
        for h in st.pc:
            if not _has_quant(h) and not (lin and _nonlinear(h)):
                s.add(h)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def feasible(self, st, timeout=400):
        s = z3.Solver()
        s.set("timeout", timeout)
        lin = self.contract.get("split")
        for h in st.pc:
            if not _has_quant(h) and not (lin and _nonlinear(h)):
                s.add(h)
        return s.check() != z3.unsat

    def type_of(self, v, st):
        if is_bool(v):
            return BOOL
        if is_int(v):
            return INT
        if is_real(v):
            return REAL
        if isinstance(v, VTuple):
            return Tup(*[self.type_of(x, st) for x in v.items])
        if isinstance(v, VRef):
            c = st.heap[v.id]
            if isinstance(c, SListV):
                return L(c.elem)
            if isinstance(c, CListV):
                ts = [self.type_of(x, st) for x in c.items]
                if not ts:
                    return CL(0, T("any"))
                t = ts[0]
                for x in ts[1:]:
                    t = join_t(t, x)
                return CL(len(ts), t)
            if isinstance(c, DictV) and c.cls is not None:
                return OBJ
            raise Unsupported("dictionary stored in a term")
        if isinstance(v, str):
            return STR
        if is_expr(v) and v.sort() == TM.Obj:
            return OBJ
        if is_expr(v):
            for t, s in list(TM._list_sorts.items()):
                if v.sort() == s:
                    raise Unsupported("raw list term")
        raise Unsupported("no type for %r" % (v,))

    def to_smt(self, v, t, st):
        """Value as an SMT term of type t."""
        k = t.kind
        if k == "int":
            return to_z3(as_int(v)) if not is_real(v) else _fail("real stored as int")
        if k == "bool":
            return to_z3(v) if is_bool(v) else _fail("not a bool")
        if k == "real":
            v = to_z3(as_int(v)) if not is_real(v) else to_z3(v)
            return z3.ToReal(v) if v.sort().kind() == z3.Z3_INT_SORT else v
        if k in ("L", "CL"):
            e = t.args[-1]
            if not isinstance(v, VRef):
                raise Unsupported("list expected")
            c = st.heap[v.id]
            so = list_sort(e)
            if isinstance(c, SListV):
                if norm(c.elem) != norm(e):
                    raise Unsupported("element type %s stored as %s" % (c.elem, e))
                # undo mk(len(x), arr(x))
                return so.constructor(0)(c.length, c.arr)
            if isinstance(c, CListV):
                arr = z3.K(z3.IntSort(), default(e))
                for i, x in enumerate(c.items):
                    arr = z3.Store(arr, i, self.to_smt(x, e, st))
                return so.constructor(0)(z3.IntVal(len(c.items)), arr)
            raise Unsupported("dictionary in a term")
        if k == "Tup":
            if not isinstance(v, VTuple) or len(v.items) != len(t.args):
                raise Unsupported("tuple expected")
            return tup_sort(t.args).constructor(0)(*[self.to_smt(x, tt, st) for x, tt in zip(v.items, t.args)])
        if k in ("obj", "str"):
            if is_expr(v) and v.sort() == TM.Obj:
                return v
            if isinstance(v, str):
                return self.P.string_const(v)
            if isinstance(v, VNone):
                return z3.Const("obj_none", TM.Obj)
            if isinstance(v, VRef) and isinstance(st.heap[v.id], DictV) and st.heap[v.id].cls is not None and self.fresh_guard is None:
                return fresh("object", TM.Obj)       # stored as an opaque object: nothing is known about it any more
        raise Unsupported("cannot encode %r as %s" % (v, t))

    def from_smt(self, term, t, st, spec=False):
        k = t.kind
        if k in ("int", "bool", "real", "obj", "str"):
            return term
        if k in ("L", "CL"):
            so = list_sort(t.args[-1])
            ln, arr = so.accessor(0, 0)(term), so.accessor(0, 1)(term)
            if z3.is_app(term) and term.decl() == so.constructor(0):
                ln, arr = term.arg(0), term.arg(1)
            if not spec:
                st.pc.append(ln >= 0)
            return self.alloc(st, SListV(t.args[-1], ln, arr, frozen=True))
        if k == "Tup":
            so = tup_sort(t.args)
            return VTuple([self.from_smt(so.accessor(0, i)(term), tt, st, spec) for i, tt in enumerate(t.args)])
        raise Unsupported("cannot decode %s" % t)

    def fresh_value(self, t, st, base="v"):
        k = t.kind
        if self.fresh_guard is not None:
            self.fresh_guard[0] += 1
        if k in ("int", "bool", "real", "obj", "str"):
            return fresh(base, sort_of(t))
        if k == "L":
            ln = fresh(base + "_len", z3.IntSort())
            st.pc.append(ln >= 0)
            return self.alloc(st, SListV(t.args[0], ln, fresh(base, z3.ArraySort(z3.IntSort(), sort_of(t.args[0])))))
        if k == "CL":
            return self.alloc(st, CListV([self.fresh_value(t.args[1], st, "%s_%d" % (base, i)) for i in range(t.args[0])]))
        if k == "CLs":
            return self.alloc(st, CListV([self.fresh_value(x, st, "%s_%d" % (base, i)) for i, x in enumerate(t.args)]))
        if k == "Tup":
            return VTuple([self.fresh_value(x, st, base) for x in t.args])
        if k == "D":
            return self.alloc(st, DictV({n: self.fresh_value(x, st, base + "_" + n) for n, x in t.fields.items() if n != "_cls"}, t.fields.get("_cls")))
        if k == "none":
            return NONE
        if k == "const":
            return t.args[0]
        raise Unsupported("no fresh value of type %s" % t)

    def truth(self, v, st):
        if isinstance(v, bool):
            return v
        if is_bool(v):
            return v
        if isinstance(v, int):
            return v != 0
        if is_int(v) or is_real(v):
            return to_z3(v) != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, VNone):
            return False
        if isinstance(v, VTuple):
            return len(v.items) > 0
        if isinstance(v, VRef):
            c = st.heap[v.id]
            if isinstance(c, SListV):
                return c.length > 0
            if isinstance(c, CListV):
                return len(c.items) > 0
        if is_expr(v) and v.sort() == TM.Obj:
            return z3.Function("truth_obj", TM.Obj, z3.BoolSort())(v)
        raise Unsupported("truth value of %r" % (v,))

    # ------------------------------------------------------------ equality
    def eq(self, a, b, st):
        if isinstance(a, VPoison) or isinstance(b, VPoison):
            raise Unsupported("use of a value that is not tracked: %s" % (a.why if isinstance(a, VPoison) else b.why))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, VNone) or isinstance(b, VNone):
            if isinstance(a, VNone) and isinstance(b, VNone):
                return True
            o = b if isinstance(a, VNone) else a
            if is_expr(o) and o.sort() == TM.Obj:
                return o == z3.Const("obj_none", TM.Obj)
            return False
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items):
                return False
            return And(*[self.eq(x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.id == b.id:
                return True
            ca, cb = st.heap[a.id], st.heap[b.id]
            if isinstance(ca, CListV) and isinstance(cb, CListV):
                if len(ca.items) != len(cb.items):
                    return False
                return And(*[self.eq(x, y, st) for x, y in zip(ca.items, cb.items)])
            if isinstance(ca, SListV) and isinstance(cb, CListV):
                ca, cb = cb, ca
            if isinstance(ca, CListV) and isinstance(cb, SListV):
                conj = [cb.length == len(ca.items)]
                for i, x in enumerate(ca.items):
                    y = self.from_smt(z3.Select(cb.arr, i), cb.elem, st, spec=True)
                    conj.append(self.eq(x, y, st))
                return And(*conj)
            if isinstance(ca, SListV) and isinstance(cb, SListV):
                k = z3.Int(fresh_name("eqk"))
                x = self.from_smt(z3.Select(ca.arr, k), ca.elem, st, spec=True)
                y = self.from_smt(z3.Select(cb.arr, k), cb.elem, st, spec=True)
                body = self.eq(x, y, st)
                return And(ca.length == cb.length,
                           z3.ForAll([k], Implies(And(k >= 0, k < ca.length), body)))
            raise Unsupported("equality of dictionaries")
        if isinstance(a, (VTuple, VRef)) or isinstance(b, (VTuple, VRef)):
            if isinstance(a, (VTuple, VRef)) and isinstance(b, (VTuple, VRef)):
                return False      # list == tuple
            if is_expr(a) and a.sort() == TM.Obj or is_expr(b) and b.sort() == TM.Obj:
                raise Unsupported("equality of a list with an opaque value")
            return False
        if isinstance(a, str) or isinstance(b, str):
            o = b if isinstance(a, str) else a
            s = a if isinstance(a, str) else b
            if is_expr(o) and o.sort() == TM.Obj:
                return o == self.P.string_const(s)
            return False
        if not is_expr(a) and not is_expr(b) and not isinstance(a, VFunc) and not isinstance(b, VFunc):
            return a == b
        if is_expr(a) and a.sort() == TM.Obj or is_expr(b) and b.sort() == TM.Obj:
            if is_expr(a) and is_expr(b) and a.sort() == b.sort():
                return a == b
            raise Unsupported("equality with an opaque value")
        a, b = self.num2(a, b)
        return to_z3(a) == to_z3(b)

    def num2(self, a, b):
        """Bring two numbers to a common type."""
        for v in (a, b):
            if not (is_bool(v) or is_int(v) or is_real(v)):
                if isinstance(v, VPoison):
                    raise Unsupported("use of a value that is not tracked: %s" % v.why)
                raise Unsupported("number expected, got %r" % (v,))
        if is_bool(a) and is_bool(b) and (is_expr(a) or is_expr(b)):
            return to_z3(a), to_z3(b)
        a, b = as_int(a), as_int(b)
        if is_real(a) != is_real(b):
            a = to_z3(a)
            b = to_z3(b)
            if a.sort().kind() == z3.Z3_INT_SORT:
                a = z3.ToReal(a)
            if b.sort().kind() == z3.Z3_INT_SORT:
                b = z3.ToReal(b)
        return a, b

    def compare(self, op, a, b, st, node):
        if isinstance(op, ast.Is):
            if isinstance(a, VNone) or isinstance(b, VNone):
                return self.eq(a, b, st)
            if isinstance(a, bool) or isinstance(b, bool):
                return self.eq(a, b, st)
            raise Unsupported("'is' comparison")
        if isinstance(op, ast.IsNot):
            return Not(self.compare(ast.Is(), a, b, st, node))
        if isinstance(op, ast.Eq):
            return self.eq(a, b, st)
        if isinstance(op, ast.NotEq):
            return Not(self.eq(a, b, st))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            return Not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, (VRef, VTuple)) and isinstance(b, (VRef, VTuple)):
            return self.lexless(op, a, b, st)
        for v in (a, b):
            if is_expr(v) and v.sort() == TM.Obj:
                # comparison of opaque values: any outcome
                if self.fresh_guard is not None:
                    self.fresh_guard[0] += 1
                return fresh("opaque_cmp", z3.BoolSort())
        a, b = self.num2(a, b)
        if not is_expr(a) and not is_expr(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        a, b = to_z3(a), to_z3(b)
        if a.sort().kind() == z3.Z3_BOOL_SORT:
            a, b = z3.If(a, z3.IntVal(1), z3.IntVal(0)), z3.If(b, z3.IntVal(1), z3.IntVal(0))
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()

    def lexless(self, op, a, b, st):
        xs, ys = self.items_of(a, st), self.items_of(b, st)
        if isinstance(op, ast.Gt):
            xs, ys, op = ys, xs, ast.Lt()
        elif isinstance(op, ast.GtE):
            xs, ys, op = ys, xs, ast.LtE()
        strict = isinstance(op, ast.Lt)
        res = (len(xs) < len(ys)) if strict else (len(xs) <= len(ys))
        for x, y in reversed(list(zip(xs, ys))):
            res = Or(self.compare(ast.Lt(), x, y, st, None), And(self.eq(x, y, st), res))
        return res

    def items_of(self, v, st):
        if isinstance(v, VTuple):
            return list(v.items)
        if isinstance(v, VRef):
            c = st.heap[v.id]
            if isinstance(c, CListV):
                return list(c.items)
            n = const_int(c.length) if isinstance(c, SListV) else None
            if n is not None:
                return [self.from_smt(z3.Select(c.arr, i), c.elem, st) for i in range(n)]
        raise Unsupported("sequence of unknown length where a fixed one is needed")

    def contains(self, x, coll, st):
        if isinstance(coll, VTuple):
            return Or(*[self.eq(x, y, st) for y in coll.items])
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if isinstance(coll, VRef):
            c = st.heap[coll.id]
            if isinstance(c, CListV):
                return Or(*[self.eq(x, y, st) for y in c.items])
            if isinstance(c, SListV):
                k = z3.Int(fresh_name("ink"))
                y = self.from_smt(z3.Select(c.arr, k), c.elem, st, spec=True)
                return z3.Exists([k], And(k >= 0, k < c.length, self.eq(x, y, st)))
            if isinstance(c, DictV) and isinstance(x, str):
                return x in c.items
        if isinstance(coll, VSeq) and getattr(coll, "rng", None):
            lo, hi, step = coll.rng
            if step == 1:
                return And(to_z3(x) >= lo, to_z3(x) < hi)
        raise Unsupported("membership test")

    # --------------------------------------------------------- expressions
    def eval(self, e, st, spec=False):
        if self.ghostmode:
            spec = True
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, st, spec)

    def ev_Constant(self, e, st, spec):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, (bool, int, float, str)):
            return v
        raise Unsupported("constant %r" % (v,))

    def ev_Name(self, e, st, spec):
        n = e.id
        if n in st.env:
            v = st.env[n]
            if isinstance(v, VPoison):
                raise Unsupported("variable %s: %s" % (n, v.why))
            return v
        return self.global_name(n, spec)

    def global_name(self, n, spec):
        if spec or self.module is None:
            if n in self.P.specfns:
                return VFunc("spec", n)
            if n in self.P.lemmas:
                return VFunc("lemma", n)
            if n in self.P.spec_consts:
                return self.P.spec_consts[n]
        if self.module is not None:
            if n in self.module.funcs:
                return VFunc("repo", n, module=self.module)
            if n in self.module.classes:
                return VFunc("class", n, module=self.module)
            if n in self.module.imports:
                return self.resolve_import(*self.module.imports[n])
            if n in self.module.globals:
                return self.const_global(self.module, n)
        return VFunc("builtin", n)

    def const_global(self, module, n):
        node = module.globals[n]
        try:
            v = ast.literal_eval(node)
        except Exception:
            raise Unsupported("module global %s" % n)
        if isinstance(v, (int, float, str, bool)):
            return v
        if isinstance(v, dict) and v and all(isinstance(k, str) for k in v) and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v.values()):
            self.trusted.add("the module-level table %s of %s is not changed at run time" % (n, module.path))
            return VFunc("table", n, items=v)
        raise Unsupported("module global %s" % n)

    def resolve_import(self, modname, attr):
        if attr is None:
            return VModule(modname)
        m = self.P.find_module(modname)
        if m is not None:
            if attr in m.funcs:
                return VFunc("repo", attr, module=m)
            if attr in m.classes:
                return VFunc("class", attr, module=m)
            if attr in m.globals and attr in (self.contract or {}).get("globals", {}):
                self.trusted.add("module global %s.%s is %s" % (modname, attr, self.contract["globals"][attr]))
                return NONE if self.contract["globals"][attr] is None else self.contract["globals"][attr]
            if attr in m.globals:
                try:
                    return self.const_global(m, attr)
                except Unsupported:
                    return VPoison("module global %s" % attr)
            sub = self.P.find_module(modname + "." + attr)
            if sub is not None:
                return VModule(modname + "." + attr)
            return VPoison("%s.%s" % (modname, attr))
        if self.P.find_module(modname + "." + attr) is not None:
            return VModule(modname + "." + attr)
        return VFunc("ext", modname + "." + attr)

    def ev_Tuple(self, e, st, spec):
        return VTuple([self.eval(x, st, spec) for x in e.elts])

    def ev_List(self, e, st, spec):
        return self.alloc(st, CListV([self.eval(x, st, spec) for x in e.elts]))

    def ev_Dict(self, e, st, spec):
        items = {}
        for k, v in zip(e.keys, e.values):
            kk = self.eval(k, st, spec)
            if not isinstance(kk, (str, int)):
                raise Unsupported("dictionary key")
            items[kk] = self.eval(v, st, spec)
        return self.alloc(st, DictV(items))

    def ev_JoinedStr(self, e, st, spec):
        pieces = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                pieces.append(x.value)
                continue
            fs = None
            if x.format_spec is not None:
                if not all(isinstance(y, ast.Constant) for y in x.format_spec.values):
                    self.notes.add("a computed format is left unspecified")
                    if self.fresh_guard is not None:
                        self.fresh_guard[0] += 1
                    return fresh("str", TM.Obj)
                fs = "".join(y.value for y in x.format_spec.values)
            pieces.append(str_of(self, self.eval(x.value, st, spec), fs or "", chr(x.conversion) if x.conversion > 0 else ""))
        return str_join(self, pieces)

    def ev_Lambda(self, e, st, spec):
        return VFunc("lambda", "<lambda>", node=e, env=dict(st.env))

    def ev_IfExp(self, e, st, spec):
        c = self.truth(self.eval(e.test, st, spec), st)
        cb = const_bool(c)
        if cb is not None:
            return self.eval(e.body if cb else e.orelse, st, spec)
        a = self.under(st, c, lambda: self.eval(e.body, st, spec), spec)
        b = self.under(st, Not(c), lambda: self.eval(e.orelse, st, spec), spec)
        return self.ite(c, a, b, st)

    def under(self, st, cond, f, spec=False):
        """Evaluate f with cond assumed; facts learnt inside are guarded by cond."""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        n = len(st.pc)
        st.pc.append(cond)
        try:
            v = f()
        finally:
            learnt = st.pc[n + 1:]
            del st.pc[n:]
            for x in learnt:
                st.pc.append(z3.Implies(cond, x))
        return v

    def ite(self, c, a, b, st):
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
            return VTuple([self.ite(c, x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.id == b.id:
                return a
            ca, cb = st.heap[a.id], st.heap[b.id]
            if isinstance(ca, CListV) and isinstance(cb, CListV) and len(ca.items) == len(cb.items):
                r = self.alloc(st, CListV([self.ite(c, x, y, st) for x, y in zip(ca.items, cb.items)], frozen=True))
                if self.is_nd(a) or self.is_nd(b):
                    self.nd.add(r.id)
                return r
            if self.is_nd(a) or self.is_nd(b):
                self.nd_escaped = True
            t = join_t(self.type_of(a, st), self.type_of(b, st))
            if t.kind in ("L", "CL"):
                t = L(t.args[-1])
                sa, sb = self.to_smt(a, t, st), self.to_smt(b, t, st)
                so = list_sort(t.args[0])
                g0, g1 = so.accessor(0, 0), so.accessor(0, 1)

                def part(x, g, i):
                    return x.arg(i) if z3.is_app(x) and x.decl() == so.constructor(0) else g(x)
                return self.alloc(st, SListV(t.args[0], z3.If(c, part(sa, g0, 0), part(sb, g0, 0)),
                                             z3.If(c, part(sa, g1, 1), part(sb, g1, 1)), frozen=True))
        if isinstance(a, VNone) and isinstance(b, VNone):
            return a
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, str) or isinstance(b, str) or (is_expr(a) and a.sort() == TM.Obj) or (is_expr(b) and b.sort() == TM.Obj):
            a, b = self.to_smt(a, OBJ, st), self.to_smt(b, OBJ, st)
            return z3.If(c, a, b)
        a, b = self.num2(a, b)
        return z3.If(c, to_z3(a), to_z3(b))

    def ev_BoolOp(self, e, st, spec):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st, spec)
        for nxt in e.values[1:]:
            t = self.truth(v, st)
            cb = const_bool(t)
            if cb is not None:
                if cb != isand:
                    return v
                v = self.eval(nxt, st, spec)
                continue
            g = t if isand else Not(t)
            w = self.under(st, g, lambda: self.eval(nxt, st, spec), spec)
            if is_bool(v) and is_bool(w):
                v = And(v, w) if isand else Or(v, w)
            elif is_bool(v) or is_bool(w) or True:
                # value semantics only matter as a truth value here
                tw = self.truth(w, st)
                v = And(t, tw) if isand else Or(t, tw)
        return v

    def ev_UnaryOp(self, e, st, spec):
        v = self.eval(e.operand, st, spec)
        if isinstance(e.op, ast.Not):
            return Not(self.truth(v, st))
        if isinstance(e.op, ast.USub):
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, (int, float)):
                return -v
            if is_int(v) or is_real(v):
                return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def ev_Compare(self, e, st, spec):
        left = self.eval(e.left, st, spec)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, spec)
            if not spec and (self.is_nd(left) or self.is_nd(right)) and not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
                from . import builtins_ as B
                if len(e.ops) > 1:
                    raise Unsupported("chained comparison of arrays")
                return B.elementwise(self, lambda x, y: self.compare(op, x, y, st, e), left, right, st)
            if not spec and self.nd_escaped and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and isinstance(left, VRef) != isinstance(right, VRef) and len(e.ops) == 1:
                from . import builtins_ as B
                self.trusted.add("a value kept in a list and compared with a number is a numpy array (a plain list would raise a TypeError there)")
                return B.elementwise(self, lambda x, y: self.compare(op, x, y, st, e), left, right, st)
            c = self.compare(op, left, right, st, e)
            res = c if res is True else And(res, c)
            left = right
        return res

    def ev_BinOp(self, e, st, spec):
        a = self.eval(e.left, st, spec)
        b = self.eval(e.right, st, spec)
        return self.binop(e.op, a, b, st, e, spec)

    def binop(self, op, a, b, st, node, spec):
        if isinstance(a, VPoison) or isinstance(b, VPoison):
            raise Unsupported("untracked value")
        # strings
        if isinstance(a, str) or isinstance(b, str) or (is_expr(a) and a.sort() == TM.Obj) or (is_expr(b) and b.sort() == TM.Obj):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Add):
                return str_join(self, [a, b])
            self.notes.add("string or opaque arithmetic is left unspecified")
            if self.fresh_guard is not None:
                self.fresh_guard[0] += 1
            return fresh("opaque", TM.Obj)
        if isinstance(a, VRef) or isinstance(b, VRef) or isinstance(a, VTuple) or isinstance(b, VTuple):
            return self.seq_binop(op, a, b, st, node, spec)
        if isinstance(op, ast.Pow):
            return self.power(a, b, st, node, spec)
        a, b = self.num2(a, b)
        if is_expr(a) and a.sort().kind() == z3.Z3_BOOL_SORT:
            a, b = as_int(a), as_int(b)
        conc = not is_expr(a) and not is_expr(b)
        real = is_real(a) or is_real(b)
        if real and isinstance(op, (ast.Add, ast.Sub, ast.Mult)) and not conc:
            ia, ib = _as_integer(a), _as_integer(b)
            if ia is not None and ib is not None:      # whole numbers stay integer terms
                return z3.ToReal(to_z3(self.binop(op, ia, ib, st, node, spec)))
        if isinstance(op, ast.Add):
            return _fold(a + b) if conc else to_z3(a) + to_z3(b)
        if isinstance(op, ast.Sub):
            return _fold(a - b) if conc else to_z3(a) - to_z3(b)
        if isinstance(op, ast.Mult):
            return _fold(a * b) if conc else to_z3(a) * to_z3(b)
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            if not spec:
                self.oblige(st, self.compare(ast.NotEq(), b, 0, st, node), "divisor nonzero", node)
        if isinstance(op, ast.Div):
            x, y = to_z3(a), to_z3(b)
            if not spec and x.sort().kind() == z3.Z3_INT_SORT and y.sort().kind() == z3.Z3_INT_SORT:
                return self.int_true_div(x, y, st)
            if x.sort().kind() == z3.Z3_INT_SORT:
                x = z3.ToReal(x)
            if y.sort().kind() == z3.Z3_INT_SORT:
                y = z3.ToReal(y)
            return x / y
        if isinstance(op, ast.FloorDiv):
            if real:
                return z3.ToReal(z3.ToInt(to_z3(a) / to_z3(b)))
            return mk_div(a, b)
        if isinstance(op, ast.Mod):
            if real:
                x, y = to_z3(a), to_z3(b)
                return x - y * z3.ToReal(z3.ToInt(x / y))
            return mk_mod(a, b)
        raise Unsupported("operator %s" % type(op).__name__)

    def int_true_div(self, x, y, st):
        """Quotient of two integers as a double: exact if both fit 53 bits and it divides, else rounded."""
        q = z3.ToReal(x) / z3.ToReal(y)
        if z3.is_int_value(x) and z3.is_int_value(y) and y.as_long() != 0 and abs(x.as_long()) <= 2 ** 53 and x.as_long() % y.as_long() == 0:
            return z3.RealVal(x.as_long() // y.as_long())
        r = z3.Function("fl_div", z3.IntSort(), z3.IntSort(), z3.RealSort())(x, y)
        big = z3.IntVal(2 ** 53)
        st.pc.append(z3.Implies(z3.And(y != 0, x <= big, x >= -big, y <= big, y >= -big, mk_mod(x, y) == 0), r == q))
        aq = z3.If(q >= 0, q, -q) / z3.RealVal(2 ** 52)
        st.pc.append(z3.Implies(y != 0, z3.And(r - q <= aq, q - r <= aq)))
        self.trusted.add("the quotient of two integers is a double within relative error 2**-52 (exact if it divides and both fit 53 bits)")
        return r

    def power(self, a, b, st, node, spec):
        cb = const_int(b) if is_int(b) else None
        ca = const_int(a) if is_int(a) else None
        if cb is not None and 0 <= cb <= 4:
            if ca is not None:
                return ca ** cb
            r = None
            for _ in range(cb):
                r = a if r is None else self.binop(ast.Mult(), r, a, st, node, spec)
            if r is None:
                return 1 if is_int(a) else 1.0
            return r
        if is_int(a) and is_int(b):
            if not spec:
                self.oblige(st, self.compare(ast.GtE(), b, 0, st, node), "exponent nonnegative", node)
            if "pw" in self.P.specfns:
                return self.P.specfns["pw"].decl(to_z3(as_int(a)), to_z3(as_int(b)))
        if is_real(a) or is_real(b):
            f = z3.Function("realpow", z3.RealSort(), z3.RealSort(), z3.RealSort())
            x, y = to_z3(as_int(a)), to_z3(as_int(b))
            x = z3.ToReal(x) if x.sort().kind() == z3.Z3_INT_SORT else x
            y = z3.ToReal(y) if y.sort().kind() == z3.Z3_INT_SORT else y
            self.trusted.add("real power is an uninterpreted function")
            return f(x, y)
        raise Unsupported("power")

    def is_nd(self, v):
        return isinstance(v, VRef) and v.id in self.nd

    def array_kept(self):
        """A numpy array went into a list: what is read from lists may be an array from now on (and was so in later rounds of a loop)."""
        if self.plain_sums:
            raise Unsupported("sum of lists in a function that keeps arrays in lists")
        self.nd_escaped = True

    def seq_binop(self, op, a, b, st, node, spec):
        if self.is_nd(a) or self.is_nd(b):
            from . import builtins_ as B
            return B.elementwise(self, lambda x, y: self.binop(op, x, y, st, node, spec), a, b, st)
        if isinstance(op, ast.Add) and self.nd_escaped:
            raise Unsupported("sum of lists that may be arrays")
        if isinstance(op, ast.Add):
            if not spec and isinstance(a, VRef) and isinstance(b, VRef):
                self.plain_sums = True
            if isinstance(a, VTuple) and isinstance(b, VTuple):
                return VTuple(a.items + b.items)
            if isinstance(a, VRef) and isinstance(b, VRef):
                ca, cb = st.heap[a.id], st.heap[b.id]
                if isinstance(ca, CListV) and isinstance(cb, CListV):
                    return self.alloc(st, CListV(ca.items + cb.items))
                return self.concat(a, b, st)
        if isinstance(op, ast.Mult):
            if isinstance(b, VRef):
                a, b = b, a
            c = st.heap[a.id] if isinstance(a, VRef) else None
            if isinstance(c, CListV) and is_int(b):
                n = const_int(b)
                if n is not None and n * len(c.items) <= 4096:
                    for x in c.items:
                        self.freeze(x, st)
                    return self.alloc(st, CListV(c.items * max(n, 0)))
                if len(c.items) == 1:
                    x = c.items[0]
                    t = self.type_of(x, st)
                    self.freeze(x, st)
                    n = to_z3(b)
                    return self.alloc(st, SListV(norm(t), z3.If(n < 0, z3.IntVal(0), n) if not self.entails(st, n >= 0) else n,
                                                 z3.K(z3.IntSort(), self.to_smt(x, norm(t), st))))
            if isinstance(c, SListV) and is_int(b):
                raise Unsupported("repetition of a symbolic list")
        raise Unsupported("sequence operator")

    def freeze(self, v, st):
        if isinstance(v, VRef):
            c = st.heap[v.id]
            if isinstance(c, CListV) and not c.frozen:
                for x in c.items:
                    self.freeze(x, st)
                st.heap[v.id] = CListV(c.items, True)
            elif isinstance(c, SListV) and not c.frozen:
                st.heap[v.id] = SListV(c.elem, c.length, c.arr, True)
        elif isinstance(v, VTuple):
            for x in v.items:
                self.freeze(x, st)

    def as_slist(self, v, st, elem=None):
        """The list as a symbolic list view (no copy of identity)."""
        c = st.heap[v.id]
        if isinstance(c, SListV):
            return c
        if isinstance(c, CListV):
            t = self.type_of(v, st)
            e = elem if elem is not None else t.args[1]
            if e.kind == "any":
                raise Unsupported("element type of an empty list is unknown")
            e = norm(e)
            term = self.to_smt(v, L(e), st)
            return SListV(e, term.arg(0), term.arg(1), c.frozen)
        raise Unsupported("list expected")

    def concat(self, a, b, st):
        ca, cb = st.heap[a.id], st.heap[b.id]
        if isinstance(ca, CListV) and not ca.items:
            sb = self.as_slist(b, st)
            return self.alloc(st, SListV(sb.elem, sb.length, sb.arr))
        if isinstance(cb, CListV):
            sa = self.as_slist(a, st)
            arr, n = sa.arr, sa.length
            for i, x in enumerate(cb.items):
                arr = z3.Store(arr, n + i if i else n, self.to_smt(x, sa.elem, st))
            return self.alloc(st, SListV(sa.elem, z3.simplify(n + len(cb.items)), arr))
        sb = self.as_slist(b, st)
        sa = self.as_slist(a, st, sb.elem)
        if norm(sa.elem) != norm(sb.elem):
            raise Unsupported("concatenation of different element types")
        if self.fresh_guard is not None:
            self.fresh_guard[0] += 1
        arr = fresh("cat", sa.arr.sort())
        k = z3.Int(fresh_name("k"))
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < sa.length), z3.Select(arr, k) == z3.Select(sa.arr, k)),
                               patterns=[z3.Select(arr, k)]))
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= sa.length, k < sa.length + sb.length),
                                               z3.Select(arr, k) == z3.Select(sb.arr, k - sa.length)),
                               patterns=[z3.Select(arr, k)]))
        return self.alloc(st, SListV(sa.elem, sa.length + sb.length, arr))

    def index_term(self, i, n, st, node, spec):
        """Obligation for an index; returns the non-negative position."""
        ci, cn = const_int(i), const_int(n)
        if ci is not None and cn is not None:
            if not (-cn <= ci < cn):
                if spec:
                    return ci
                self.oblige(st, False, "index in range", node)
                raise _Dead()
            return ci if ci >= 0 else ci + cn
        i, n = to_z3(as_int(i)), to_z3(n)
        if spec:
            if ci is not None and ci < 0:
                return n + ci
            return i
        if ci is not None:
            if ci >= 0:
                self.oblige(st, n > ci, "index in range", node)
                return i
            self.oblige(st, n >= -ci, "index in range", node)
            return n + ci
        if self.entails(st, i >= 0):
            self.oblige(st, i < n, "index in range", node)
            return i
        self.oblige(st, z3.And(i >= -n, i < n), "index in range", node)
        return z3.If(i < 0, i + n, i)

    def ev_Subscript(self, e, st, spec):
        base = self.eval(e.value, st, spec)
        if isinstance(e.slice, ast.Slice):
            r = self.slice(base, e.slice, st, e, spec)
        else:
            r = self.getitem(base, self.eval(e.slice, st, spec), st, e, spec)
        if self.is_nd(base) and isinstance(r, VRef):
            self.nd.add(r.id)
        return r

    def getitem(self, base, idx, st, node, spec):
        if isinstance(base, VFunc) and base.kind == "table":
            if isinstance(idx, str):
                if idx not in base.items:
                    self.oblige(st, False, "key in the table", node)
                    raise _Dead()
                return base.items[idx]
            if not (is_expr(idx) and idx.sort() == TM.Obj):
                raise Unsupported("table key")
            keys = list(base.items)
            self.oblige(st, Or(*[idx == self.P.string_const(k) for k in keys]), "key in the table", node)
            r = to_z3(float(base.items[keys[-1]]))
            for k in reversed(keys[:-1]):
                r = z3.If(idx == self.P.string_const(k), to_z3(float(base.items[k])), r)
            return r
        if isinstance(base, VFunc) and base.kind == "typing":
            return base
        if isinstance(base, VTuple):
            i = const_int(idx)
            if i is None:
                return self.select_case(list(base.items), idx, st, node, spec)
            if not (-len(base.items) <= i < len(base.items)):
                self.oblige(st, False, "index in range", node)
                raise _Dead()
            return base.items[i]
        if isinstance(base, VRef):
            c = st.heap[base.id]
            if isinstance(c, DictV):
                if not isinstance(idx, (str, int)):
                    raise Unsupported("dictionary lookup with a symbolic key")
                if idx not in c.items:
                    raise Unsupported("dictionary key %r is not declared" % (idx,))
                return c.items[idx]
            if isinstance(c, CListV):
                i = const_int(idx) if is_int(idx) else None
                if i is None:
                    return self.select_case(list(c.items), idx, st, node, spec)
                if not (-len(c.items) <= i < len(c.items)):
                    if not spec:
                        self.oblige(st, False, "index in range", node)
                    raise _Dead()
                return c.items[i]
            if isinstance(c, SListV):
                if not (is_int(idx) or is_bool(idx)):
                    raise Unsupported("list index %r" % (idx,))
                i = self.index_term(idx, c.length, st, node, spec)
                return self.from_smt(_select(c.arr, i), c.elem, st, spec)
        if isinstance(base, VSeq):
            i = self.index_term(idx, base.length, st, node, spec)
            return base.get(i)
        if is_expr(base) and base.sort() == TM.Obj:
            return fresh("item", TM.Obj)
        raise Unsupported("subscript of %r" % (base,))

    def select_case(self, items, idx, st, node, spec):
        if not is_int(idx):
            raise Unsupported("index %r" % (idx,))
        i = self.index_term(idx, len(items), st, node, spec)
        if isinstance(i, int):
            return items[i]
        if not items:
            raise _Dead()
        v = items[-1]
        for k in range(len(items) - 2, -1, -1):
            v = self.ite(i == k, items[k], v, st)
        return v

    def slice(self, base, sl, st, node, spec):
        lo = self.eval(sl.lower, st, spec) if sl.lower is not None else NONE
        hi = self.eval(sl.upper, st, spec) if sl.upper is not None else NONE
        step = self.eval(sl.step, st, spec) if sl.step is not None else NONE
        stp = 1 if isinstance(step, VNone) else const_int(step)
        if isinstance(base, (VTuple, VRef)):
            items = None
            if isinstance(base, VTuple):
                items = list(base.items)
            elif isinstance(st.heap[base.id], CListV):
                items = list(st.heap[base.id].items)
            clo = None if isinstance(lo, VNone) else const_int(lo)
            chi = None if isinstance(hi, VNone) else const_int(hi)
            if items is not None and stp is not None and (isinstance(lo, VNone) or clo is not None) and (isinstance(hi, VNone) or chi is not None):
                out = items[slice(clo, chi, stp)]
                return VTuple(out) if isinstance(base, VTuple) else self.alloc(st, CListV(out))
            if isinstance(base, VRef):
                c = self.as_slist(base, st)
                n = c.length
                if stp == 1:
                    s = self.clip(lo, 0, n, st)
                    t = self.clip(hi, n, n, st)
                    if const_int(s) == 0:
                        ln = t if self.entails(st, to_z3(t) >= 0) else z3.If(to_z3(t) < 0, z3.IntVal(0), to_z3(t))
                        return self.alloc(st, SListV(c.elem, to_z3(ln), c.arr))
                    d = z3.simplify(to_z3(t) - to_z3(s))
                    ln = d if self.entails(st, d >= 0) else z3.If(d < 0, z3.IntVal(0), d)
                    if self.fresh_guard is not None:
                        self.fresh_guard[0] += 1
                    arr = fresh("slice", c.arr.sort())
                    k = z3.Int(fresh_name("k"))
                    st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ln), z3.Select(arr, k) == z3.Select(c.arr, k + s)),
                                           patterns=[z3.Select(arr, k)]))
                    res = SListV(c.elem, to_z3(ln), arr)
                    res.origin = (c.arr, to_z3(s))     # the slice is this window of that array
                    return self.alloc(st, res)
                if stp == -1 and isinstance(lo, VNone) and isinstance(hi, VNone):
                    return self.reverse_copy(c, st)
        raise Unsupported("slice")

    def reverse_copy(self, c, st):
        if self.fresh_guard is not None:
            self.fresh_guard[0] += 1
        arr = fresh("rev", c.arr.sort())
        k = z3.Int(fresh_name("k"))
        n = c.length
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(arr, k) == z3.Select(c.arr, n - 1 - k)),
                               patterns=[z3.Select(arr, k)]))
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(c.arr, k) == z3.Select(arr, n - 1 - k)),
                               patterns=[z3.Select(c.arr, k)]))
        return self.alloc(st, SListV(c.elem, n, arr))

    def clip(self, v, dflt, n, st):
        if isinstance(v, VNone):
            return dflt
        v = to_z3(as_int(v))
        cv = const_int(v)
        if cv is not None and cv < 0:
            v = n + cv
            return v if self.entails(st, v >= 0) else z3.If(v < 0, z3.IntVal(0), v)
        if cv == 0:
            return 0
        nonneg = self.entails(st, v >= 0)
        if not nonneg:
            v = z3.If(v < 0, z3.If(v + n < 0, z3.IntVal(0), v + n), v)
        if self.entails(st, v <= n):
            return v
        return z3.If(v > n, n, v)

    def ev_Attribute(self, e, st, spec):
        base = self.eval(e.value, st, spec)
        if e.attr == "__name__" and isinstance(base, VModule):
            return base.name
        if e.attr == "__module__" and isinstance(base, VFunc) and base.kind == "type":
            return "builtins"
        if isinstance(base, VModule):
            if self.P.find_module(base.name) is not None or base.name.split(".")[0] == "phenum":
                return self.resolve_import(base.name, e.attr)
            return VFunc("ext", base.name + "." + e.attr)
        if isinstance(base, VFunc) and base.kind == "ext":
            return VFunc("ext", base.name + "." + e.attr)
        if isinstance(base, VFunc) and base.kind == "class":
            return VFunc("repo", base.name + "." + e.attr, module=base.module)
        if isinstance(base, VRef):
            c = st.heap[base.id]
            if isinstance(c, DictV):
                if e.attr in c.items:
                    return c.items[e.attr]
                if c.cls is not None and c.cls + "." + e.attr in self.module.funcs:
                    return VFunc("bound", c.cls + "." + e.attr, module=self.module, obj=base)
            return VFunc("method", e.attr, obj=base)
        if isinstance(base, (VTuple, str, VSeq)) or is_expr(base):
            return VFunc("method", e.attr, obj=base)
        raise Unsupported("attribute %s" % e.attr)

    # ---------------------------------------------------------- iteration
    def seq(self, v, st):
        """Any iterable as a VSeq."""
        if isinstance(v, VSeq):
            return v
        if isinstance(v, VTuple):
            items = v.items
            return VSeq(len(items), lambda k: self.pick(items, k, st))
        if isinstance(v, VRef):
            c = st.heap[v.id]
            if isinstance(c, CListV):
                items = c.items
                return VSeq(len(items), lambda k, s=None: self.pick(items, k, s or st), src={v.id})
            if isinstance(c, SListV):
                return VSeq(c.length, lambda k, s=None: self.from_smt(_select(c.arr, to_z3(k)), c.elem, s or st), src={v.id})
        raise Unsupported("iteration over %r" % (v,))

    def pick(self, items, k, st):
        ck = const_int(k)
        if ck is not None:
            return items[ck]
        return self.select_case(list(items), k, st, None, True)

    def comp_env(self, gen_targets, st):
        return {n: st.env.get(n, None) for n in gen_targets}

    def bind(self, target, v, st):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(target.elts), st)
            for t, x in zip(target.elts, items):
                self.bind(t, x, st)
        else:
            raise Unsupported("binding target")

    def unpack(self, v, n, st):
        if isinstance(v, VTuple):
            if len(v.items) != n:
                raise Unsupported("tuple unpacking of the wrong length")
            return list(v.items)
        if isinstance(v, VRef):
            c = st.heap[v.id]
            if isinstance(c, CListV):
                if len(c.items) != n:
                    raise Unsupported("unpacking of the wrong length")
                return list(c.items)
            if isinstance(c, SListV):
                self.oblige(st, c.length == n, "unpack length", None)
                return [self.from_smt(_select(c.arr, z3.IntVal(i)), c.elem, st) for i in range(n)]
        raise Unsupported("unpacking")

    def quantify(self, gens, elt, st, spec, mode, node):
        """all()/any() over a generator expression as a formula."""
        if not gens:
            return self.truth(self.eval(elt, st, spec), st)
        g = gens[0]
        s = self.seq(self.eval(g.iter, st, spec), st)
        n = const_int(s.length)
        names = target_names(g.target)
        saved = {x: st.env.get(x) for x in names}
        try:
            if n is not None and n <= self.MAX_UNROLL:
                parts = []
                for k in range(n):
                    self.bind(g.target, s.get(k), st)
                    parts.append(self._qbody(g, gens, elt, st, spec, mode, node))
                return And(*parts) if mode == "all" else Or(*parts)
            k = z3.Int(fresh_name("q"))
            rng = z3.And(k >= 0, k < to_z3(s.length))
            kk = k
            rg = getattr(s, "rng", None)
            if rg and rg[2] == 1:
                # quantify over the value itself, not the offset
                rng = z3.And(k >= rg[0], k < rg[1])
                val = k
            else:
                val = None
            n0 = len(st.pc)
            st.pc.append(rng)
            guard = self.fresh_guard
            self.fresh_guard = [0]
            self.nq += 1
            try:
                v = val if val is not None else s.get(kk)
                self.bind(g.target, v, st)
                body = self._qbody(g, gens, elt, st, spec, mode, node)
                if self.fresh_guard[0]:
                    raise Unsupported("quantified body introduces unknowns")
            finally:
                self.nq -= 1
                self.fresh_guard = guard
                learnt = st.pc[n0 + 1:]
                del st.pc[n0:]
                for x in learnt:
                    st.pc.append(z3.ForAll([k], z3.Implies(rng, x)))
            body = to_z3(body)
            if mode == "all":
                return z3.ForAll([k], z3.Implies(rng, body))
            return z3.Exists([k], z3.And(rng, body))
        finally:
            for x, v in saved.items():
                if v is None:
                    st.env.pop(x, None)
                else:
                    st.env[x] = v

    def _qbody(self, g, gens, elt, st, spec, mode, node):
        conds = [self.truth(self.eval(c, st, spec), st) for c in g.ifs]
        c = And(*conds) if conds else True

        def inner():
            return self.quantify(gens[1:], elt, st, spec, mode, node)
        if conds:
            b = self.under(st, c, inner, spec)
            return Implies(c, b) if mode == "all" else And(c, b)
        return inner()

    def ev_ListComp(self, e, st, spec):
        return self.comprehension(e, st, spec)

    def ev_GeneratorExp(self, e, st, spec):
        return self.comprehension(e, st, spec)

    def comprehension(self, e, st, spec):
        g = e.generators[0]
        it = self.eval(g.iter, st, spec)
        s = self.seq(it, st)
        n = const_int(s.length)
        names = target_names(g.target)
        saved = {x: st.env.get(x) for x in names}
        try:
            if n is not None and n <= self.MAX_UNROLL and len(e.generators) == 1:
                out, conds = [], []
                for k in range(n):
                    self.bind(g.target, s.get(k), st)
                    ok = True
                    for c in g.ifs:
                        cb = self.truth(self.eval(c, st, spec), st)
                        cb2 = const_bool(cb)
                        if cb2 is None:
                            cb2 = True if self.entails(st, cb) else (False if self.entails(st, Not(cb)) else None)
                        if cb2 is None:
                            raise Unsupported("filtered comprehension with a symbolic filter")
                        ok = ok and cb2
                    if ok:
                        out.append(self.eval(e.elt, st, spec))
                return self.alloc(st, CListV(out))
            if len(e.generators) == 1 and not g.ifs:
                # element-wise definition
                k = z3.Int(fresh_name("c"))
                rng = z3.And(k >= 0, k < to_z3(s.length))
                n0 = len(st.pc)
                st.pc.append(rng)
                guard = self.fresh_guard
                self.fresh_guard = [0]
                try:
                    self.bind(g.target, s.get(k), st)
                    v = self.eval(e.elt, st, spec)
                    t = norm(self.type_of(v, st))
                    term = self.to_smt(v, t, st)
                    bad = self.fresh_guard[0]
                finally:
                    self.fresh_guard = guard
                    learnt = st.pc[n0 + 1:]
                    del st.pc[n0:]
                if bad:
                    raise Unsupported("comprehension element introduces unknowns")
                for x in learnt:
                    st.pc.append(z3.ForAll([k], z3.Implies(rng, x)))
                ln = to_z3(s.length)
                if not _occurs(term, k):
                    return self.alloc(st, SListV(t, ln, z3.K(z3.IntSort(), term)))
                if self.fresh_guard is not None:
                    self.fresh_guard[0] += 1
                arr = fresh("comp", z3.ArraySort(z3.IntSort(), sort_of(t)))
                st.pc.append(z3.ForAll([k], z3.Implies(rng, z3.Select(arr, k) == term), patterns=[z3.Select(arr, k)]))
                return self.alloc(st, SListV(t, ln, arr))
        finally:
            for x, v in saved.items():
                if v is None:
                    st.env.pop(x, None)
                else:
                    st.env[x] = v
        raise Unsupported("comprehension")

    # --------------------------------------------------------------- calls
    def ev_Call(self, e, st, spec):
        # special forms of the specification language
        if isinstance(e.func, ast.Name) and e.func.id not in st.env:
            n = e.func.id
            if n in ("all", "any") and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                ge = e.args[0]
                return self.quantify(ge.generators, ge.elt, st, spec, n, e)
            if n == "sum" and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and not spec:
                return self.sum_loop(e.args[0], st, e)
            if n in ("min", "max") and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) \
                    and len(e.args[0].generators) == 1 and e.args[0].generators[0].ifs:
                r = self.filtered_extreme(n, e, st, spec)
                if r is not None:
                    return r
            if spec:
                r = self.spec_form(n, e, st)
                if r is not None:
                    return r
        if isinstance(e.func, ast.Name) and (spec or self.module is None) and e.func.id in self.P.specfns:
            f = VFunc("spec", e.func.id)
        else:
            f = self.eval(e.func, st, spec)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, spec)
                if isinstance(f, VFunc) and f.name == "itertools.product" and isinstance(v, VRef) and isinstance(st.heap[v.id], SListV) and len(e.args) == 1:
                    kw = {k.arg: self.eval(k.value, st, spec) for k in e.keywords}
                    from . import builtins_ as B
                    return B.product_of(self, v, kw, st)
                args.extend(self.items_of(v, st))
            else:
                args.append(self.eval(a, st, spec))
        kw = {k.arg: self.eval(k.value, st, spec) for k in e.keywords}
        return self.call(f, args, kw, st, e, spec)

    def filtered_extreme(self, which, e, st, spec):
        """min/max of [f(x) for x in xs if c(x)] over a short list."""
        ge = e.args[0]
        g = ge.generators[0]
        s = self.seq(self.eval(g.iter, st, spec), st)
        n = const_int(s.length)
        if n is None or n > self.MAX_UNROLL:
            return None
        saved = {x: st.env.get(x) for x in target_names(g.target)}
        out = []
        try:
            for k in range(n):
                self.bind(g.target, self.get_in(s, k, st), st)
                c = And(*[self.truth(self.eval(t, st, spec), st) for t in g.ifs])
                v = self.under(st, c, lambda: self.eval(ge.elt, st, spec), spec)
                if not (is_int(v) or is_real(v)):
                    return None
                out.append((to_z3(c), to_z3(v)))
        finally:
            self._restore(saved, st)
        if not spec:
            self.oblige(st, Or(*[c for c, _ in out]), "%s of a non-empty list" % which, e)
        if self.fresh_guard is not None:
            self.fresh_guard[0] += 1
        m = fresh(which, out[0][1].sort())
        for c, v in out:
            st.pc.append(z3.Implies(c, m <= v if which == "min" else m >= v))
        st.pc.append(Or(*[z3.And(c, m == v) for c, v in out]))
        return m

    def spec_form(self, n, e, st):
        if n == "implies":
            a = self.truth(self.eval(e.args[0], st, True), st)
            cb = const_bool(a)
            if cb is False:
                return True
            b = self.under(st, a, lambda: self.truth(self.eval(e.args[1], st, True), st))
            return Implies(a, b)
        if n == "iff":
            a = self.truth(self.eval(e.args[0], st, True), st)
            b = self.truth(self.eval(e.args[1], st, True), st)
            return to_z3(a) == to_z3(b)
        if n == "old":
            env, heap = st.entry
            s2 = State()
            s2.env = dict(st.env)
            s2.env.update(env)
            s2.heap = dict(st.heap)
            s2.heap.update(heap)
            s2.entry = st.entry
            v = self.eval(e.args[0], s2, True)
            return self.import_value(v, s2.heap, st)
        if n in ("forall", "exists"):
            lam = e.args[0]
            if not isinstance(lam, ast.Lambda):
                raise Unsupported("forall needs a lambda")
            names = [a.arg for a in lam.args.args]
            ks = [z3.Int(fresh_name(x)) for x in names]
            saved = {x: st.env.get(x) for x in names}
            for x, k in zip(names, ks):
                st.env[x] = k
            n0 = len(st.pc)
            try:
                body = self.truth(self.eval(lam.body, st, True), st)
            finally:
                del st.pc[n0:]
                for x, v in saved.items():
                    if v is None:
                        st.env.pop(x, None)
                    else:
                        st.env[x] = v
            pats = []
            body = to_z3(body)
            q = z3.ForAll if n == "forall" else z3.Exists
            return q(ks, body)
        return None

    def import_value(self, v, heap, st):
        """Copy a value living in another heap into st."""
        if isinstance(v, VTuple):
            return VTuple([self.import_value(x, heap, st) for x in v.items])
        if isinstance(v, VRef):
            c = heap[v.id]
            if isinstance(c, CListV):
                return self.alloc(st, CListV([self.import_value(x, heap, st) for x in c.items], True))
            if isinstance(c, SListV):
                return self.alloc(st, SListV(c.elem, c.length, c.arr, True))
            if isinstance(c, DictV):
                return self.alloc(st, DictV({k: self.import_value(x, heap, st) for k, x in c.items.items()}, c.cls))
        return v

    def sum_loop(self, ge, st, node):
        """sum(<comprehension>) is the loop acc = 0; for ...: acc += elt."""
        g = ge.generators[0]
        s = self.seq(self.eval(g.iter, st, False), st)
        n = const_int(s.length)
        if len(ge.generators) == 1 and n is not None and n <= self.MAX_UNROLL and not g.ifs:
            names = target_names(g.target)
            saved = {x: st.env.get(x) for x in names}
            acc = 0
            for k in range(n):
                self.bind(g.target, s.get(k), st)
                acc = self.binop(ast.Add(), acc, self.eval(ge.elt, st, False), st, node, False)
            self._restore(saved, st)
            return acc
        body = ast.AugAssign(target=ast.Name(id="ACC", ctx=ast.Store()), op=ast.Add(), value=ge.elt)
        for gg in reversed(ge.generators):
            for c in reversed(gg.ifs):
                body = ast.If(test=c, body=[body], orelse=[])
            body = ast.For(target=gg.target, iter=gg.iter, body=[body], orelse=[])
        self.P.adopt(body, node)
        if node in self.loop_ids:
            self.loop_ids[body] = self.loop_ids[node]
        saved = {x: st.env.get(x) for gg in ge.generators for x in target_names(gg.target)}
        saved["ACC"] = st.env.get("ACC")
        st.env["ACC"] = 0
        outs = self.exec_stmt(body, st)
        nxt = [o for o in outs if o[0] == "next"]
        if len(outs) != 1 or not nxt:
            raise Unsupported("sum over a comprehension with branching")
        s2 = nxt[0][1]
        st.env, st.heap, st.pc = s2.env, s2.heap, s2.pc
        acc = st.env["ACC"]
        self._restore(saved, st)
        return acc

    def _restore(self, saved, st):
        for x, v in saved.items():
            if v is None:
                st.env.pop(x, None)
            else:
                st.env[x] = v

    def call(self, f, args, kw, st, node, spec):
        if isinstance(f, VPoison):
            raise Unsupported(f.why)
        if not isinstance(f, VFunc):
            raise Unsupported("call of %r" % (f,))
        k = f.kind
        if k == "spec":
            return self.P.apply_spec(self, f.name, args, st)
        if k == "lemma":
            return self.P.apply_lemma(self, f.name, args, st, node)
        if k == "builtin":
            from . import builtins_ as B
            h = B.BUILTINS.get(f.name)
            if h is None:
                raise Unsupported("builtin %s" % f.name)
            return h(self, args, kw, st, node, spec)
        if k == "method":
            from . import builtins_ as B
            return B.method(self, f.obj, f.name, args, kw, st, node, spec)
        if k == "ext":
            from . import builtins_ as B
            h = B.EXTERNAL.get(f.name)
            if h is None:
                return B.unknown_external(self, f.name, args, kw, st, node)
            return h(self, args, kw, st, node, spec)
        if k == "lambda":
            return self.call_lambda(f, args, st, spec)
        if k == "bound":
            return self.call_repo(f, [f.obj] + args, kw, st, node)
        if k == "repo":
            return self.call_repo(f, args, kw, st, node)
        if k == "class":
            return self.construct(f, args, kw, st, node)
        if k == "closure":
            return self.inline(f.node, f.name, args, kw, st, node, f.module, closure=True)
        raise Unsupported("call of %s" % f.name)

    def construct(self, f, args, kw, st, node):
        """A new object of a class of the repository: its __init__ is executed."""
        cls = f.module.classes[f.name]
        if cls.bases and not all(isinstance(b, ast.Name) and b.id == "object" for b in cls.bases) or cls.decorator_list or cls.keywords:
            raise Unsupported("class %s" % f.name)
        if any(isinstance(x, ast.FunctionDef) and x.name in ("__new__", "__setattr__", "__getattr__", "__getattribute__") for x in cls.body):
            raise Unsupported("class %s" % f.name)
        obj = self.alloc(st, DictV({}, f.name))
        if f.name + ".__init__" in f.module.funcs:
            self.call_repo(VFunc("repo", f.name + ".__init__", module=f.module), [obj] + args, kw, st, node)
        elif args or kw:
            raise Unsupported("class %s" % f.name)
        return obj

    def call_lambda(self, f, args, st, spec):
        ps = [a.arg for a in f.node.args.args]
        if len(ps) != len(args):
            raise Unsupported("lambda arity")
        saved = dict(st.env)
        env = dict(f.env)
        env.update(zip(ps, args))
        st.env = env
        try:
            return self.eval(f.node.body, st, spec)
        finally:
            st.env = saved

    def bind_params(self, fn, args, kw, st):
        a = fn.args
        names = [x.arg for x in a.args]
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            raise Unsupported("parameter kinds")
        env = {}
        if len(args) > len(names):
            raise Unsupported("too many arguments")
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kw.items():
            if k not in names or k in env:
                raise Unsupported("keyword argument %s" % k)
            env[k] = v
        nd = len(a.defaults)
        for n, dflt in zip(names[len(names) - nd:], a.defaults):
            if n not in env:
                env[n] = self.eval(dflt, st, False)
        for n in names:
            if n not in env:
                raise Unsupported("missing argument %s" % n)
        return env

    def call_repo(self, f, args, kw, st, node):
        key = f.module.path + ":" + f.name
        c = self.P.contracts.get(key)
        if f.module.path == "phenum/msg.py" and f.name in ("err", "warn", "info", "okay", "gen", "std"):
            self.trusted.add("phenum/msg.py only prints messages")
            return NONE
        if key == self.key and c is not None and not c.get("recursive"):
            raise Unsupported("recursive call without a decreases clause")
        fn = f.module.funcs.get(f.name)
        if fn is None:
            raise Unsupported("function %s not found" % key)
        is_static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
        if c is not None and not c.get("inline"):
            env = self.bind_params(fn, args, kw, st)
            return self.apply_contract(key, c, env, st, node)
        return self.inline(fn, f.name, args, kw, st, node, f.module)

    def apply_contract(self, key, c, env, st, node):
        self.used_contracts.add(key)
        s2 = State()
        s2.env = {n: v for n, v in env.items() if n in c["params"]}
        for n in c["params"]:
            # coerce concrete lists into the declared shape is not needed: specs accept both
            if n not in s2.env:
                raise Unsupported("contract of %s mentions unknown parameter %s" % (key, n))
            self.check_type(s2.env[n], parse_type(c["params"][n]), st, key, n)
        s2.heap = st.heap
        s2.pc = st.pc
        s2.entry = (dict(s2.env), dict(st.heap))
        saved_mod = self.module
        for i, r in enumerate(c.get("requires", [])):
            g = self.P.eval_spec(self, r, s2)
            self.oblige(st, g, "precondition of %s [%s]" % (key.split(":")[-1], r), node)
        for d in c.get("raises_unless", []):
            pass
        # frame: everything not listed in modifies keeps its value
        pre_heap = dict(st.heap)
        for n in c.get("modifies", []):
            v = env[n]
            cell = st.heap[v.id]
            if cell.frozen:
                raise Unsupported("callee modifies a borrowed list")
            fv = self.fresh_value(parse_type(c["params"][n]), st, n)
            st.heap[v.id] = st.heap[fv.id]
        if self.fresh_guard is not None and not c.get("function"):
            self.fresh_guard[0] += 1
        rt = parse_type(c["returns"]) if c.get("returns") else None
        if c.get("function"):
            # deterministic scalar result: usable under quantifiers
            sorts = [self.to_smt(env[n], norm(parse_type(c["params"][n])), st) for n in c["function"]]
            fd = z3.Function("fn_" + key.replace("/", "_").replace(".", "_").replace(":", "_"), *([s.sort() for s in sorts] + [sort_of(rt)]))
            res = self.from_smt(fd(*sorts), rt, st)
        else:
            res = self.fresh_value(rt, st, "res") if rt is not None else NONE
        s3 = State()
        s3.env = dict(s2.env)
        s3.heap = dict(pre_heap)
        s3.heap.update({k: v for k, v in st.heap.items() if k not in pre_heap})
        s3.pc = st.pc
        s3.entry = s2.entry
        s3.env["result"] = res
        for n in c.get("modifies", []):
            s3.env["final_" + n] = self.import_value(env[n], st.heap, s3)
        for n, t in c.get("ghost_out", {}).items():
            # witnesses named by the contract: some values that satisfy it
            if self.fresh_guard is not None:
                self.fresh_guard[0] += 1
            s3.env[n] = self.fresh_value(parse_type(t), st, n)
            st.env["o_" + n[2:]] = s3.env[n]
        for r in c.get("ensures", []):
            g = self.P.eval_spec(self, r[0] if isinstance(r, tuple) else r, s3)
            st.pc.append(to_z3(g))
        for k2, v2 in s3.heap.items():
            if k2 not in st.heap:
                st.heap[k2] = v2
        return res

    def check_type(self, v, t, st, key, n):
        k = t.kind
        ok = True
        if k == "int":
            ok = is_int(v) or is_bool(v)
        elif k == "real":
            ok = is_real(v) or is_int(v)
        elif k == "bool":
            ok = is_bool(v)
        elif k == "L":
            ok = isinstance(v, VRef) and isinstance(st.heap[v.id], (CListV, SListV))
        elif k == "CL":
            if isinstance(v, VRef):
                c = st.heap[v.id]
                if isinstance(c, SListV):
                    self.oblige(st, c.length == t.args[0], "argument %s of %s has length %d" % (n, key, t.args[0]), None)
                    st.heap[v.id] = CListV([self.from_smt(z3.Select(c.arr, i), c.elem, st) for i in range(t.args[0])], c.frozen)
                ok = isinstance(st.heap[v.id], CListV) and len(st.heap[v.id].items) == t.args[0]
                if ok:
                    for x in st.heap[v.id].items:
                        self.check_type(x, t.args[1], st, key, n)
            else:
                ok = False
        if not ok:
            raise Unsupported("argument %s of %s does not have type %s" % (n, key, t))

    def inline(self, fn, name, args, kw, st, node, module, closure=False):
        if self.depth >= self.MAX_INLINE:
            raise Unsupported("inlining depth at %s" % name)
        self.inlined.add(module.path + ":" + name)
        env = self.bind_params(fn, args, kw, st)
        saved_env, saved_mod, saved_entry = st.env, self.module, st.entry
        s = st.fork()
        if closure:
            e2 = dict(saved_env)
            e2.update(env)
            s.env = e2
        else:
            s.env = dict(env)
        self.module = module
        self.depth += 1
        saved_fn, self.fn_node = self.fn_node, fn
        self.index_loops(fn, prefix=name + "/")
        try:
            outs = self.exec_block(fn.body, s)
        finally:
            self.depth -= 1
            self.module = saved_mod
            self.fn_node = saved_fn
        rets = []
        for o in outs:
            if o[0] == "next":
                rets.append((o[1], NONE))
            elif o[0] == "return":
                rets.append((o[1], o[2]))
            elif o[0] == "raise":
                self.raises.append((o[1], o[2], o[3]))
            else:
                raise Unsupported("break outside loop")
        if not rets:
            raise _Dead()
        for s2, v in rets:
            if closure:
                # nonlocal effects on names are not supported, heap effects are
                for n, x in saved_env.items():
                    pass
            s2.env = dict(saved_env)
            s2.entry = saved_entry
        if len(rets) == 1:
            s2, v = rets[0]
            st.env, st.heap, st.pc = s2.env, s2.heap, s2.pc
            return v
        # several paths: merge them
        m, v = self.merge_many(st, rets)
        st.env, st.heap, st.pc = m.env, m.heap, m.pc
        return v

    def merge_many(self, base, rets):
        n0 = len(base.pc)
        for s, _ in rets:
            if len(s.pc) < n0 or any(not s.pc[i].eq(base.pc[i]) for i in range(n0)):
                raise Unsupported("path merge")
        (s, v) = rets[-1]
        m, val = s.fork(), v
        rest = And(*s.pc[n0:])
        pcs = [(And(*x.pc[n0:])) for x, _ in rets]
        disj = pcs[-1]
        for i in range(len(rets) - 2, -1, -1):
            a, va = rets[i]
            ca = fresh("path", z3.BoolSort())
            mm = State()
            mm.entry = base.entry
            mm.ghost = dict(base.ghost)
            mm.heap = dict(m.heap)
            mm.heap.update({k: c for k, c in a.heap.items() if k not in mm.heap})
            for k, c in a.heap.items():
                if k in m.heap and m.heap[k] is not c:
                    mm.heap[k] = self.merge_cell(ca, c, a, m.heap[k], m, mm)
            mm.env = dict(base.env)
            val = self.ite(ca, va, val, mm)
            disj = z3.And(z3.Implies(ca, pcs[i]), z3.Implies(z3.Not(ca), disj))
            m = mm
        m.env = dict(base.env)
        m.pc = list(base.pc) + [disj]
        if self.fresh_guard is not None:
            self.fresh_guard[0] += 1
        return m, val

    def merge_cell(self, c, x, sx, y, sy, st):
        if isinstance(x, CListV) and isinstance(y, CListV) and len(x.items) == len(y.items):
            return CListV([p if p is q else self.ite(c, p, q, st) for p, q in zip(x.items, y.items)], x.frozen or y.frozen)
        if isinstance(x, SListV) and isinstance(y, SListV) and norm(x.elem) == norm(y.elem):
            return SListV(x.elem, z3.If(c, x.length, y.length), z3.If(c, x.arr, y.arr), x.frozen or y.frozen)
        if isinstance(x, (SListV, CListV)) and isinstance(y, (SListV, CListV)):
            sx_, sy_ = x, y
            ri, rj = self.alloc(st, x), self.alloc(st, y)
            t = join_t(self.type_of(ri, st), self.type_of(rj, st))
            a, b = self.as_slist(ri, st, t.args[-1]), self.as_slist(rj, st, t.args[-1])
            return SListV(a.elem, z3.If(c, a.length, b.length), z3.If(c, a.arr, b.arr), x.frozen or y.frozen)
        raise Unsupported("merge of different heap shapes")

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        outs = []
        cur = [st]
        for s in stmts:
            nxt = []
            for c in cur:
                try:
                    res = self.exec_stmt(s, c)
                except _Dead:
                    continue
                for o in res:
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            cur = nxt
            if len(cur) + len(outs) > self.MAX_STATES:
                raise Unsupported("too many paths")
        outs.extend(("next", c) for c in cur)
        return outs

    def exec_stmt(self, s, st):
        if self.contract.get("split") and not self.nosplit:
            parts = self.split_indices(s, st)
            if parts is not None:
                outs = []
                for p in parts:
                    try:
                        outs += self.exec_stmt(s, p)
                    except _Dead:
                        continue
                return outs
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(s).__name__, getattr(s, "lineno", 0)))
        before, after = self.contract.get("before"), self.contract.get("after")
        if (before or after) and not self.nosplit and isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.If)):
            # ghost statements around the statements that call something
            names = {n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id for n in ast.walk(s.test if isinstance(s, ast.If) else s) if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name))}
            for k in sorted(names & set(before or ())):
                self.run_ghost(before[k], st, s)
            if isinstance(s, ast.If):
                return m(s, st)
            outs = m(s, st)
            for k in sorted(names & set(after or ())):
                for o in outs:
                    if o[0] == "next":
                        self.run_ghost(after[k], o[1], s)
            return outs
        return m(s, st)

    nosplit = 0

    def split_indices(self, s, st):
        """Case distinction over a variable that indexes a list of fixed length."""
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)):
            scan, written = [s], set()
        elif isinstance(s, ast.If):
            scan, written = [s.test], set()
        elif isinstance(s, (ast.While, ast.For)):
            scan = [s]
            written = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        else:
            return None
        for top in scan:
            for n in ast.walk(top):
                if not (isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name)):
                    continue
                x = n.slice.id
                v = st.env.get(x)
                if x in written or not is_expr(v) or not is_int(v) or const_int(v) is not None:
                    continue
                if any(isinstance(m, ast.Call) for m in ast.walk(n.value)):
                    continue
                try:
                    b = self.eval(n.value, st.fork(), True)
                except (Unsupported, _Dead):
                    continue
                if not isinstance(b, VRef) or not isinstance(st.heap.get(b.id), CListV) or not 1 <= len(st.heap[b.id].items) <= 4:
                    continue
                m = len(st.heap[b.id].items)
                self.oblige(st, z3.And(v >= 0, v < m), "index in range", n)
                out = []
                for k in range(m):
                    q = st.fork()
                    q.pc.append(v == k)
                    q.env[x] = k
                    if self.feasible(q, 200):
                        out.append(q)
                return out
        return None

    def st_Pass(self, s, st):
        return [("next", st)]

    def st_Break(self, s, st):
        return [("break", st)]

    def st_Continue(self, s, st):
        return [("continue", st)]

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("next", st)]
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("exit", "quit") \
                and s.value.func.id not in st.env:
            return [("raise", st, "SystemExit", s)]
        self.eval(s.value, st, False)
        return [("next", st)]

    def st_Import(self, s, st):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = VModule(a.name)
            else:
                st.env[a.name.split(".")[0]] = VModule(a.name.split(".")[0])
        return [("next", st)]

    def st_ImportFrom(self, s, st):
        mod = s.module or ""
        if s.level:
            mod = "phenum" + ("." + mod if mod else "")
        for a in s.names:
            st.env[a.asname or a.name] = self.resolve_import(mod, a.name)
        return [("next", st)]

    def st_FunctionDef(self, s, st):
        st.env[s.name] = VFunc("closure", s.name, node=s, module=self.module)
        return [("next", st)]

    def st_Return(self, s, st):
        v = self.eval(s.value, st, False) if s.value is not None else NONE
        return [("return", st, v)]

    def st_Raise(self, s, st):
        name = "Exception"
        if s.exc is not None:
            f = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = f.id if isinstance(f, ast.Name) else "Exception"
        return [("raise", st, name, s)]

    def st_Assert(self, s, st):
        g = self.truth(self.eval(s.test, st, False), st)
        self.oblige(st, g, "assert", s)
        return [("next", st)]

    def st_Assign(self, s, st):
        v = self.eval(s.value, st, False)
        if len(s.targets) > 1 and False:
            raise Unsupported("chained assignment")
        for t in s.targets:
            self.assign(t, v, st, s)
        return [("next", st)]

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, False), st, s)
        return [("next", st)]

    def st_AugAssign(self, s, st):
        cur = self.eval(_load(s.target), st, False)
        rhs = self.eval(s.value, st, False)
        if self.is_nd(cur):
            raise Unsupported("augmented assignment to an array")
        if isinstance(cur, VRef) and isinstance(s.op, ast.Add):
            if self.is_nd(rhs) or self.nd_escaped:
                raise Unsupported("extension of a list that may be an array")
            from . import builtins_ as B
            B.method(self, cur, "extend", [rhs], {}, st, s, False)
            return [("next", st)]
        v = self.binop(s.op, cur, rhs, st, s, False)
        self.assign(s.target, v, st, s)
        return [("next", st)]

    def st_Delete(self, s, st):
        raise Unsupported("del")

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if isinstance(v, VSeq):
                v = self.materialise(v, st)
            st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), st)
            for x, y in zip(t.elts, items):
                self.assign(x, y, st, node)
            return
        if isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, False)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            idx = self.eval(t.slice, st, False)
            if self.set_in_row(t, idx, v, st, node):
                return
            self.setitem(base, idx, v, st, node, t)
            return
        if isinstance(t, ast.Attribute):
            base = self.eval(t.value, st, False)
            if isinstance(base, VRef) and isinstance(st.heap[base.id], DictV):
                d = st.heap[base.id]
                items = dict(d.items)
                items[t.attr] = v
                st.heap[base.id] = DictV(items, d.cls)
                return
        raise Unsupported("assignment target")

    def materialise(self, v, st):
        if getattr(v, "oneshot", False):
            raise Unsupported("iterator stored in a variable")
        return v

    def set_in_row(self, t, idx, v, st, node):
        """a[i][j] = v for an array whose rows belong to it alone: the row is replaced.
        Sound because the name is only ever used in ways that keep no reference to a row."""
        if not (isinstance(t.value, ast.Subscript) and isinstance(t.value.value, ast.Name)):
            return False
        name = t.value.value.id
        a = st.env.get(name)
        c = st.heap.get(a.id) if isinstance(a, VRef) else None
        if not (isinstance(c, SListV) and c.elem.kind == "L" and getattr(c.elem, "own", False)) or c.frozen:
            return False
        if not self.rows_stay_inside(name):
            raise Unsupported("a row of %s may be known under another name" % name)
        i = self.eval(t.value.slice, st, False)
        pos = self.index_term(i, c.length, st, node, False)
        row = self.from_smt(z3.Select(c.arr, pos), c.elem, st)
        rc = st.heap[row.id]
        st.heap[row.id] = SListV(rc.elem, rc.length, rc.arr)
        self.setitem(row, idx, v, st, node, t)
        st.heap[a.id] = SListV(c.elem, c.length, z3.Store(c.arr, pos, self.to_smt(row, c.elem, st)))
        return True

    def rows_stay_inside(self, name):
        fn = self.fn_node
        if fn is None:
            return False
        ok = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
                if isinstance(n.ctx, ast.Store):
                    ok.add(id(n.value))
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id == name \
                    and not isinstance(n.slice, ast.Slice) and not isinstance(n.value.slice, (ast.Slice, ast.Tuple)):
                ok.add(id(n.value.value))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "list" and len(n.args) == 1 and isinstance(n.args[0], ast.Subscript) \
                    and isinstance(n.args[0].value, ast.Name) and n.args[0].value.id == name and not isinstance(n.args[0].slice, ast.Slice):
                ok.add(id(n.args[0].value))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
                ok.add(id(n.args[0]))
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Name):
                ok.add(id(n.value))
            if isinstance(n, ast.Assign):
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        ok.add(id(x))
        return all(id(n) in ok for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == name)

    def setitem(self, base, idx, v, st, node, target):
        if not isinstance(base, VRef):
            raise Unsupported("item assignment")
        c = st.heap[base.id]
        if isinstance(c, DictV):
            if not isinstance(idx, (str, int)):
                raise Unsupported("dictionary store with a symbolic key")
            items = dict(c.items)
            items[idx] = v
            st.heap[base.id] = DictV(items, c.cls)
            return
        if c.frozen:
            raise Unsupported("assignment into a list that is shared")
        if isinstance(c, CListV):
            i = const_int(idx) if is_int(idx) else None
            if i is not None:
                if not (-len(c.items) <= i < len(c.items)):
                    self.oblige(st, False, "index in range", node)
                    raise _Dead()
                items = list(c.items)
                items[i] = v
                st.heap[base.id] = CListV(items)
                return
            if not is_int(idx):
                raise Unsupported("list index")
            pos = self.index_term(idx, len(c.items), st, node, False)
            items = []
            for k, x in enumerate(c.items):
                items.append(self.ite(pos == k, v, x, st))
            st.heap[base.id] = CListV(items)
            return
        if isinstance(c, SListV):
            pos = self.index_term(idx, c.length, st, node, False)
            if norm(self.value_type(v, st)) != norm(c.elem) and not (c.elem.kind in ("real",) and is_int(v)):
                jt = join_t(norm(self.value_type(v, st)), norm(c.elem))
                if jt != norm(c.elem):
                    raise Unsupported("store of a %s into a list of %s" % (self.value_type(v, st), c.elem))
            if self.is_nd(v):
                self.array_kept()
            self.freeze(v, st)
            st.heap[base.id] = SListV(c.elem, c.length, z3.Store(c.arr, pos, self.to_smt(v, c.elem, st)))
            return
        raise Unsupported("item assignment")

    def value_type(self, v, st):
        return self.type_of(v, st)

    def st_If(self, s, st):
        c = self.truth(self.eval(s.test, st, False), st)
        cb = const_bool(c)
        if cb is not None:
            return self.exec_block(s.body if cb else s.orelse, st)
        a = st.fork()
        a.pc.append(to_z3(c))
        b = st.fork()
        b.pc.append(to_z3(Not(c)))
        outs = []
        na, nb = [], []
        for (br, body, acc) in ((a, s.body, na), (b, s.orelse, nb)):
            if not self.feasible(br, 200):
                continue
            for o in self.exec_block(body, br):
                if o[0] == "next":
                    acc.append(o[1])
                else:
                    outs.append(o)
        if len(na) == 1 and len(nb) == 1 and self.contract.get("merge", False):
            m = self.try_merge(st, c, na[0], nb[0])
            if m is not None:
                return outs + [("next", m)]
        return outs + [("next", x) for x in na + nb]

    def try_merge(self, base, c, a, b):
        n0 = len(base.pc)
        m = State()
        m.entry, m.ghost = base.entry, dict(base.ghost)
        m.heap = dict(b.heap)
        m.heap.update({k: v for k, v in a.heap.items() if k not in m.heap})
        try:
            for k, v in a.heap.items():
                if k in b.heap and b.heap[k] is not v:
                    m.heap[k] = self.merge_cell(c, v, a, b.heap[k], b, m)
            for n in set(a.env) | set(b.env):
                x, y = a.env.get(n), b.env.get(n)
                if x is None or y is None:
                    m.env[n] = VPoison("assigned on one branch only")
                elif x is y or (is_expr(x) and is_expr(y) and x.eq(y)) or (isinstance(x, VRef) and isinstance(y, VRef) and x.id == y.id):
                    m.env[n] = x
                elif not is_expr(x) and not is_expr(y) and type(x) is type(y) and isinstance(x, (int, str, bool, float)) and x == y:
                    m.env[n] = x
                elif isinstance(x, (VFunc, VModule, VSeq)) or isinstance(y, (VFunc, VModule, VSeq)):
                    m.env[n] = x if type(x) is type(y) and getattr(x, "name", 0) == getattr(y, "name", 1) else VPoison("differs between branches")
                else:
                    try:
                        m.env[n] = self.ite(c, x, y, m)
                    except Unsupported:
                        m.env[n] = VPoison("differs between branches")
        except Unsupported:
            return None
        m.pc = list(base.pc)
        ea, eb = a.pc[n0 + 1:], b.pc[n0 + 1:]
        for h in ea:
            m.pc.append(z3.Implies(to_z3(c), h))
        for h in eb:
            m.pc.append(z3.Implies(z3.Not(to_z3(c)), h))
        return m

    def st_Try(self, s, st):
        raise Unsupported("try")

    def st_With(self, s, st):
        raise Unsupported("with")

    def st_Global(self, s, st):
        raise Unsupported("global")

    # --------------------------------------------------------------- loops
    def index_loops(self, fn, prefix=""):
        """Loops (and sums over comprehensions) in source order."""
        n = 0
        for node in ast.walk(fn):
            pass
        order = []

        def visit(node):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.For, ast.While)):
                    order.append(ch)
                elif isinstance(ch, ast.Call) and isinstance(ch.func, ast.Name) and ch.func.id == "sum" and ch.args \
                        and isinstance(ch.args[0], (ast.GeneratorExp, ast.ListComp)):
                    order.append(ch)
                visit(ch)
        visit(fn)
        for i, node in enumerate(order):
            self.loop_ids.setdefault(node, prefix + str(i) if prefix else i)

    def st_For(self, s, st):
        if s.orelse:
            raise Unsupported("for-else")
        sq = self.seq(self.eval(s.iter, st, False), st)
        n = const_int(sq.length)
        if n is not None and n <= self.MAX_UNROLL and not self.loop_spec(s)[0].get("cut"):
            return self.unroll(s, st, sq, n)
        return self.cut(s, st, sq)

    def unroll(self, s, st, sq, n):
        outs = []
        cur = [st]
        for k in range(n):
            nxt = []
            for c in cur:
                try:
                    v = self.seq_get(sq, k, c)
                    self.assign(s.target, v, c, s)
                except _Dead:
                    continue
                for o in self.exec_block(s.body, c):
                    if o[0] in ("next", "continue"):
                        nxt.append(o[1])
                    elif o[0] == "break":
                        outs.append(("next", o[1]))
                    else:
                        outs.append(o)
            cur = nxt
            if len(cur) + len(outs) > self.MAX_STATES:
                raise Unsupported("too many paths")
        return outs + [("next", c) for c in cur]

    def seq_get(self, sq, k, st):
        # getters created in one state may allocate: rebind them to the current one
        old = self._rebind
        self._rebind = st
        try:
            return sq.get(k) if not getattr(sq, "stateful", False) else sq.get(k, st)
        finally:
            self._rebind = old

    _rebind = None

    def st_While(self, s, st):
        if s.orelse:
            raise Unsupported("while-else")
        c = const_bool(self.truth(self.eval(s.test, st.fork(), False), st)) if _pure_test(s.test) else None
        if c is False:
            return [("next", st)]
        return self.cut(s, st, None)

    def loop_spec(self, node):
        i = self.loop_ids.get(node)
        loops = self.contract.get("loops", {})
        sp = loops.get(i, loops.get(str(i), {})) if i is not None else {}
        return sp, i

    def cut(self, s, st, sq):
        sp, ordn = self.loop_spec(s)
        length = to_z3(sq.length) if sq is not None else None
        src = (sq.src or set()) if sq is not None else set()
        # ---- 1. what does the body change, and into what shape?
        memo = self.loopshape.get(s)
        modv, modc = (dict(memo[0]), {}) if memo else ({}, {})
        for n, tt in sp.get("types", {}).items():
            if n in st.env and isinstance(st.env[n], VRef):
                modc[st.env[n].id] = parse_type(tt)
        for rnd in range(12):
            hs, it = self.havoc(st, modv, modc, s)
            hs.env["IT"] = it
            hs.env["IT%s" % ordn] = it
            n_pc = len(hs.pc)
            changed = False
            self.suppress += 1
            try:
                body = hs.fork()
                outs = self.run_body(s, body, sq, it, length, discover=True)
            finally:
                self.suppress -= 1
            for o in outs:
                if o[0] not in ("next", "continue"):
                    continue
                e = o[1]
                for n, v in hs.env.items():
                    w = e.env.get(n, None)
                    if w is None or _same(v, w):
                        continue
                    if isinstance(v, VPoison):
                        continue
                    t = self.join_v(v, hs, w, e)
                    if n in modv and modv[n] == t:
                        continue
                    if n in modv and t is not None and modv[n] is not None:
                        t = self._generalise(modv[n], t)
                        if t == modv[n]:
                            continue
                    modv[n] = t
                    changed = True
                for cid, cell in hs.heap.items():
                    if cid not in st.heap and cid not in modc:
                        continue
                    w = e.heap.get(cid)
                    if w is cell or _same_cell(cell, w):
                        continue
                    if isinstance(cell, DictV) or isinstance(w, DictV):
                        t = self.dict_shape(cell, hs, w, e)
                    else:
                        t = self.join_cells(cell, hs, w, e)
                    if cid in modc and modc[cid] == t:
                        continue
                    if cid in modc and modc[cid] is not None and t is not None:
                        t = self._generalise(modc[cid], t)
                        if t == modc[cid]:
                            continue
                    modc[cid] = t
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported("loop shapes do not stabilise (line %d)" % s.lineno)
        self.loopshape[s] = (dict(modv), {})
        if src & set(modc):
            raise Unsupported("list modified while it is iterated over")
        # ---- 2. invariants hold on entry
        invs = list(sp.get("inv", []))
        e0 = st.fork()
        for cid, t in modc.items():
            # give the entry cells their general shape so that specs read alike
            self.generalise_cell(e0, cid, t)
        e0.env["IT"] = 0
        e0.env["IT%s" % ordn] = 0
        self.run_ghost(sp.get("enter", []), e0, s)
        kept = []
        for r in invs:
            g = self.spec_or_none(r, e0)
            if g is None:
                continue
            kept.append(r)
            self.oblige(e0, g, "invariant on entry [%s]" % (r[0] if isinstance(r, tuple) else r), s)
        invs = kept
        # ---- 3. arbitrary iteration
        hs, it = self.havoc(st, modv, modc, s)
        hs.env["IT"] = it
        hs.env["IT%s" % ordn] = it
        if sq is not None:
            hs.pc.append(it <= (length if length is not None else it))
        for r in invs:
            g = self.spec_or_none(r, hs)
            if g is not None:
                hs.pc.append(to_z3(g))
        dec0 = None
        if sp.get("decreases"):
            dec0 = self.P.eval_spec(self, sp["decreases"], hs)
        outs = []
        # variables the loop brings into being: they exist afterwards if it runs at least once
        born = {n: parse_type(tt) for n, tt in sp.get("types", {}).items() if n not in st.env and sq is not None and (const_int(sq.length) or 0) >= 1}
        alone = set(born)
        body = hs.fork()
        body.ghost["loop"] = dict(st.env)
        for o in self.run_body(s, body, sq, it, length):
            if o[0] in ("next", "continue"):
                e = o[1]
                self.check_shapes(e, st, modv, modc, s)
                for n, tt in born.items():
                    if not self.defined_alone(e, n, tt):
                        alone.discard(n)
                e.env["IT"] = it + 1
                e.env["IT%s" % ordn] = it + 1
                self.run_ghost(sp.get("end", []), e, s)
                for r in invs:
                    try:
                        self.oblige_spec(e, r, "invariant preserved [%s]", s)
                    except (Unsupported, _Dead) as ex:
                        self.notes.add("invariant cannot be stated: %s (%s)" % (r, ex))
                        self.oblige(e, False, "invariant preserved [%s]" % (r,), s)
                if dec0 is not None:
                    d1 = self.P.eval_spec(self, sp["decreases"], e)
                    self.oblige(e, z3.And(to_z3(dec0) >= 0, to_z3(d1) < to_z3(dec0)), "decreases", s)
            elif o[0] == "break":
                o[1].env["IT"] = it
                self.run_ghost(sp.get("break", []), o[1], s)
                outs.append(("next", o[1]))
            else:
                outs.append(o)
        if sq is None and dec0 is None:
            self.unproved_termination.add("%s line %d" % (self.key, s.lineno))
        # ---- 4. normal exit
        ex = hs.fork()
        if sq is not None:
            ex.pc.append(it == z3.If(length >= 0, length, z3.IntVal(0)) if not self.entails(st, length >= 0) else it == length)
            for n in target_names(s.target):
                if n not in st.env:
                    ex.env[n] = VPoison("loop variable after the loop")
                else:
                    ex.env[n] = VPoison("loop variable after the loop")
            for n in alone:
                ex.env[n] = self.fresh_value(born[n], ex, n)
                if isinstance(ex.env[n], VRef) and isinstance(ex.heap[ex.env[n].id], CListV):
                    for x in ex.heap[ex.env[n].id].items:
                        self.freeze(x, ex)
            outs.append(("next", ex))
        else:
            c = self.truth(self.eval(s.test, ex, False), ex)
            nc = Not(c)
            if const_bool(nc) is not False:
                ex.pc.append(to_z3(nc))
                outs.append(("next", ex))
        self.run_ghost(sp.get("exit", []), ex, s)
        for o in outs:
            if o[0] == "next":
                o[1].env.pop("IT", None)
                if "IT" in st.env:
                    o[1].env["IT"] = st.env["IT"]
        return outs

    def _generalise(self, a, b):
        if a is None or b is None:
            return None
        if a == b:
            return a
        try:
            return join_t(a, b)
        except Unsupported:
            return None

    def spec_or_none(self, r, st):
        """An invariant that mentions names which do not exist here is dropped."""
        try:
            return self.P.eval_spec(self, r[0] if isinstance(r, tuple) else r, st)
        except (Unsupported, _Dead) as ex:
            self.notes.add("specification not applicable: %s (%s)" % (r, ex))
            return None

    def run_ghost(self, lines, st, node):
        before, kept = self.plain_sums, self.nd_escaped
        self.nd_escaped = False          # ghost lists hold no arrays
        for ln in lines:
            self.plain_sums = before
            try:
                self.P.exec_ghost(self, ln, st, node)
            except (Unsupported, _Dead) as ex:
                self.notes.add("ghost statement not applicable: %s (%s)" % (ln, ex))
        self.plain_sums, self.nd_escaped = before, kept

    def run_body(self, s, st, sq, it, length, discover=False):
        if sq is not None:
            st.pc.append(it < length)
            v = sq.get(it) if not getattr(sq, "stateful", False) else sq.get(it, st)
            # the getter may have recorded facts in the state it was made in
            self.assign_from(sq, s.target, it, st, s)
            sp, o = self.loop_spec(s)
            st.env["IT"] = it
            self.run_ghost([g for g in sp.get("begin", []) if not discover or g.startswith("g_")], st, s)
            outs = self.exec_block(s.body, st)
        else:
            c = self.truth(self.eval(s.test, st, False), st)
            cb = const_bool(c)
            if cb is False:
                return []
            st.pc.append(to_z3(c))
            sp, o = self.loop_spec(s)
            self.run_ghost([g for g in sp.get("begin", []) if not discover or g.startswith("g_")], st, s)
            outs = self.exec_block(s.body, st)
        return outs

    def assign_from(self, sq, target, k, st, node):
        v = sq.get_in(k, st) if hasattr(sq, "get_in") else self.get_in(sq, k, st)
        self.assign(target, v, st, node)

    def get_in(self, sq, k, st):
        return sq.get(k, st) if _accepts_state(sq.get) else sq.get(k)

    def havoc(self, st, modv, modc, s):
        hs = st.fork()
        it = fresh("it", z3.IntSort())
        hs.pc.append(it >= 0)
        for cid, t in modc.items():
            if cid not in hs.heap:
                continue
            old = hs.heap[cid]
            if t is None:
                raise Unsupported("list changes its shape in the loop at line %d" % s.lineno)
            if isinstance(old, DictV):
                items = dict(old.items)
                for kx, tx in t.items():
                    items[kx] = VPoison("dictionary entry changed in a loop") if tx is None else self.fresh_value(tx, hs, "d")
                hs.heap[cid] = DictV(items, old.cls)
                continue
            if isinstance(old, CListV) and t.kind == "L":
                for x in old.items:
                    self.freeze(x, hs)
            fv = self.fresh_value(t, hs, "h")
            c = hs.heap[fv.id]
            hs.heap[cid] = c
            if cid in self.nd:
                from . import builtins_ as B
                B.mark_nd(self, VRef(cid), hs)
        for n, t in modv.items():
            if n not in hs.env:
                continue
            if t is None:
                hs.env[n] = VPoison("changed in a loop in an untracked way")
                continue
            v = self.fresh_value(t, hs, n)
            if isinstance(v, VRef) and self.is_nd(st.env.get(n)):
                from . import builtins_ as B
                B.mark_nd(self, v, hs)
            if isinstance(v, VRef):
                # the variable may alias another list: only reads are allowed
                # unless it is freshly built in every iteration
                if not self.unique_ref(st, n):
                    c = hs.heap[v.id]
                    if isinstance(c, SListV):
                        hs.heap[v.id] = SListV(c.elem, c.length, c.arr, True)
                    elif isinstance(c, CListV):
                        hs.heap[v.id] = CListV(c.items, True)
            hs.env[n] = v
        return hs, it

    def unique_ref(self, st, name):
        v = st.env.get(name)
        if not isinstance(v, VRef):
            return True
        cnt = 0
        for n, w in st.env.items():
            cnt += _refs(w, v.id)
        for c in st.heap.values():
            if isinstance(c, CListV):
                cnt += sum(_refs(x, v.id) for x in c.items)
            elif isinstance(c, DictV):
                cnt += sum(_refs(x, v.id) for x in c.items.values())
        return cnt <= 1

    def defined_alone(self, e, n, t):
        """The variable holds a value of this type that nothing else refers to (its rows may be shared)."""
        v = e.env.get(n)
        if v is None or isinstance(v, VPoison):
            return False
        try:
            self.check_type(v, t, e, self.key, n)
        except (Unsupported, _Dead):
            return False
        return not self.is_nd(v) and self.unique_ref(e, n)

    def check_shapes(self, e, st, modv, modc, s):
        """Values at the end of the body must fit the shape assumed at its start."""
        for n, t in modv.items():
            v = e.env.get(n)
            if t is None or v is None or isinstance(v, VPoison):
                continue
            w = self.value_shape(v, e)
            if w is None:
                raise Unsupported("variable %s leaves its shape" % n)
            g = self._generalise(t, w)
            if g != t:
                raise Unsupported("variable %s leaves its shape (%s / %s)" % (n, t, w))
            if isinstance(v, VRef) and t.kind == "L" and isinstance(e.heap[v.id], CListV):
                self.generalise_cell(e, v.id, t)
        for cid, t in modc.items():
            if cid in e.heap and not isinstance(e.heap[cid], DictV):
                self.generalise_cell(e, cid, t)

    def generalise_cell(self, st, cid, t):
        c = st.heap.get(cid)
        if c is None or t is None or isinstance(t, dict):
            return
        if t.kind == "L" and isinstance(c, CListV):
            if not c.items:
                st.heap[cid] = SListV(t.args[0], z3.IntVal(0), z3.K(z3.IntSort(), default(t.args[0])), c.frozen)
            else:
                r = VRef(cid)
                sl = self.as_slist(r, st, t.args[0])
                for x in c.items:
                    self.freeze(x, st)
                st.heap[cid] = SListV(sl.elem, sl.length, sl.arr, c.frozen)

    def value_shape(self, v, st):
        try:
            if isinstance(v, VRef) and isinstance(st.heap[v.id], CListV):
                c = st.heap[v.id]
                return T("CLs", *[self.value_shape(x, st) or _fail("shape") for x in c.items])
            if isinstance(v, VNone):
                return T("none")
            return self.type_of(v, st)
        except Unsupported:
            return None

    def join_v(self, v, sv, w, sw):
        a, b = self.value_shape(v, sv), self.value_shape(w, sw)
        if a is None or b is None:
            return None
        return self._generalise(a, b)

    def join_cells(self, c, sc, d, sd):
        a = self.cell_shape(c, sc)
        b = self.cell_shape(d, sd)
        if a is None or b is None:
            return None
        return self._generalise(a, b)

    def cell_shape(self, c, st):
        if isinstance(c, SListV):
            return L(c.elem)
        if isinstance(c, CListV):
            try:
                return T("CLs", *[self.value_shape(x, st) or _fail("shape") for x in c.items])
            except Unsupported:
                return None
        return None

    def dict_shape(self, c, sc, d, sd):
        out = {}
        for k in set(c.items) | set(d.items):
            x, y = c.items.get(k), d.items.get(k)
            if x is None or y is None:
                raise Unsupported("dictionary gains keys in a loop")
            if _same(x, y):
                continue
            out[k] = self.join_v(x, sc, y, sd)
        return out


def _as_integer(v):
    """The integer term behind a real one that is known to be whole."""
    if isinstance(v, (float, Fraction)):
        return int(v) if v == int(v) else None
    if is_int(v):
        return v
    if is_expr(v):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0)
        if z3.is_rational_value(v) and v.denominator_as_long() == 1:
            return v.numerator_as_long()
    return None


_cat = z3.Function("str_cat", TM.Obj, TM.Obj, TM.Obj)


def str_of(eng, v, fs="", conv=""):
    """The text of a value under a format specification: a string or a term."""
    if isinstance(v, bool) or (is_expr(v) and v.sort().kind() == z3.Z3_BOOL_SORT):
        v = v if is_expr(v) else z3.BoolVal(v)
    if isinstance(v, str) and not conv:
        return format(v, fs)
    if isinstance(v, int) and not isinstance(v, bool) and not conv:
        return format(v, fs)
    if is_expr(v) or isinstance(v, float):
        t = to_z3(v)
        if not fs and not conv and t.sort() == TM.Obj:
            eng.trusted.add("an opaque value put into a text is a string")
            return t
        return z3.Function("str_of_%s_%s_%s" % (t.sort().name(), fs, conv), t.sort(), TM.Obj)(t)
    if eng.fresh_guard is not None:
        eng.fresh_guard[0] += 1
    eng.notes.add("the text of a list or object is left unspecified")
    return fresh("str", TM.Obj)


def str_join(eng, pieces):
    """Concatenation, kept left-nested with adjacent literals merged."""
    flat = []

    def add(x):
        if isinstance(x, str):
            if x and flat and isinstance(flat[-1], str):
                flat[-1] += x
            elif x:
                flat.append(x)
            return
        if not (is_expr(x) and x.sort() == TM.Obj):
            raise Unsupported("concatenation of a string and %r" % (x,))
        if z3.is_app(x) and x.decl().eq(_cat):
            add(x.arg(0))
            add(x.arg(1))
            return
        lit = eng.P.literal_of(x)
        if lit is not None:
            add(lit)
        else:
            flat.append(x)
    for p in pieces:
        add(p)
    if not flat:
        return ""
    if len(flat) == 1:
        return flat[0]
    terms = [eng.P.string_const(x) if isinstance(x, str) else x for x in flat]
    r = terms[0]
    for t in terms[1:]:
        r = _cat(r, t)
    return r


class _Dead(Exception):
    """The current path cannot continue (an index is provably out of range)."""


def _fail(msg):
    raise Unsupported(msg)


def _fold(v):
    return v


def _select(arr, i):
    i = to_z3(i)
    # read over write with syntactically equal or provably different literals
    a = arr
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        ci, cj = const_int(i), const_int(j)
        if ci is not None and cj is not None and ci != cj:
            a = a.arg(0)
            continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return z3.Select(a, i)


def _refs(v, cid):
    if isinstance(v, VRef):
        return 1 if v.id == cid else 0
    if isinstance(v, VTuple):
        return sum(_refs(x, cid) for x in v.items)
    return 0


def _same(a, b):
    if a is b:
        return True
    if is_expr(a) and is_expr(b):
        return a.eq(b)
    if isinstance(a, VRef) and isinstance(b, VRef):
        return a.id == b.id
    if isinstance(a, VTuple) and isinstance(b, VTuple):
        return len(a.items) == len(b.items) and all(_same(x, y) for x, y in zip(a.items, b.items))
    if type(a) is type(b) and isinstance(a, (int, float, str, bool)):
        return a == b
    if isinstance(a, VFunc) and isinstance(b, VFunc):
        return a.kind == b.kind and a.name == b.name
    if isinstance(a, VModule) and isinstance(b, VModule):
        return a.name == b.name
    return False


def _same_cell(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, CListV):
        return len(a.items) == len(b.items) and all(_same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, SListV):
        return a.length.eq(b.length) and a.arr.eq(b.arr)
    if isinstance(a, DictV):
        return a.items.keys() == b.items.keys() and all(_same(a.items[k], b.items[k]) for k in a.items)
    return False


def join_t(a, b):
    if a == b:
        return a
    num = {"bool": 0, "int": 1, "real": 2}
    if a.kind in num and b.kind in num:
        return (BOOL, INT, REAL)[max(num[a.kind], num[b.kind])]
    if a.kind == "any":
        return b
    if b.kind == "any":
        return a
    if {a.kind, b.kind} <= {"obj", "str"}:
        return OBJ
    lk = ("L", "CL", "CLs")
    if a.kind in lk and b.kind in lk:
        if a.kind == "CLs" and b.kind == "CLs" and len(a.args) == len(b.args):
            return T("CLs", *[join_t(x, y) for x, y in zip(a.args, b.args)])
        if a.kind == "CL" and b.kind == "CL" and a.args[0] == b.args[0]:
            return CL(a.args[0], join_t(a.args[1], b.args[1]))
        ea, eb = _elem(a), _elem(b)
        if ea is None:
            e = eb
        elif eb is None:
            e = ea
        else:
            e = join_t(ea, eb)
        if e is None:
            return T("CLs")
        return L(_norms(e))
    if a.kind == "Tup" and b.kind == "Tup" and len(a.args) == len(b.args):
        return Tup(*[join_t(x, y) for x, y in zip(a.args, b.args)])
    raise Unsupported("no common type of %s and %s" % (a, b))


def _elem(t):
    if t.kind == "L":
        return t.args[0]
    if t.kind == "CL":
        return t.args[1] if t.args[0] else None
    if not t.args:
        return None
    e = t.args[0]
    for x in t.args[1:]:
        e = join_t(e, x)
    return e


def _norms(t):
    if t.kind in ("CLs", "CL", "L"):
        e = _elem(t)
        if e is None or e.kind == "any":
            raise Unsupported("element type of an empty list is unknown")
        return L(_norms(e))
    if t.kind == "Tup":
        return Tup(*[_norms(x) for x in t.args])
    return t


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for x in t.elts for n in target_names(x)]
    return []


def _load(t):
    return ast.parse(ast.unparse(t), mode="eval").body


def _pure_test(t):
    return isinstance(t, (ast.Constant, ast.Name))


def _has_quant(e):
    c = _qcache.get(e.get_id())       # the cache keeps e alive, so its id stays its own
    if c is not None:
        return c[0]
    seen = set()
    stack = [e]
    r = False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    _qcache[e.get_id()] = (r, e)
    return r


_qcache = {}
_ncache = {}


def _nonlinear(e):
    c = _ncache.get(e.get_id())
    if c is not None:
        return c[0]
    r = False
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_MUL and sum(1 for x in e.children() if not z3.is_rational_value(x) and not z3.is_int_value(x)) > 1:
            r = True
        elif e.decl().name() in ("fdiv", "fmod"):
            r = True
        elif e.decl().name() == "s_root":
            r = False
        else:
            r = any(_nonlinear(x) for x in e.children())
    _ncache[e.get_id()] = (r, e)
    return r


def _occurs(t, k):
    terms, qs = subterms([t])
    if any(x.eq(k) for x in terms):
        return True
    return bool(qs)


def _accepts_state(f):
    return f.__code__.co_argcount >= 2
