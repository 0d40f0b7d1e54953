"""Types, sorts and term utilities of the verifier.

Python integers are SMT Int (mathematical, as Python's are), floats are
idealised as SMT Real, lists are (length, array) pairs, tuples are records.
"""
import z3
from fractions import Fraction


class Unsupported(Exception):
    """The construct is outside the verified subset: the obligation is not proved."""


class T:
    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __repr__(self):
        if not self.args:
            return self.kind
        return "%s(%s)" % (self.kind, ",".join(map(str, self.args)))

    def __eq__(self, o):
        return isinstance(o, T) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


INT, BOOL, REAL, OBJ, STR = T("int"), T("bool"), T("real"), T("obj"), T("str")


def L(t):
    return T("L", t)


def Tup(*ts):
    return T("Tup", *ts)


def CL(n, t):
    return T("CL", n, t)


class D(T):
    """Dictionary (or object) with known string keys."""

    def __init__(self, **kw):
        T.__init__(self, "D", *sorted(kw.items()))
        self.fields = kw


def parse_type(s):
    if isinstance(s, T):
        return s
    env = dict(int=INT, bool=BOOL, real=REAL, float=REAL, obj=OBJ, str=STR, L=L, Tup=Tup, CL=CL, D=D, none=T("none"), const=lambda v: T("const", v))
    return eval(s, {"__builtins__": {}}, env)


Obj = z3.DeclareSort("Obj")
_list_sorts = {}
_tup_sorts = {}


def sort_of(t):
    k = t.kind
    if k == "int":
        return z3.IntSort()
    if k == "bool":
        return z3.BoolSort()
    if k == "real":
        return z3.RealSort()
    if k in ("obj", "str"):
        return Obj
    if k == "L":
        return list_sort(t.args[0])
    if k == "CL":
        return list_sort(t.args[1])
    if k == "Tup":
        return tup_sort(t.args)
    raise Unsupported("no sort for type %s" % t)


def norm(t):
    """Concrete-length lists are ordinary lists once stored in a term."""
    if t.kind == "CL":
        return L(norm(t.args[1]))
    if t.kind == "L":
        if getattr(t, "own", False):
            return own(L(norm(t.args[0])))
        return L(norm(t.args[0]))
    if t.kind == "Tup":
        return Tup(*[norm(a) for a in t.args])
    return t


def own(t):
    """Marks the row type of an array whose rows belong to it alone."""
    t = T(t.kind, *t.args)
    t.own = True
    return t


def _mangle(t):
    return repr(norm(t)).replace("(", "_").replace(")", "_").replace(",", "_")


def list_sort(elem):
    key = _mangle(elem)
    if key not in _list_sorts:
        dt = z3.Datatype("List_" + key)
        dt.declare("mk_" + key, ("len_" + key, z3.IntSort()), ("arr_" + key, z3.ArraySort(z3.IntSort(), sort_of(elem))))
        _list_sorts[key] = dt.create()
    return _list_sorts[key]


def tup_sort(ts):
    key = "_".join(_mangle(t) for t in ts)
    if key not in _tup_sorts:
        dt = z3.Datatype("Tup_" + key)
        dt.declare("tup_" + key, *[("f%d_%s" % (i, key), sort_of(t)) for i, t in enumerate(ts)])
        _tup_sorts[key] = dt.create()
    return _tup_sorts[key]


def default(t):
    k = t.kind
    if k == "int":
        return z3.IntVal(0)
    if k == "bool":
        return z3.BoolVal(False)
    if k == "real":
        return z3.RealVal(0)
    if k in ("obj", "str"):
        return z3.Const("obj_default", Obj)
    if k in ("L", "CL"):
        e = t.args[-1]
        return list_sort(e).constructor(0)(z3.IntVal(0), z3.K(z3.IntSort(), default(e)))
    if k == "Tup":
        return tup_sort(t.args).constructor(0)(*[default(x) for x in t.args])
    raise Unsupported("no default for %s" % t)


_counter = [0]


def fresh_name(base):
    _counter[0] += 1
    return "%s!%d" % (base, _counter[0])


def fresh(base, sort):
    return z3.Const(fresh_name(base), sort)


def is_expr(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_expr(v) and v.sort().kind() == z3.Z3_INT_SORT)


def is_real(v):
    return isinstance(v, (float, Fraction)) or (is_expr(v) and v.sort().kind() == z3.Z3_REAL_SORT)


def is_bool(v):
    return isinstance(v, bool) or (is_expr(v) and v.sort().kind() == z3.Z3_BOOL_SORT)


def to_z3(v):
    if is_expr(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float literal")
        f = Fraction(repr(v)) if "e" in repr(v) or "." in repr(v) else Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    if isinstance(v, Fraction):
        return z3.Q(v.numerator, v.denominator)
    raise Unsupported("no term for %r" % (v,))


def as_int(v):
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, int):
        return v
    if is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def const_int(v):
    """The Python int of a literal term, or None."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if is_expr(v):
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def const_bool(v):
    if isinstance(v, bool):
        return v
    if is_expr(v):
        s = z3.simplify(v)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return None


fdiv = z3.Function("fdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
fmod = z3.Function("fmod", z3.IntSort(), z3.IntSort(), z3.IntSort())


def mk_div(a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None and cb != 0:
        return ca // cb
    if cb is not None and cb > 0:
        return to_z3(a) / z3.IntVal(cb)
    return fdiv(to_z3(a), to_z3(b))


def mk_mod(a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None and cb != 0:
        return ca % cb
    if cb is not None and cb > 0:
        return to_z3(a) % z3.IntVal(cb)
    return fmod(to_z3(a), to_z3(b))


def subterms(roots):
    """All subterms without entering quantifier bodies: (ground terms, [quantifiers])."""
    seen, out, quants = set(), [], []
    stack = list(roots)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            quants.append(t)
            continue
        out.append(t)
        if t.num_args():
            stack.extend(t.children())
    return out, quants


_decl_cache = {}


def all_decls(roots):
    """Names of all uninterpreted functions occurring anywhere (also under quantifiers)."""
    names = set()
    for r in roots:
        c = _decl_cache.get(r.get_id())
        if c is None:
            c = (_decls1(r), r)
            _decl_cache[r.get_id()] = c
        names |= c[0]
    return names


def _decls1(root):
    seen, names = set(), set()
    stack = [root]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            for k in range(t.num_patterns()):
                stack.append(t.pattern(k))
            continue
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(d.name())
            if t.num_args():
                stack.extend(t.children())
    return names
