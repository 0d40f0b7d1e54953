"""Semantics of the Python builtins and of the few external functions used.

Everything here is part of the trusted base: it states what the interpreter
and numpy do.  Functions that are not listed are external and opaque: their
result is unconstrained and they are reported as trusted not to change their
arguments.
"""
import ast
import z3
from .terms import *
from . import terms as TM
from . import symex as S
from .symex import (VTuple, VRef, VNone, NONE, VPoison, VFunc, VModule, VSeq, CListV, SListV, DictV, And, Or, Not)


def _none(v):
    return isinstance(v, VNone)


def b_range(eng, args, kw, st, node, spec):
    a = [as_int(x) for x in args]
    for x in a:
        if not is_int(x):
            raise Unsupported("range of %r" % (x,))
    lo, hi, step = 0, None, 1
    if len(a) == 1:
        hi = a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        lo, hi, step = a
    cs = const_int(step)
    if cs is None or cs == 0:
        raise Unsupported("range with a symbolic step")
    cl, ch = const_int(lo), const_int(hi)
    if cl is not None and ch is not None:
        n = len(range(cl, ch, cs))
    else:
        if cs == 1:
            d = z3.simplify(to_z3(hi) - to_z3(lo))
        elif cs == -1:
            d = z3.simplify(to_z3(lo) - to_z3(hi))
        else:
            d = (to_z3(hi) - to_z3(lo) + (cs - 1 if cs > 0 else cs + 1)) / cs if cs > 0 else (to_z3(lo) - to_z3(hi) - cs - 1) / (-cs)
        n = d if (not spec and eng.entails(st, d >= 0)) else z3.If(d < 0, z3.IntVal(0), d)
    if cl == 0 and cs == 1:
        get = lambda k: k
    else:
        get = lambda k: (lo + cs * k) if not is_expr(lo) and not is_expr(k) else to_z3(lo) + (to_z3(k) if cs == 1 else cs * to_z3(k))
    v = VSeq(n, get)
    v.rng = (to_z3(lo), to_z3(hi), cs)
    return v


def length(eng, v, st):
    if isinstance(v, VTuple):
        return len(v.items)
    if isinstance(v, VSeq):
        return v.length
    if isinstance(v, str):
        return len(v)
    if isinstance(v, VRef):
        c = st.heap[v.id]
        if isinstance(c, (CListV, DictV)):
            return len(c.items)
        return c.length
    raise Unsupported("len of %r" % (v,))


def b_len(eng, args, kw, st, node, spec):
    return length(eng, args[0], st)


def b_list(eng, args, kw, st, node, spec):
    if not args:
        return eng.alloc(st, CListV([]))
    v = args[0]
    if isinstance(v, VRef) and isinstance(st.heap[v.id], SListV):
        c = st.heap[v.id]
        return eng.alloc(st, SListV(c.elem, c.length, c.arr))
    if isinstance(v, VRef) and isinstance(st.heap[v.id], CListV):
        return eng.alloc(st, CListV(st.heap[v.id].items))
    if isinstance(v, VTuple):
        return eng.alloc(st, CListV(v.items))
    s = eng.seq(v, st)
    n = const_int(s.length)
    if n is not None and n <= 256:
        return eng.alloc(st, CListV([eng.get_in(s, k, st) for k in range(n)]))
    rg = getattr(s, "rng", None)
    if rg is not None:
        k = z3.Int("rk")
        lo, hi, step = rg
        arr = z3.Lambda([k], lo + step * k)
        if eng.fresh_guard is not None:
            eng.fresh_guard[0] += 1
        a = fresh("rng", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        st.pc.append(z3.ForAll([k], z3.Select(a, k) == lo + step * k, patterns=[z3.Select(a, k)]))
        return eng.alloc(st, SListV(INT, to_z3(s.length), a))
    # element-wise copy
    k = z3.Int(fresh_name("k"))
    n0 = len(st.pc)
    x = eng.get_in(s, k, st)
    t = norm(eng.type_of(x, st))
    term = eng.to_smt(x, t, st)
    del st.pc[n0:]
    a = fresh("seq", z3.ArraySort(z3.IntSort(), sort_of(t)))
    if eng.fresh_guard is not None:
        eng.fresh_guard[0] += 1
    ln = to_z3(s.length)
    st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ln), z3.Select(a, k) == term), patterns=[z3.Select(a, k)]))
    return eng.alloc(st, SListV(t, ln, a))


def b_tuple(eng, args, kw, st, node, spec):
    return VTuple(eng.items_of(args[0], st)) if args else VTuple([])


def b_enumerate(eng, args, kw, st, node, spec):
    s = eng.seq(args[0], st)
    off = args[1] if len(args) > 1 else kw.get("start", 0)

    def get(k, st2=None):
        return VTuple([k if const_int(off) == 0 else eng.binop(ast.Add(), k, off, st, node, True), s_get(eng, s, k, st2 or st)])
    return VSeq(s.length, get, src=s.src)


def s_get(eng, s, k, st):
    return eng.get_in(s, k, st)


def b_zip(eng, args, kw, st, node, spec):
    ss = [eng.seq(a, st) for a in args]
    n = ss[0].length
    for x in ss[1:]:
        m = x.length
        cn, cm = const_int(n), const_int(m)
        if cn is not None and cm is not None:
            n = min(cn, cm)
        elif eng.entails(st, to_z3(n) <= to_z3(m)):
            pass
        elif eng.entails(st, to_z3(m) <= to_z3(n)):
            n = m
        else:
            n = z3.If(to_z3(n) <= to_z3(m), to_z3(n), to_z3(m))
    src = set()
    for x in ss:
        src |= (x.src or set())
    return VSeq(n, lambda k, st2=None: VTuple([s_get(eng, x, k, st2 or st) for x in ss]), src=src)


def b_reversed(eng, args, kw, st, node, spec):
    s = eng.seq(args[0], st)
    n = s.length
    return VSeq(n, lambda k, st2=None: s_get(eng, s, eng.binop(ast.Sub(), eng.binop(ast.Sub(), n, 1, st, node, True), k, st, node, True), st2 or st), src=s.src)


def b_sum(eng, args, kw, st, node, spec):
    v = args[0]
    start = args[1] if len(args) > 1 else 0
    if isinstance(v, (VTuple,)) or (isinstance(v, VRef) and isinstance(st.heap[v.id], CListV)):
        acc = start
        for x in eng.items_of(v, st):
            acc = eng.binop(ast.Add(), acc, x, st, node, spec)
        return acc
    s = eng.seq(v, st)
    if isinstance(v, VSeq):
        v = b_list(eng, [v], {}, st, node, spec)
    c = st.heap[v.id]
    if isinstance(c, CListV):
        return b_sum(eng, [v], {}, st, node, spec)
    name = {"int": "suml", "real": "rsuml"}.get(c.elem.kind)
    if name is None or name not in eng.P.specfns:
        raise Unsupported("sum of a list of %s" % c.elem)
    r = eng.P.specfns[name].decl(c.arr, c.length)
    return r if const_int(start) == 0 else eng.binop(ast.Add(), start, r, st, node, spec)


def _minmax(which):
    def f(eng, args, kw, st, node, spec):
        if "key" in kw:
            raise Unsupported("min/max with a key")
        if len(args) == 1:
            v = args[0]
            if isinstance(v, VRef) and isinstance(st.heap[v.id], SListV) and const_int(st.heap[v.id].length) is None:
                c = st.heap[v.id]
                if c.elem.kind not in ("int", "real"):
                    raise Unsupported("min/max of a list of %s" % c.elem)
                if not spec:
                    eng.oblige(st, c.length > 0, "%s of a non-empty list" % which, node)
                if eng.fresh_guard is not None:
                    eng.fresh_guard[0] += 1
                m = fresh(which, sort_of(c.elem))
                k = z3.Int(fresh_name("k"))
                w = z3.Int(fresh_name("w"))
                el = z3.Select(c.arr, k)
                st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.length), (m <= el) if which == "min" else (m >= el)), patterns=[el]))
                w = fresh("arg" + which, z3.IntSort())
                st.pc.append(z3.And(w >= 0, w < c.length, z3.Select(c.arr, w) == m))
                return m
            items = eng.items_of(v, st) if not isinstance(v, VSeq) else [v.get(k) for k in range(const_int(v.length))]
        else:
            items = list(args)
        if not items:
            eng.oblige(st, False, "%s of a non-empty list" % which, node)
            raise S._Dead()
        r = items[0]
        for x in items[1:]:
            c = eng.compare(ast.Lt() if which == "min" else ast.Gt(), x, r, st, node)
            cb = const_bool(c)
            if cb is not None:
                r = x if cb else r
            else:
                r = eng.ite(c, x, r, st)
        return r
    return f


def b_abs(eng, args, kw, st, node, spec):
    v = args[0]
    if not is_expr(v):
        if isinstance(v, (int, float)):
            return abs(v)
        if isinstance(v, VRef):
            raise Unsupported("abs of an array")
        raise Unsupported("abs")
    v = as_int(v)
    return z3.If(v < 0, -v, v)


def b_int(eng, args, kw, st, node, spec):
    v = args[0] if args else 0
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, float):
        return int(v)
    if is_bool(v):
        return as_int(v)
    if is_int(v):
        return v
    if is_real(v) and S._as_integer(v) is not None:
        return S._as_integer(v)
    if is_real(v):
        # truncation towards zero of the idealised real
        f = z3.ToInt(v)
        return z3.If(v >= 0, f, -z3.ToInt(-v))
    if is_expr(v) and v.sort() == TM.Obj:
        eng.notes.add("int() of an opaque value is an uninterpreted integer")
        return z3.Function("int_of_obj", TM.Obj, z3.IntSort())(v)
    raise Unsupported("int of %r" % (v,))


def b_float(eng, args, kw, st, node, spec):
    v = args[0]
    if isinstance(v, (bool, int)):
        from fractions import Fraction
        return Fraction(int(v))
    if isinstance(v, float):
        return v
    if is_int(v) or is_bool(v):
        return z3.ToReal(to_z3(as_int(v)))
    if is_real(v):
        return v
    if is_expr(v) and v.sort() == TM.Obj:
        return z3.Function("real_of_obj", TM.Obj, z3.RealSort())(v)
    raise Unsupported("float of %r" % (v,))


def b_bool(eng, args, kw, st, node, spec):
    return eng.truth(args[0], st)


def b_str(eng, args, kw, st, node, spec):
    v = args[0] if args else ""
    if isinstance(v, str):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return str(v)
    return S.str_of(eng, v)


def b_round(eng, args, kw, st, node, spec):
    v = args[0]
    if is_int(v):
        return v
    if len(args) == 1 and is_real(v):
        # round half to even of the idealised real: only |r - v| <= 1/2 is used
        if eng.fresh_guard is not None:
            eng.fresh_guard[0] += 1
        v = to_z3(v)
        r = z3.Function("py_round", z3.RealSort(), z3.IntSort())(v)
        st.pc.append(z3.And(z3.ToReal(r) - v <= z3.Q(1, 2), v - z3.ToReal(r) <= z3.Q(1, 2)))
        return r
    raise Unsupported("round")


def b_isinstance(eng, args, kw, st, node, spec):
    v, t = args
    names = [t.name] if isinstance(t, VFunc) else [x.name for x in t.items] if isinstance(t, VTuple) else []
    if isinstance(v, bool) or (is_expr(v) and v.sort().kind() == z3.Z3_BOOL_SORT):
        k = {"bool", "int"}
    elif is_int(v):
        k = {"int"}
    elif is_real(v):
        k = {"float"}
    elif isinstance(v, VTuple):
        k = {"tuple"}
    elif isinstance(v, str):
        k = {"str"}
    elif isinstance(v, VRef) and isinstance(st.heap[v.id], (CListV, SListV)):
        k = {"list"}
    elif isinstance(v, VNone):
        k = set()
    else:
        raise Unsupported("isinstance")
    if not names:
        raise Unsupported("isinstance")
    return bool(k & set(names))


def b_print(eng, args, kw, st, node, spec):
    return NONE


def b_anyall(which):
    def f(eng, args, kw, st, node, spec):
        v = args[0]
        items = None
        if isinstance(v, VTuple) or (isinstance(v, VRef) and isinstance(st.heap[v.id], CListV)):
            items = [eng.truth(x, st) for x in eng.items_of(v, st)]
            return And(*items) if which == "all" else Or(*items)
        s = eng.seq(v, st)
        k = z3.Int(fresh_name("q"))
        rng = z3.And(k >= 0, k < to_z3(s.length))
        n0 = len(st.pc)
        body = to_z3(eng.truth(s_get(eng, s, k, st), st))
        del st.pc[n0:]
        return z3.ForAll([k], z3.Implies(rng, body)) if which == "all" else z3.Exists([k], z3.And(rng, body))
    return f


def b_sorted(eng, args, kw, st, node, spec):
    v = args[0]
    items = None
    counters = (eng.contract or {}).get("counters")
    if counters and isinstance(v, VRef) and isinstance(st.heap[v.id], SListV) and set(kw) <= {"key", "reverse"}:
        return permuted(eng, v, counters, st)
    if isinstance(v, VTuple) or (isinstance(v, VRef) and isinstance(st.heap[v.id], CListV)):
        items = eng.items_of(v, st)
    if items is None or kw or len(items) > 4 or not all(is_int(x) or is_real(x) for x in items):
        raise Unsupported("sorted")
    # a small sorting network
    xs = list(items)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            c = eng.compare(ast.LtE(), a, b, st, node)
            cb = const_bool(c)
            if cb is None:
                xs[j], xs[j + 1] = eng.ite(c, a, b, st), eng.ite(c, b, a, st)
            elif not cb:
                xs[j], xs[j + 1] = b, a
    return eng.alloc(st, CListV(xs))


def permuted(eng, v, counters, st):
    """sorted(v, key=...) where the order does not matter: a list with the same members the same number of times.
    The counting functions named in the contract give the same numbers on it."""
    if eng.fresh_guard is not None:
        eng.fresh_guard[0] += 1
    c = st.heap[v.id]
    eng.trusted.add("sorted() returns a permutation of its argument")
    arr = fresh("sorted", c.arr.sort())
    r = SListV(c.elem, c.length, arr)
    pi = z3.Function(TM.fresh_name("place"), z3.IntSort(), z3.IntSort())
    k = z3.Int(fresh_name("k"))
    st.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c.length), z3.And(0 <= pi(k), pi(k) < c.length, z3.Select(arr, k) == z3.Select(c.arr, pi(k)))), patterns=[z3.Select(arr, k)]))
    for n in counters:
        f = eng.P.specfns[n]
        xs = [z3.Const(fresh_name("x"), so.sort()) for so in f.xs[1:-1]]
        if f.xs[0].sort() == c.arr.sort() and f.xs[-1].sort() == z3.IntSort():
            a, b = f.decl(arr, *xs, c.length), f.decl(c.arr, *xs, c.length)
            st.pc.append(z3.ForAll(xs, a == b, patterns=[a, b]) if xs else a == b)
    return eng.alloc(st, r)


def b_map(eng, args, kw, st, node, spec):
    f = args[0]
    if len(args) > 2:
        z = b_zip(eng, args[1:], {}, st, node, spec)
        n = const_int(z.length)
        if n is None or n > 64:
            raise Unsupported("map over several lists of unknown length")
        return eng.alloc(st, CListV([eng.call(f, list(s_get(eng, z, k, st).items), {}, st, node, spec) for k in range(n)]))
    s = eng.seq(args[1], st)
    n = const_int(s.length)
    if n is not None and n <= 64 and len(args) == 2:
        return eng.alloc(st, CListV([eng.call(f, [s_get(eng, s, k, st)], {}, st, node, spec) for k in range(n)]))
    return VSeq(s.length, lambda k, st2=None: eng.call(f, [s_get(eng, s, k, st2 or st)], {}, st2 or st, node, spec), src=s.src)


def b_divmod(eng, args, kw, st, node, spec):
    a, b = args
    return VTuple([eng.binop(ast.FloorDiv(), a, b, st, node, spec), eng.binop(ast.Mod(), a, b, st, node, spec)])


def b_pow(eng, args, kw, st, node, spec):
    return eng.power(args[0], args[1], st, node, spec)


def b_type(eng, args, kw, st, node, spec):
    # arrays and lists are both read as lists
    eng.trusted.add("numpy arrays are read as lists")
    return VFunc("type", "type")


BUILTINS = {
    "type": b_type,
    "range": b_range, "len": b_len, "list": b_list, "tuple": b_tuple, "enumerate": b_enumerate, "zip": b_zip,
    "reversed": b_reversed, "sum": b_sum, "min": _minmax("min"), "max": _minmax("max"), "abs": b_abs, "int": b_int,
    "float": b_float, "bool": b_bool, "str": b_str, "round": b_round, "isinstance": b_isinstance, "print": b_print,
    "any": b_anyall("any"), "all": b_anyall("all"), "sorted": b_sorted, "map": b_map, "divmod": b_divmod, "pow": b_pow,
}


# ------------------------------------------------------------------ methods
def _writable(eng, ref, st):
    c = st.heap[ref.id]
    if getattr(c, "frozen", False):
        raise Unsupported("modification of a list that is shared")
    return c


def str_format(eng, template, args):
    import string
    pieces, auto = [], 0
    try:
        parts = list(string.Formatter().parse(template))
    except ValueError:
        return None
    for lit, field, fs, conv in parts:
        pieces.append(lit)
        if field is None:
            continue
        if field == "":
            field, auto = str(auto), auto + 1
        if not field.isdigit() or int(field) >= len(args) or "{" in (fs or ""):
            return None
        pieces.append(S.str_of(eng, args[int(field)], fs or "", conv or ""))
    return S.str_join(eng, pieces)


def method(eng, obj, name, args, kw, st, node, spec):
    if isinstance(obj, str) or (is_expr(obj) and obj.sort() == TM.Obj):
        if name in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "add"):
            raise Unsupported("modification of an opaque value")
        if isinstance(obj, str) and all(isinstance(a, str) for a in args) and name in ("lower", "upper", "strip") and not kw:
            return getattr(obj, name)(*args)
        if name == "format" and isinstance(obj, str) and not kw:
            r = str_format(eng, obj, args)
            if r is not None:
                return r
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize") and not args and not kw:
            return z3.Function("str_" + name, TM.Obj, TM.Obj)(obj if is_expr(obj) else eng.P.string_const(obj))
        if eng.fresh_guard is not None:
            eng.fresh_guard[0] += 1
        eng.notes.add("result of the string/opaque method %s is unspecified" % name)
        return fresh("opaque_" + name, TM.Obj)
    if isinstance(obj, VSeq):
        raise Unsupported("method %s of an iterator" % name)
    if isinstance(obj, VTuple):
        if name == "index":
            return index_of(eng, list(obj.items), args[0], st, node)
        if name == "count":
            return count_of(eng, list(obj.items), args[0], st)
        raise Unsupported("tuple method %s" % name)
    c = st.heap[obj.id]
    if isinstance(c, DictV):
        if name == "keys":
            return eng.alloc(st, CListV(list(c.items)))
        if name == "get" and isinstance(args[0], str):
            if args[0] in c.items:
                return c.items[args[0]]
            return args[1] if len(args) > 1 else NONE
        raise Unsupported("dictionary method %s" % name)
    if name == "append":
        c = _writable(eng, obj, st)
        v = args[0]
        if isinstance(c, CListV):
            st.heap[obj.id] = CListV(c.items + (v,))
            return NONE
        if eng.is_nd(v):
            eng.array_kept()
        if isinstance(v, VRef) and isinstance(st.heap[v.id], CListV) and not st.heap[v.id].items and c.elem.kind == "L":
            t = norm(c.elem)
        else:
            t = norm(S._norms(eng.type_of(v, st)))
        if t != norm(c.elem):
            if not (c.elem.kind == "real" and t.kind == "int"):
                raise Unsupported("list of %s gets a %s" % (c.elem, t))
        term = eng.to_smt(v, c.elem, st)
        if c.elem.kind != "obj":
            eng.freeze(v, st)
        st.heap[obj.id] = SListV(c.elem, z3.simplify(c.length + 1), z3.Store(c.arr, c.length, term))
        return NONE
    if name == "extend":
        c = _writable(eng, obj, st)
        o = args[0]
        if isinstance(o, VTuple):
            o = eng.alloc(st, CListV(o.items))
        if isinstance(o, VSeq):
            o = b_list(eng, [o], {}, st, node, spec)
        oc = st.heap[o.id]
        if isinstance(c, CListV) and isinstance(oc, CListV):
            st.heap[obj.id] = CListV(c.items + oc.items)
            return NONE
        r = eng.concat(obj, o, st)
        st.heap[obj.id] = st.heap[r.id]
        return NONE
    if name == "copy":
        r = b_list(eng, [obj], {}, st, node, spec)
        if obj.id in eng.nd:
            mark_nd(eng, r, st)
        return r
    if name == "tolist":
        return deep(eng, obj, st, True)
    if name in ("any", "all") and isinstance(c, CListV) and not args and not kw:
        ts = [eng.truth(x, st) for x in scalars(eng, obj, st)]
        return Or(*ts) if name == "any" else And(*ts)
    if name == "reverse":
        c = _writable(eng, obj, st)
        if isinstance(c, CListV):
            st.heap[obj.id] = CListV(tuple(reversed(c.items)))
        else:
            r = eng.reverse_copy(c, st)
            st.heap[obj.id] = st.heap[r.id]
        return NONE
    if name == "index":
        if isinstance(c, CListV):
            return index_of(eng, list(c.items), args[0], st, node)
        x = args[0]
        if not spec:
            eng.oblige(st, eng.contains(x, obj, st), "index of an element that occurs", node)
        if eng.fresh_guard is not None:
            eng.fresh_guard[0] += 1
        i = fresh("index", z3.IntSort())
        k = z3.Int(fresh_name("k"))
        st.pc.append(z3.And(i >= 0, i < c.length))
        st.pc.append(to_z3(eng.eq(eng.from_smt(z3.Select(c.arr, i), c.elem, st, True), x, st)))
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i),
                     z3.Not(to_z3(eng.eq(eng.from_smt(z3.Select(c.arr, k), c.elem, st, True), x, st))))))
        return i
    if name == "count":
        if isinstance(c, CListV):
            return count_of(eng, list(c.items), args[0], st)
        if c.elem.kind == "int" and "cntr" in eng.P.specfns and is_int(args[0]):
            o = getattr(c, "origin", None)
            if o is not None:
                return eng.P.specfns["cntr"].decl(o[0], to_z3(args[0]), o[1], z3.simplify(o[1] + c.length))
            return eng.P.specfns["cntr"].decl(c.arr, to_z3(args[0]), z3.IntVal(0), c.length)
        raise Unsupported("count")
    if name == "insert":
        c = _writable(eng, obj, st)
        i = const_int(args[0])
        if isinstance(c, CListV) and i is not None:
            items = list(c.items)
            items.insert(i, args[1])
            st.heap[obj.id] = CListV(items)
            return NONE
        if i == 0 and isinstance(c, SListV):
            one = eng.alloc(st, CListV([args[1]]))
            r = eng.concat(one, obj, st)
            st.heap[obj.id] = st.heap[r.id]
            return NONE
        raise Unsupported("insert")
    if name == "pop":
        c = _writable(eng, obj, st)
        i = const_int(args[0]) if args else -1
        if isinstance(c, CListV) and i is not None:
            items = list(c.items)
            if not (-len(items) <= i < len(items)):
                eng.oblige(st, False, "pop from a list that is long enough", node)
                raise S._Dead()
            x = items.pop(i)
            st.heap[obj.id] = CListV(items)
            return x
        if isinstance(c, SListV) and i == -1:
            eng.oblige(st, c.length > 0, "pop from a non-empty list", node)
            st.heap[obj.id] = SListV(c.elem, c.length - 1, c.arr)
            return eng.from_smt(S._select(c.arr, c.length - 1), c.elem, st)
        raise Unsupported("pop")
    raise Unsupported("list method %s" % name)


def length_is_pos(eng, v, st):
    n = const_int(length(eng, v, st))
    return n is None or n > 0


def index_of(eng, items, x, st, node):
    conds = [eng.eq(y, x, st) for y in items]
    if all(const_bool(c) is not None for c in conds):
        for i, c in enumerate(conds):
            if const_bool(c):
                return i
    eng.oblige(st, Or(*conds), "index of an element that occurs", node)
    r = to_z3(len(items) - 1) if items else 0
    for i in range(len(items) - 2, -1, -1):
        r = z3.If(to_z3(conds[i]), z3.IntVal(i), r)
    return r


def count_of(eng, items, x, st):
    r = 0
    for y in items:
        c = eng.eq(y, x, st)
        r = eng.binop(ast.Add(), r, as_int(c), st, None, True)
    return r


# ----------------------------------------------------------------- externals
def e_deepcopy(eng, args, kw, st, node, spec):
    return deep(eng, args[0], st)


def deep(eng, v, st, lists=False):
    """Deep copy; with lists set, arrays become lists."""
    if isinstance(v, VTuple):
        return VTuple([deep(eng, x, st, lists) for x in v.items])
    if isinstance(v, VRef):
        c = st.heap[v.id]
        r = v
        if isinstance(c, CListV):
            r = eng.alloc(st, CListV([deep(eng, x, st, lists) for x in c.items]))
        if isinstance(c, SListV):
            r = eng.alloc(st, SListV(c.elem, c.length, c.arr))
        if isinstance(c, DictV):
            r = eng.alloc(st, DictV({k: deep(eng, x, st, lists) for k, x in c.items.items()}, c.cls))
        if v.id in eng.nd and not lists and r is not v:
            eng.nd.add(r.id)
        return r
    return v


def mark_nd(eng, v, st):
    """The value is a numpy array: arithmetic and comparisons work element by element."""
    if isinstance(v, VRef):
        eng.nd.add(v.id)
        c = st.heap[v.id]
        if isinstance(c, CListV):
            for x in c.items:
                mark_nd(eng, x, st)
    return v


def elementwise(eng, f, a, b, st):
    """Array operation on operands of the same fixed shape or a number."""
    def items(v):
        if isinstance(v, VTuple):
            return list(v.items)
        if isinstance(v, VRef):
            c = st.heap[v.id]
            if isinstance(c, SListV) and const_int(c.length) is None and c.elem.kind in ("int", "real"):
                return three(eng, c, st)
            return eng.items_of(v, st)
        return None
    x, y = items(a), items(b)
    if x is None and y is None:
        return f(a, b)
    n = len(x if x is not None else y)
    x = x if x is not None else [a] * n
    y = y if y is not None else [b] * n
    if len(x) != len(y):
        raise Unsupported("arithmetic on arrays of different sizes")
    return mark_nd(eng, eng.alloc(st, CListV([elementwise(eng, f, p, q, st) for p, q in zip(x, y)])), st)


def three(eng, c, st):
    """Vectors of unknown length handed to numpy must have three entries."""
    eng.oblige(st, c.length == 3, "vector of three numbers")
    return [z3.Select(c.arr, i) for i in range(3)]


def mat(eng, v, st):
    """Matrix or vector with a fixed shape as nested Python lists."""
    c = st.heap[v.id] if isinstance(v, VRef) else None
    if isinstance(c, SListV) and const_int(c.length) is None and c.elem.kind in ("int", "real"):
        return three(eng, c, st), False
    if isinstance(c, SListV) and const_int(c.length) is None and c.elem.kind == "L" and c.elem.args[0].kind in ("int", "real"):
        eng.oblige(st, c.length == 3, "matrix of three rows")
        return [three(eng, st.heap[eng.from_smt(z3.Select(c.arr, i), c.elem, st).id], st) for i in range(3)], True
    items = eng.items_of(v, st)
    if items and isinstance(items[0], (VRef, VTuple)):
        return [eng.items_of(x, st) for x in items], True
    return items, False


def to_val(eng, rows, st):
    if rows and isinstance(rows[0], list):
        return mark_nd(eng, eng.alloc(st, CListV([eng.alloc(st, CListV(r)) for r in rows])), st)
    return mark_nd(eng, eng.alloc(st, CListV(rows)), st)


def _dot(eng, x, y, st, node):
    acc = None
    for a, b in zip(x, y):
        p = eng.binop(ast.Mult(), a, b, st, node, True)
        acc = p if acc is None else eng.binop(ast.Add(), acc, p, st, node, True)
    return 0 if acc is None else acc


def e_matmul(eng, args, kw, st, node, spec):
    a, ma = mat(eng, args[0], st)
    b, mb = mat(eng, args[1], st)
    if ma and mb:
        if any(len(r) != len(b) for r in a):
            raise Unsupported("matrix shapes")
        cols = list(zip(*b))
        return to_val(eng, [[_dot(eng, r, c, st, node) for c in cols] for r in a], st)
    if ma:
        return to_val(eng, [_dot(eng, r, b, st, node) for r in a], st)
    if mb:
        return to_val(eng, [_dot(eng, a, c, st, node) for c in zip(*b)], st)
    if len(a) != len(b):
        raise Unsupported("vector shapes")
    return _dot(eng, a, b, st, node)


def e_transpose(eng, args, kw, st, node, spec):
    a, ma = mat(eng, args[0], st)
    if not ma:
        return to_val(eng, a, st)
    return to_val(eng, [list(c) for c in zip(*a)], st)


def det3(eng, m, st, node):
    def mul(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = eng.binop(ast.Mult(), r, x, st, node, True)
        return r

    def sub(x, y):
        return eng.binop(ast.Sub(), x, y, st, node, True)

    def add(x, y):
        return eng.binop(ast.Add(), x, y, st, node, True)
    (a, b, c), (d, e, f), (g, h, i) = m
    return add(sub(mul(a, sub(mul(e, i), mul(f, h))), mul(b, sub(mul(d, i), mul(f, g)))), mul(c, sub(mul(d, h), mul(e, g))))


def e_det(eng, args, kw, st, node, spec):
    a, ma = mat(eng, args[0], st)
    if not ma or len(a) != 3:
        raise Unsupported("determinant")
    eng.trusted.add("numpy.linalg.det is the exact determinant (floating point idealised)")
    if eng.contract.get("det"):
        return eng.P.apply_spec(eng, eng.contract["det"], [to_real(x) for r in a for x in r], st)
    d = det3(eng, a, st, node)
    if is_int(d):
        d = z3.ToReal(to_z3(d))
    return d


def e_inv(eng, args, kw, st, node, spec):
    """The matrix that gives the unit matrix when multiplied from either side."""
    m, two = mat(eng, args[0], st)
    if not two or len(m) != 3 or any(len(r) != 3 for r in m):
        raise Unsupported("inverse")
    eng.trusted.add("numpy.linalg.inv is the exact inverse (floating point idealised)")

    def op(o, x, y):
        return eng.binop(o, x, y, st, node, True)
    if eng.contract.get("det"):
        d = eng.P.apply_spec(eng, eng.contract["det"], [to_real(x) for r in m for x in r], st)
    else:
        d = det3(eng, m, st, node)
    if not spec:
        eng.oblige(st, to_real(d) != 0, "matrix to invert is regular", node)
    if eng.fresh_guard is not None:
        eng.fresh_guard[0] += 1
    X = [[fresh("inv%d%d" % (i, j), z3.RealSort()) for j in range(3)] for i in range(3)]
    M = [[to_real(x) for x in r] for r in m]
    for i in range(3):
        for j in range(3):
            one = z3.RealVal(1 if i == j else 0)
            st.pc.append(sum(X[i][k] * M[k][j] for k in range(1, 3)) + X[i][0] * M[0][j] == one)
            st.pc.append(sum(M[i][k] * X[k][j] for k in range(1, 3)) + M[i][0] * X[0][j] == one)
    return to_val(eng, X, st)


def e_cross(eng, args, kw, st, node, spec):
    a, _ = mat(eng, args[0], st)
    b, _ = mat(eng, args[1], st)

    def m(x, y):
        return eng.binop(ast.Mult(), x, y, st, node, True)

    def s(x, y):
        return eng.binop(ast.Sub(), x, y, st, node, True)
    return to_val(eng, [s(m(a[1], b[2]), m(a[2], b[1])), s(m(a[2], b[0]), m(a[0], b[2])), s(m(a[0], b[1]), m(a[1], b[0]))], st)


def e_norm(eng, args, kw, st, node, spec):
    a, ma = mat(eng, args[0], st)
    if ma and const_int(kw.get("axis")) == 1 and len(args) == 1:
        return to_val(eng, [_norm(eng, r, st, node) for r in a], st)
    if ma or "axis" in kw:
        raise Unsupported("matrix norm")
    return _norm(eng, a, st, node)


def _norm(eng, a, st, node):
    eng.trusted.add("numpy.linalg.norm is the exact Euclidean norm (floating point idealised)")
    if eng.fresh_guard is not None:
        eng.fresh_guard[0] += 1
    # a theory that names the root speaks of the same function
    root = eng.P.specfns["root"].decl if "root" in eng.P.specfns else z3.Function("s_root", z3.RealSort(), z3.RealSort())
    q = to_z3(_dot(eng, a, a, st, node))
    if q.sort().kind() == z3.Z3_INT_SORT:
        q = z3.ToReal(q)
    r = root(q)
    st.pc.append(z3.And(r >= 0, r * r == q))
    return r


def scalars(eng, v, st):
    """Entries of a nested list of fixed shape, row by row."""
    if isinstance(v, (VRef, VTuple)):
        c = st.heap[v.id] if isinstance(v, VRef) else None
        if isinstance(c, SListV) and const_int(c.length) is None and c.elem.kind in ("int", "real"):
            return three(eng, c, st)
        if isinstance(c, SListV) and const_int(c.length) is None and c.elem.kind == "L":
            return [y for r in mat(eng, v, st)[0] for y in r]
        return [y for x in eng.items_of(v, st) for y in scalars(eng, x, st)]
    return [v]


def e_allclose(eng, args, kw, st, node, spec):
    xs, ys = scalars(eng, args[0], st), scalars(eng, args[1], st)
    if len(ys) == 1:
        ys = ys * len(xs)
    if len(xs) != len(ys):
        raise Unsupported("allclose of different shapes")
    rt = to_z3(kw.get("rtol", args[2] if len(args) > 2 else 1e-5))
    at = to_z3(kw.get("atol", args[3] if len(args) > 3 else 1e-8))
    eng.trusted.add("numpy.allclose compares with |a - b| <= atol + rtol*|b| (floating point idealised)")
    out = []
    for x, y in zip(xs, ys):
        x, y = to_real(x), to_real(y)
        if x.eq(y):
            out.append(z3.simplify(z3.And(at >= 0, rt >= 0)))
            continue
        d = x - y
        out.append(z3.If(d < 0, -d, d) <= at + rt * z3.If(y < 0, -y, y))
    return And(*out) if out else True


def to_real(v):
    v = to_z3(as_int(v))
    return z3.ToReal(v) if v.sort().kind() == z3.Z3_INT_SORT else v


def e_array(eng, args, kw, st, node, spec):
    return mark_nd(eng, deep(eng, args[0], st), st)


def e_floor(eng, args, kw, st, node, spec):
    v = args[0]
    if is_int(v):
        return v
    return z3.ToInt(to_z3(v))


def e_npfloor(eng, args, kw, st, node, spec):
    v = args[0]
    if is_int(v) or is_real(v):
        return z3.ToReal(to_z3(e_floor(eng, args, kw, st, node, spec)))
    raise Unsupported("numpy.floor of an array")


def e_ceil(eng, args, kw, st, node, spec):
    v = args[0]
    if is_int(v):
        return v
    return -z3.ToInt(-to_z3(v))


def e_rint(eng, args, kw, st, node, spec):
    v = args[0]
    if is_int(v):
        return z3.ToReal(to_z3(v))
    if is_real(v):
        return z3.ToReal(b_round(eng, [v], {}, st, node, spec))
    raise Unsupported("rint")


def e_reduce(eng, args, kw, st, node, spec):
    f = args[0]
    items = eng.items_of(args[1], st)
    acc = args[2] if len(args) > 2 else None
    for x in items:
        acc = x if acc is None else eng.call(f, [acc, x], {}, st, node, spec)
    if acc is None:
        raise Unsupported("reduce of an empty list")
    return acc


def _op(o):
    return lambda eng, args, kw, st, node, spec: eng.binop(o(), args[0], args[1], st, node, spec)


def e_ignore(eng, args, kw, st, node, spec):
    return NONE


def e_randint(eng, args, kw, st, node, spec):
    lo, hi = args
    if eng.fresh_guard is not None:
        eng.fresh_guard[0] += 1
    r = fresh("rand", z3.IntSort())
    st.pc.append(z3.And(r >= to_z3(lo), r <= to_z3(hi)))
    eng.trusted.add("random.randint(a, b) returns an integer between a and b")
    return r


def e_random(eng, args, kw, st, node, spec):
    if eng.fresh_guard is not None:
        eng.fresh_guard[0] += 1
    r = fresh("rand", z3.RealSort())
    st.pc.append(z3.And(r >= 0, r < 1))
    return r


def _filled(val):
    def f(eng, args, kw, st, node, spec):
        if len(args) != 1 or kw:
            raise Unsupported("array constructor with options")
        def build(dims):
            if not dims:
                return to_z3(val)
            x = build(dims[1:])
            n = const_int(dims[0])
            if n is not None and n <= 64:
                return eng.alloc(st, CListV([x if not isinstance(x, VRef) else deep(eng, x, st) for _ in range(n)]))
            eng.oblige(st, eng.compare(ast.GtE(), dims[0], 0, st, node), "array size nonnegative", node)
            t = norm(eng.type_of(x, st))
            if t.kind == "L":
                t = own(t)
            return eng.alloc(st, SListV(t, to_z3(dims[0]), z3.K(z3.IntSort(), eng.to_smt(x, t, st))))
        a = args[0]
        eng.trusted.add("numpy arrays are read as lists")
        return build(list(eng.items_of(a, st)) if not is_int(a) else [a])
    return f


def e_choice(eng, args, kw, st, node, spec):
    s = eng.seq(args[0], st)
    if eng.fresh_guard is not None:
        eng.fresh_guard[0] += 1
    eng.oblige(st, to_z3(s.length) > 0, "choice from a non-empty sequence", node)
    k = fresh("choice", z3.IntSort())
    st.pc.append(z3.And(k >= 0, k < to_z3(s.length)))
    eng.trusted.add("random.choice returns an element of its argument")
    return eng.get_in(s, k, st)


def e_factorial(eng, args, kw, st, node, spec):
    if "fact" not in eng.P.specfns:
        raise Unsupported("math.factorial")
    eng.oblige(st, eng.compare(ast.GtE(), args[0], 0, st, node), "factorial of a nonnegative number", node)
    eng.trusted.add("math.factorial")
    return eng.P.specfns["fact"].decl(to_z3(as_int(args[0])))


def e_comb(eng, args, kw, st, node, spec):
    if "C" not in eng.P.specfns:
        raise Unsupported("math.comb")
    eng.oblige(st, And(eng.compare(ast.GtE(), args[0], 0, st, node), eng.compare(ast.GtE(), args[1], 0, st, node)), "comb of nonnegative numbers", node)
    eng.trusted.add("math.comb")
    return eng.P.specfns["C"].decl(to_z3(as_int(args[0])), to_z3(as_int(args[1])))


def product_of(eng, x, kw, st):
    """itertools.product(*x): the combinations in the order of their mixed radix rank."""
    c = st.heap[x.id]
    if kw or c.elem.kind != "L" or "pr" not in eng.P.specfns or eng.P.specfns["pr"].params[0][1].args[0] != c.elem:
        raise Unsupported("itertools.product")
    eng.trusted.add("itertools.product yields, in order, the combinations whose index tuples have the mixed radix ranks 0, 1, 2, ...")
    pr, pt = eng.P.specfns["pr"].decl, eng.P.specfns["pt"].decl
    n = c.length
    el = c.elem.args[0]
    ls = sort_of(c.elem)
    dg = z3.Function(fresh_name("digits"), z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
    pv = z3.Function(fresh_name("choice"), z3.IntSort(), z3.ArraySort(z3.IntSort(), sort_of(el)))

    def get(m, st2=None):
        t = st2 or st
        m = to_z3(m)
        i = z3.Int(fresh_name("i"))
        row = z3.Select(c.arr, i)
        inr = z3.And(0 <= i, i < n)
        d, v = z3.Select(dg(m), i), z3.Select(pv(m), i)
        t.pc.append(z3.ForAll([i], z3.Implies(inr, z3.And(0 <= d, d < ls.accessor(0, 0)(row), v == z3.Select(ls.accessor(0, 1)(row), d))), patterns=[d, v]))
        t.pc.append(pr(c.arr, dg(m), n) == m)
        t.env["g_digits"] = eng.alloc(t, SListV(INT, n, dg(m), True))
        return eng.alloc(t, SListV(el, n, pv(m), True))
    return VSeq(pt(c.arr, n), get, src={x.id})


EXTERNAL = {
    "copy.deepcopy": e_deepcopy, "copy.copy": lambda e, a, k, st, n, s: b_list(e, a, k, st, n, s),
    "numpy.matmul": e_matmul, "numpy.dot": e_matmul, "numpy.transpose": e_transpose, "numpy.linalg.det": e_det, "numpy.linalg.inv": e_inv,
    "numpy.linalg.norm": e_norm, "numpy.cross": e_cross, "numpy.array": e_array, "numpy.allclose": e_allclose, "numpy.asarray": e_array,
    "numpy.zeros": _filled(0.0), "numpy.ones": _filled(1.0),
    "math.floor": e_floor, "math.ceil": e_ceil, "numpy.floor": e_npfloor, "numpy.rint": e_rint,
    "functools.reduce": e_reduce, "operator.mul": _op(ast.Mult), "operator.add": _op(ast.Add), "operator.sub": _op(ast.Sub),
    "random.seed": e_ignore, "random.randint": e_randint, "random.random": e_random, "random.choice": e_choice,
    "random.uniform": lambda e, a, k, st, n, s: e_uniform(e, a, st),
    "math.factorial": e_factorial, "math.comb": e_comb,
}


def e_uniform(eng, args, st):
    a, b = [to_z3(as_int(x)) for x in args]
    a = z3.ToReal(a) if a.sort().kind() == z3.Z3_INT_SORT else a
    b = z3.ToReal(b) if b.sort().kind() == z3.Z3_INT_SORT else b
    if eng.fresh_guard is not None:
        eng.fresh_guard[0] += 1
    r = fresh("rand", z3.RealSort())
    st.pc.append(z3.Or(z3.And(r >= a, r <= b), z3.And(r >= b, r <= a)))
    return r


def unknown_external(eng, name, args, kw, st, node):
    eng.trusted.add("external %s: result unconstrained, assumed not to modify its arguments" % name)
    if eng.fresh_guard is not None:
        eng.fresh_guard[0] += 1
    return fresh("ext_" + name.replace(".", "_"), TM.Obj)
