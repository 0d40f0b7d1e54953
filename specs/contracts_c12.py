def v(x):
    return "%s[0], %s[1], %s[2]" % (x, x, x)


def sq(x):
    return "%s[0] * %s[0] + %s[1] * %s[1] + %s[2] * %s[2]" % (x, x, x, x, x, x)


def norm(x):
    return "root(%s)" % sq(x)


def dot(x, y):
    return "dot3(%s, %s)" % (v(x), v(y))


def comb(p, a, b, x="old(U)", y="old(V)"):
    return ["%s[%d] == %s * %s[%d] + %s * %s[%d]" % (p, i, a, x, i, b, y, i) for i in range(3)]


_unit = "(g_a * g_d - g_b * g_c == 1 or g_a * g_d - g_b * g_c == -1)"
_near = "(5000000001/10000000000)"
_k = "int(round((U[0] * V[0] + U[1] * V[1] + U[2] * V[2]) / float(%s) + 1E-10))" % sq("U")


def det(*r):
    return "det9(%s)" % ", ".join(v(x) for x in r)


_x = "abcinv[0][2], abcinv[1][2], abcinv[2][2]"
_cross = "A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]"
_CS = "(%(u)s[1] * %(w)s[2] - %(u)s[2] * %(w)s[1]) * (%(u)s[1] * %(w)s[2] - %(u)s[2] * %(w)s[1]) + (%(u)s[2] * %(w)s[0] - %(u)s[0] * %(w)s[2]) * (%(u)s[2] * %(w)s[0] - %(u)s[0] * %(w)s[2]) + (%(u)s[0] * %(w)s[1] - %(u)s[1] * %(w)s[0]) * (%(u)s[0] * %(w)s[1] - %(u)s[1] * %(w)s[0])"

def vnorm(f):
    return "root(%s)" % " + ".join("(%s) * (%s)" % (f(i), f(i)) for i in range(3))


def conds(a, b, c):
    """The twelve conditions on an ordered basis."""
    e = lambda *t: vnorm(lambda i: " ".join("%s %s[%d]" % (sg, x, i) for sg, x in t).lstrip("+ ") )
    n = lambda x: vnorm(lambda i: "%s[%d]" % (x, i))
    return "(%s)" % " and ".join("%s <= %s + eps" % p for p in [
        (n(a), n(b)), (n(b), n(c)), (n(b), e(("+", a), ("+", b))), (n(b), e(("+", a), ("-", b))), (n(c), e(("+", a), ("+", c))), (n(c), e(("+", c), ("-", a))),
        (n(c), e(("+", b), ("+", c))), (n(c), e(("+", c), ("-", b))), (n(c), e(("+", a), ("+", b), ("+", c))), (n(c), e(("+", a), ("-", b), ("+", c))), (n(c), e(("+", a), ("+", b), ("-", c))), (n(c), e(("+", a), ("-", b), ("-", c)))])


def rows(out, inp):
    return ["%s[%d][%d] == %s" % (out, i, j, " + ".join("g_%d%d * %s[%d][%d]" % (i, k, inp, k, j) for k in range(3))) for i in range(3) for j in range(3)]


def m3(x):
    return ", ".join("%s[%d][%d]" % (x, i, j) for i in range(3) for j in range(3))


_G = ", ".join("g_%d%d" % (i, j) for i in range(3) for j in range(3))
_GU = "(det9(%s) == 1 or det9(%s) == -1)" % (_G, _G)
_p = lambda i, k: "g_p%d%d" % (i, k)
_pick = ["g_p%d%d = g_0%d if g_s%d == 0 else (g_1%d if g_s%d == 1 else g_2%d)" % (i, k, k, i, k, i, k) for i in range(3) for k in range(3)]
_after = []
for _r in (0, 1):
    for _j in range(3):
        _after.append("two_rows(OUT[%d][%d], temp[0][%d], temp[1][%d], %s, %s, g_p00, g_p01, g_p02, g_p10, g_p11, g_p12, old(IN)[0][%d], old(IN)[1][%d], old(IN)[2][%d])" % (_r, _j, _j, _j, "o_a o_b o_c o_d".split()[2 * _r], "o_a o_b o_c o_d".split()[2 * _r + 1], _j, _j, _j))
for _j in range(3):
    _after.append("three_rows(OUT[2][%d], temp[0][%d], temp[1][%d], temp[2][%d], o_m, o_n, g_p00, g_p01, g_p02, g_p10, g_p11, g_p12, g_p20, g_p21, g_p22, old(IN)[0][%d], old(IN)[1][%d], old(IN)[2][%d])" % (_j, _j, _j, _j, _j, _j, _j))
_after += ["g_0%d = o_a * g_p0%d + o_b * g_p1%d" % (k, k, k) for k in range(3)] + ["g_1%d = o_c * g_p0%d + o_d * g_p1%d" % (k, k, k) for k in range(3)] + ["g_2%d = g_p2%d + o_m * g_p0%d + o_n * g_p1%d" % (k, k, k, k) for k in range(3)]
_after += ["det_unit(%s, %s, %s, %s, %s, %s, o_a, o_b, o_c, o_d, o_m, o_n)" % (v("OUT[0]"), v("OUT[1]"), v("OUT[2]"), v("temp[0]"), v("temp[1]"), v("temp[2]")),
           "det_unit(%s, g_p00, g_p01, g_p02, g_p10, g_p11, g_p12, g_p20, g_p21, g_p22, o_a, o_b, o_c, o_d, o_m, o_n)" % _G]

_coord = "cart_to_latt[%d][0] * vec[0] + cart_to_latt[%d][1] * vec[1] + cart_to_latt[%d][2] * vec[2] - g_%d"

def _mv(x, k, i="i"):
    return "moved(%s, %s, %s)" % (", ".join("%s[%s][%d]" % (x, i, j) for j in range(3)), ", ".join("g_s%d[%s]" % (j, i) for j in range(3)), ", ".join("sLV[%d][%d]" % (j, k) for j in range(3)))


CONTRACTS = {
    "phenum/vector_utils.py:_gaussian_reduce_two_vectors": dict(
        params={"U": "CL(3,real)", "V": "CL(3,real)", "eps": "real"}, returns="Tup(CL(3,real),CL(3,real))",
        ghost_out={"g_a": "int", "g_b": "int", "g_c": "int", "g_d": "int"},
        requires=["gram(%s, %s) != 0" % (v("U"), v("V"))],
        ensures=comb("result[0]", "g_a", "g_b", "U", "V") + comb("result[1]", "g_c", "g_d", "U", "V") + [_unit,
                "gram(%s, %s) == gram(%s, %s)" % (v("result[0]"), v("result[1]"), v("U"), v("V")),
                "%s <= %s + eps" % (norm("result[0]"), norm("result[1]")),
                "%s <= %s * %s" % (dot("result[0]", "result[1]"), _near, dot("result[0]", "result[0]")),
                "-%s <= %s * %s" % (dot("result[0]", "result[1]"), _near, dot("result[0]", "result[0]"))],
        begin=["g_a = 1", "g_b = 0", "g_c = 0", "g_d = 1", "gram_swap(%s, %s)" % (v("U"), v("V"))],
        raises={"SystemExit": "True"},
        end=["gram_swap(%s, %s)" % (v("result[1]"), v("result[0]")), "dot_sym(%s, %s)" % (v("result[0]"), v("result[1]")), "g_t = g_a", "g_a = g_c", "g_c = g_t", "g_t = g_b", "g_b = g_d", "g_d = g_t"],
        loops={0: dict(
                       enter=["g_a = 1 if U == old(U) and V == old(V) else 0", "g_b = 1 - g_a", "g_c = 1 - g_a", "g_d = g_a"],
                       begin=["gram_first(%s, %s)" % (v("U"), v("V")), "g_k = " + _k, "gram_shear(%s, %s, g_k)" % (v("U"), v("V")), "dot_shear(%s, %s, g_k)" % (v("U"), v("V")),
                              "dot3_def(%s, %s)" % (v("U"), v("V")), "dot3_def(%s, %s)" % (v("U"), v("U")), "rounded(%s, %s, g_k, %s)" % (dot("U", "V"), dot("U", "U"), _near)]
                       + ["shear1(U[%d], V[%d], g_a, g_b, g_c, g_d, g_k, old(U)[%d], old(V)[%d])" % (i, i, i, i) for i in range(3)]
                       + ["shear_det(g_a, g_b, g_c, g_d, g_k)", "g_e = g_c - g_k * g_a", "g_f = g_d - g_k * g_b", "g_c = g_a", "g_d = g_b", "g_a = g_e", "g_b = g_f"],
                       inv=comb("U", "g_a", "g_b") + comb("V", "g_c", "g_d") + [_unit, "gram(%s, %s) == gram(%s, %s)" % (v("U"), v("V"), v("old(U)"), v("old(V)")),
                            "implies(done, %s >= %s - eps)" % (norm("U"), norm("V")),
                            "implies(done, %s <= %s * %s)" % (dot("U", "V"), _near, dot("V", "V")), "implies(done, -%s <= %s * %s)" % (dot("U", "V"), _near, dot("V", "V"))])}),
    "phenum/vector_utils.py:_reduce_C_in_ABC": dict(
        params={"A": "CL(3,real)", "B": "CL(3,real)", "C": "CL(3,real)", "eps": "real"}, returns="Tup(CL(3,real),CL(3,real),CL(3,real))", det="det9",
        ghost_out={"g_a": "int", "g_b": "int", "g_c": "int", "g_d": "int", "g_m": "int", "g_n": "int"},
        requires=[det("A", "B", "C") + " != 0", "0 < eps", "eps < 1"],
        ensures=comb("result[0]", "g_a", "g_b", "A", "B") + comb("result[1]", "g_c", "g_d", "A", "B") + ["result[2][%d] == C[%d] + g_m * A[%d] + g_n * B[%d]" % (i, i, i, i) for i in range(3)] + [_unit,
                "%s <= %s + eps" % (norm("result[0]"), norm("result[1]")),
                "%s <= %s * %s" % (dot("result[0]", "result[1]"), _near, dot("result[0]", "result[0]")),
                "-%s <= %s * %s" % (dot("result[0]", "result[1]"), _near, dot("result[0]", "result[0]"))],
        raises={"SystemExit": "True"},
        begin=["g_a = 1", "g_b = 0", "g_c = 0", "g_d = 1", "g_m = 0", "g_n = 0", "gram_det(%s, %s, %s)" % (v("A"), v("B"), v("C"))],
        after={"_gaussian_reduce_two_vectors": ["g_a = o_a", "g_b = o_b", "g_c = o_c", "g_d = o_d", "lagrange(%s, %s)" % (v("A"), v("B")), "det_comb(%s, %s, %s, %s, %s, %s, g_a, g_b, g_c, g_d, 0, 0)" % (v("A"), v("B"), v("C"), v("old(A)"), v("old(B)"), v("old(C)"))],
               "floor": ["assert LC[2] == 0"],
               "index": ["g_p = LC[0] + (1 if idx == 1 or idx == 3 else 0)", "g_q = LC[1] + (1 if idx == 2 or idx == 3 else 0)", "g_m = -(g_p * g_a + g_q * g_c)", "g_n = -(g_p * g_b + g_q * g_d)"]},
        before={"inv": ["det_comb(%s, %s, %s, %s, %s, %s, g_a, g_b, g_c, g_d, g_m, g_n)" % (v("A"), v("B"), v("C"), v("old(A)"), v("old(B)"), v("old(C)"))],
                "floor": ["normal_part(%s, %s, %s, %s, %s)" % (v("A"), v("B"), v("C"), _x, _cross),
                          "in_plane(root(%s), %s, %s, %s, %s, %s, C[0] * cpd_ab[0] + C[1] * cpd_ab[1] + C[2] * cpd_ab[2])" % (_CS % dict(u="A", w="B"), _cross, v("cpd_ab"), v("C"), _x, v("T"))]}),
    "phenum/vector_utils.py:_minkowski_conditions_check": dict(
        params={"basis": "CL(3,CL(3,real))", "eps": "real"}, returns="bool", merge=True,
        ensures=["iff(result, %s)" % conds("basis[0]", "basis[1]", "basis[2]")]),
    "phenum/vector_utils.py:_minkowski_reduce_basis": dict(
        params={"IN": "CL(3,CL(3,real))", "eps": "real"}, returns="CL(3,CL(3,real))", det="det9", split=True,
        ghost_out={"g_%d%d" % (i, j): "int" for i in range(3) for j in range(3)},
        requires=["0 < eps", "eps < 1"],
        ensures=["abs(det9(%s)) > eps" % m3("IN")] + rows("result", "IN") + [_GU, "det9(%s) > 0" % m3("result"),
                 "%s or %s" % (conds("result[0]", "result[1]", "result[2]"), conds("result[0]", "result[2]", "result[1]"))],
        raises={"SystemExit": "True", "ValueError": "abs(det9(%s)) <= eps" % m3("IN")},
        begin=["g_%d%d = %d" % (i, j, i == j) for i in range(3) for j in range(3)] + ["g_s%d = %d" % (i, i) for i in range(3)] + ["identity3()"],
        before={"det": ["g_neg = 1 if det9(%s) < 0 else 0" % m3("OUT"), "det_orders(%s)" % m3("OUT")],
                "_reduce_C_in_ABC": _pick + ["det_orders(%s)" % m3("g_m0"), "det_orders(%s)" % _G]},
        after={"norm": ["root_pos(norms[%d], %s)" % (i, sq("temp[%d]" % i)) for i in range(3)], "index": ["g_s%d = idx if i == %d else g_s%d" % (i, i, i) for i in range(3)], "_reduce_C_in_ABC": _after},
        end=["det_orders(%s)" % _G] + sum([["g_t = g_1%d" % k, "g_1%d = g_2%d if l_g_neg == 1 else g_1%d" % (k, k, k), "g_2%d = g_t if l_g_neg == 1 else g_2%d" % (k, k)] for k in range(3)], []),
        loops={0: dict(cut=True, types={"temp": "CL(3,CL(3,real))"}, begin=["rows_nonzero(%s)" % m3("OUT"), "g_m0 = OUT"],
                       inv=rows("OUT", "old(IN)") + [_GU, "(det9(%s) == det9(%s) or det9(%s) == -det9(%s))" % (m3("OUT"), m3("old(IN)"), m3("OUT"), m3("old(IN)"))])}),
    "phenum/symmetry.py:bring_into_cell": dict(
        params={"vec": "CL(3,real)", "cart_to_latt": "CL(3,CL(3,real))", "latt_to_cart": "CL(3,CL(3,real))", "eps": "real"}, returns="CL(3,real)",
        ghost_out={"g_0": "int", "g_1": "int", "g_2": "int"},
        requires=["0 <= eps", "eps < 1"],
        ensures=["result[%d] == %s" % (i, " + ".join("latt_to_cart[%d][%d] * (%s)" % (i, j, _coord % (j, j, j, j)) for j in range(3))) for i in range(3)]
        + ["-eps <= %s" % (_coord % (j, j, j, j)) for j in range(3)] + ["%s <= 1 - eps" % (_coord % (j, j, j, j)) for j in range(3)],
        raises={"SystemExit": "True"},
        begin=["g_%d = 0" % j for j in range(3)],
        loops={0: dict(begin=["g_%d = g_%d + (1 if vec[%d] >= 1.0 - eps else (-1 if vec[%d] < 0.0 - eps else 0))" % (j, j, j, j) for j in range(3)],
                       inv=["vec[%d] == %s" % (j, _coord.replace("vec", "old(vec)") % (j, j, j, j)) for j in range(3)])}),
    "phenum/vector_utils.py:cartesian2direct": dict(
        params={"sLV": "CL(3,CL(3,real))", "aBas": "L(L(real))", "eps": "real"}, returns="L(L(real))", det="det9", modifies=["aBas"],
        ghost_out={"g_s0": "L(int)", "g_s1": "L(int)", "g_s2": "L(int)"},
        requires=["0 <= eps", "eps < 1", "det9(%s) != 0" % m3("sLV"), "forall(lambda i: implies(0 <= i and i < len(aBas), len(aBas[i]) == 3))"],
        ensures=["forall(lambda i: implies(0 <= i and i < len(result), len(result[i]) == 3))", "len(result) == len(aBas)", "len(g_s0) == len(aBas)", "len(g_s1) == len(aBas)", "len(g_s2) == len(aBas)",
                 "forall(lambda i: implies(0 <= i and i < len(aBas), %s))" % " and ".join("result[i][%d] >= -eps and result[i][%d] < 1 - eps" % (j, j) for j in range(3))]
        + ["forall(lambda i: implies(0 <= i and i < len(aBas), %s == aBas[i][%d]))" % (_mv("result", k), k) for k in range(3)],
        begin=["g_s0 = []", "g_s1 = []", "g_s2 = []"],
        after={"matmul": ["inverted(%s, %s, %s, %s)" % (v("g_l[iAt]"), m3("slv_inv"), ", ".join("sLV[%d][%d]" % (j, k) for j in range(3)), ", ".join(str(int(j == k)) for j in range(3))) for k in range(3)]},
        loops={0: dict(begin=["g_l = list(aBas)"] + ["g_%d = 0" % j for j in range(3)], end=["g_s%d = g_s%d + [g_%d]" % (j, j, j) for j in range(3)],
                       inv=["len(aBas) == len(old(aBas))", "forall(lambda i: implies(0 <= i and i < len(aBas), len(aBas[i]) == 3))", "len(g_s0) == IT", "len(g_s1) == IT", "len(g_s2) == IT",
                            "forall(lambda i: implies(IT <= i and i < len(aBas), %s))" % " and ".join("aBas[i][%d] == old(aBas)[i][%d]" % (j, j) for j in range(3)),
                            "forall(lambda i: implies(0 <= i and i < IT, %s))" % " and ".join("aBas[i][%d] >= -eps and aBas[i][%d] < 1 - eps" % (j, j) for j in range(3))]
                       + ["forall(lambda i: implies(0 <= i and i < IT, %s == old(aBas)[i][%d]))" % (_mv("aBas", k), k) for k in range(3)]),
               1: dict(end=["moved_step(g_p0, g_p1, g_p2, g_r0, g_r1, g_r2, aBas[iAt][0], aBas[iAt][1], aBas[iAt][2], g_0, g_1, g_2, %s)" % ", ".join("sLV[%d][%d]" % (j, k) for j in range(3)) for k in range(3)],
                       begin=["g_p%d = aBas[iAt][%d]" % (j, j) for j in range(3)] + ["g_r%d = g_%d" % (j, j) for j in range(3)] + ["g_%d = g_%d + (1 if aBas[iAt][%d] >= 1.0 - eps else 0)" % (j, j, j) for j in range(3)] + ["g_%d = g_%d - (1 if aBas[iAt][%d] - (1 if aBas[iAt][%d] >= 1.0 - eps else 0) < 0.0 - eps else 0)" % (j, j, j, j) for j in range(3)],
                       inv=["len(aBas) == len(old(aBas))", "forall(lambda i: implies(0 <= i and i < len(aBas), len(aBas[i]) == 3))", "forall(lambda i: implies(0 <= i and i < len(aBas) and i != iAt, %s))" % " and ".join("aBas[i][%d] == g_l[i][%d]" % (j, j) for j in range(3))]
                       + ["%s == old(aBas)[iAt][%d]" % (_mv("aBas", k, "iAt").replace("g_s0[iAt]", "g_0").replace("g_s1[iAt]", "g_1").replace("g_s2[iAt]", "g_2"), k) for k in range(3)])}),
}
