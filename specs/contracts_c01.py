_rows = "all(len(l_) == 3 and l_[0] >= 1 and l_[1] >= 1 and l_[2] >= 1 and l_[0] * l_[1] * l_[2] == n for l_ in %s)"
_lex3 = "forall(lambda k: implies(0 <= k and k + 1 < len(%s), %s[k][0] < %s[k + 1][0] or (%s[k][0] == %s[k + 1][0] and %s[k][1] < %s[k + 1][1])))"
_rows6 = ("all(len(h_) == 3 and len(h_[0]) == 3 and len(h_[1]) == 3 and len(h_[2]) == 3 and h_[0][1] == 0 and h_[0][2] == 0 and h_[1][2] == 0"
          " and h_[0][0] >= 1 and h_[1][1] >= 1 and h_[2][2] >= 1 and h_[0][0] * h_[1][1] * h_[2][2] == n"
          " and 0 <= h_[1][0] and h_[1][0] < h_[1][1] and 0 <= h_[2][0] and h_[2][0] < h_[2][2] and 0 <= h_[2][1] and h_[2][1] < h_[2][2] for h_ in %s)")
_lex6 = "forall(lambda k: implies(0 <= k and k + 1 < len(%s), hlex(%s[k], %s[k + 1])))"


def _l3(x):
    return _lex3 % ((x,) * 7)


def _l6(x):
    return _lex6 % ((x,) * 3)


_full = "forall(lambda x, y: implies(x >= 1 and %s and y >= 1 and n %% x == 0 and (n // x) %% y == 0, mem3(%s, len(%s), x, y, (n // x) // y)))"
_all6 = ("forall(lambda k, u, v, w: implies(0 <= k and k < %s and 0 <= u and u < diags[k][1] and 0 <= v and v < diags[k][2] and 0 <= w and w < diags[k][2],"
         " mem6(hnfs, len(hnfs), diags[k][0], u, diags[k][1], v, w, diags[k][2])))")

CONTRACTS = {
    "phenum/HNFs.py:_get_HNF_diagonals": dict(
        params={"n": "int"}, returns="L(L(int))",
        requires=["n >= 1"],
        ensures=[_rows % "result", _l3("result"),
                 "forall(lambda x, y: implies(x >= 1 and y >= 1 and n % x == 0 and (n // x) % y == 0, mem3(result, len(result), x, y, (n // x) // y)))"],
        loops={
            0: dict(types={"diags": "L(L(int))"},
                    inv=[_rows % "diags", _l3("diags"), "all(l_[0] <= IT for l_ in diags)", _full % ("x <= IT", "diags", "diags")],
                    ),
            1: dict(types={"diags": "L(L(int))"},
                    inv=[_rows % "diags", _l3("diags"), "all(l_[0] <= i for l_ in diags)", "all(implies(l_[0] == i, l_[1] <= IT) for l_ in diags)",
                         _full % ("x < i", "diags", "diags"),
                         "forall(lambda y: implies(y >= 1 and y <= IT and (n // i) % y == 0, mem3(diags, len(diags), i, y, (n // i) // y)))"],
                    enter=["div_back(n, i)"],
                    begin=["div_back(n, i)", "if (n // i) % (IT + 1) == 0: div_back(n // i, IT + 1)", "assert q == n // i"]),
        },
    ),
    "phenum/HNFs.py:find_all_HNFs": dict(
        params={"n": "int"}, returns="L(L(L(int)))",
        requires=["n >= 1"],
        ensures=[_rows6 % "result", _l6("result"),
                 # every shape with a*c*f == n occurs
                 ("forall(lambda a, b, c, d, e, f: implies(a >= 1 and c >= 1 and f >= 1 and n % a == 0 and (n // a) % c == 0 and f == (n // a) // c"
                 " and 0 <= b and b < c and 0 <= d and d < f and 0 <= e and e < f, mem6(result, len(result), a, b, c, d, e, f)))",
                  ["assert mem3(l_diags, len(l_diags), a, c, f)", "mem3_at(l_diags, len(l_diags), a, c, f)",])],
        loops={
            0: dict(types={"hnfs": "L(L(L(int)))"},
                    inv=[_rows6 % "hnfs", _l6("hnfs"), _all6 % "IT0",
                         "all(IT0 > 0 and (h_[0][0] < diags[IT0 - 1][0] or (h_[0][0] == diags[IT0 - 1][0] and h_[1][1] <= diags[IT0 - 1][1])) for h_ in hnfs)"]),
            1: dict(types={"hnfs": "L(L(L(int)))"},
                    inv=[_rows6 % "hnfs", _l6("hnfs"), _all6 % "IT0", "all(hbefore(h_, a, c, IT1, 0, 0) for h_ in hnfs)",
                         "forall(lambda u, v, w: implies(0 <= u and u < IT1 and 0 <= v and v < f and 0 <= w and w < f, mem6(hnfs, len(hnfs), a, u, c, v, w, f)))"]),
            2: dict(types={"hnfs": "L(L(L(int)))"},
                    inv=[_rows6 % "hnfs", _l6("hnfs"), _all6 % "IT0", "all(hbefore(h_, a, c, b, IT2, 0) for h_ in hnfs)",
                         "forall(lambda u, v, w: implies(0 <= u and u < IT1 and 0 <= v and v < f and 0 <= w and w < f, mem6(hnfs, len(hnfs), a, u, c, v, w, f)))",
                         "forall(lambda v, w: implies(0 <= v and v < IT2 and 0 <= w and w < f, mem6(hnfs, len(hnfs), a, b, c, v, w, f)))"]),
            3: dict(types={"hnfs": "L(L(L(int)))"},
                    inv=[_rows6 % "hnfs", _l6("hnfs"), _all6 % "IT0", "all(hbefore(h_, a, c, b, d, IT3) for h_ in hnfs)",
                         "forall(lambda u, v, w: implies(0 <= u and u < IT1 and 0 <= v and v < f and 0 <= w and w < f, mem6(hnfs, len(hnfs), a, u, c, v, w, f)))",
                         "forall(lambda v, w: implies(0 <= v and v < IT2 and 0 <= w and w < f, mem6(hnfs, len(hnfs), a, b, c, v, w, f)))",
                         "forall(lambda w: implies(0 <= w and w < IT3, mem6(hnfs, len(hnfs), a, b, c, d, w, f)))"]),
        },
    ),
}
