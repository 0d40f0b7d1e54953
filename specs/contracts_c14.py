_mem = "int(p[i][0]) * n[1] * n[2] + int(p[i][1]) * n[2] + int(p[i][2]) == i"
_rng = "0 <= int(p[i][%d]) and int(p[i][%d]) < n[%d] and p[i][%d] == int(p[i][%d])"

_match = "len(g_p) == len(g) and all(0 <= g_p[i] and g_p[i] < len(g) for i in range(len(g))) and all(all(g_p[i] != g_p[j] for j in range(i)) for i in range(len(g))) and all(all(iff(close3(gp[j], g[i]), j == g_p[i]) for j in range(len(g))) for i in range(len(g)))"

CONTRACTS = {
    "phenum/grouptheory.py:get_full_HNF": dict(
        params={"HNF": "CL(6,int)"}, returns="CL(3,CL(3,int))",
        ensures=["result[0][0] == HNF[0]", "result[0][1] == 0", "result[0][2] == 0", "result[1][0] == HNF[1]", "result[1][1] == HNF[2]", "result[1][2] == 0",
                 "result[2][0] == HNF[3]", "result[2][1] == HNF[4]", "result[2][2] == HNF[5]"]),
    "phenum/grouptheory.py:_make_member_list": dict(
        params={"n": "CL(3,int)"}, returns="L(L(real))",
        requires=["n[0] >= 1", "n[1] >= 1", "n[2] >= 1"],
        ensures=["len(result) == n[0] * n[1] * n[2]", "all(len(r) == 3 for r in result)",
                 "all(%s for i in range(len(result)))" % _mem.replace("p[", "result["),
                 ] + ["all(%s for i in range(len(result)))" % (_rng % (k, k, k, k, k)).replace("p[", "result[") for k in range(3)],
        loops={0: dict(inv=["len(p) == depth", "depth == n[0] * n[1] * n[2]", "all(len(r) == 3 for r in p)",
                            "all(%s for i in range(IT + 1))" % _mem] + ["all(%s for i in range(IT + 1))" % (_rng % (k, k, k, k, k)) for k in range(3)],
                      begin=["next_member(int(p[IT][0]), int(p[IT][1]), int(p[IT][2]), n[0], n[1], n[2], IT)"])}),
    "phenum/grouptheory.py:_find_permutation_of_group": dict(
        params={"g": "L(L(real))", "gp": "L(L(real))"}, returns="L(int)", ghosts={"g_p": "L(int)"},
        requires=["len(gp) == len(g)", "all(len(r) == 3 for r in g)", "all(len(r) == 3 for r in gp)"],
        ensures=["len(result) <= len(g)", "all(0 <= result[i] and result[i] < len(g) for i in range(len(result)))",
                 "all(all(result[i] != result[j] for j in range(i)) for i in range(len(result)))"],
        # every member has exactly one counterpart: the permutation found is the one that matches them
        ensures_ghost=["implies(%s, len(result) == len(g) and all(result[i] == g_p[i] for i in range(len(g))))" % _match],
        begin=["g_ok = " + _match],
        loops={0: dict(inv=["len(perm) <= IT", "len(skip) == n", "all(skip[perm[i]] and 0 <= perm[i] and perm[i] < n for i in range(len(perm)))",
                            "all(all(perm[i] != perm[j] for j in range(i)) for i in range(len(perm)))",
                            "implies(g_ok, len(perm) == IT and all(perm[i] == g_p[i] for i in range(IT)) and all(implies(skip[j], exists(lambda i: 0 <= i and i < IT and perm[i] == j)) for j in range(n)))"],
                       types={"perm": "L(int)"}),
               1: dict(inv=["all(skip[j] or not close3(gp[j], g[im]) for j in range(IT))"], begin=["close3_def(gp[jm], g[im])"])}),
    "phenum/grouptheory.py:_map_dvector_permutation": dict(
        params={"rd": "L(L(real))", "d": "L(L(real))", "eps": "real"}, returns="L(int)",
        requires=["len(rd) == len(d)", "all(len(r) == 3 for r in d)", "all(len(r) == 3 for r in rd)", "eps > 0"],
        raises={"SystemExit": True},
        ensures=["len(result) == len(d)", "all(0 <= result[i] and result[i] < len(d) for i in range(len(d)))",
                 "all(all(result[i] != result[j] for j in range(i)) for i in range(len(d)))",
                 "all(within3(rd[i], d[result[i]], eps) for i in range(len(d)))"],
        loops={0: dict(inv=["len(RP) <= IT", "len(found) == n_d", "all(found[RP[i]] and 0 <= RP[i] and RP[i] < n_d for i in range(len(RP)))",
                            "all(all(RP[i] != RP[j] for j in range(i)) for i in range(len(RP)))",
                            "implies(len(RP) == IT, all(within3(rd[i], d[RP[i]], eps) for i in range(IT)))"], types={"RP": "L(int)"}),
               1: dict(begin=["within3_def(rd[iD], d[jD], eps)"])}),
    # operation i of the result is the operation whose rotation is the transpose of rotation number g_i[i]; rotation and shift stay together
    "phenum/grouptheory.py:_transpose_operations": dict(
        params={"rot": "L(L(L(real)))", "shift": "L(L(real))"}, returns="Tup(L(L(L(real))),L(L(real)))",
        requires=["len(shift) == len(rot)", "all(len(r) == 3 for r in rot)", "all(all(len(r[k]) == 3 for k in range(3)) for r in rot)"],
        ensures=["len(result[0]) == len(result[1])", "len(result[0]) <= len(rot)",
                 "all(exists(lambda j: 0 <= j and j < len(rot) and result[0][q] == rot[j] and result[1][q] == shift[j]) for q in range(len(result[0])))",
                 "implies(len(result[0]) == len(rot), all(transposed(rot[q], result[0][q]) for q in range(len(rot))))"],
        begin=["g_j = []"],
        loops={0: dict(types={"t_rot": "L(L(L(real)))", "t_shift": "L(L(real))", "g_j": "L(int)"},
                       inv=["len(t_rot) == len(t_shift)", "len(t_rot) == len(g_j)", "len(g_j) <= IT", "len(used) == len(rot)", "all(0 <= g_j[q] and g_j[q] < len(rot) and used[g_j[q]] for q in range(len(g_j)))",
                            "all(all(g_j[q] != g_j[p] for p in range(q)) for q in range(len(g_j)))",
                            "all(t_rot[q] == rot[g_j[q]] and t_shift[q] == shift[g_j[q]] for q in range(len(g_j)))",
                            "implies(len(g_j) == IT, all(transposed(rot[q], t_rot[q]) for q in range(IT)))"]),
               1: {"begin": ["transposed_def(r, rj)"], "break": ["g_j = g_j + [j]"]}}),
}
