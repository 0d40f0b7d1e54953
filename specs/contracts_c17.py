_ok = "all(len(g) == 2 and len(g[0]) == n and all(0 <= x and x < n for x in g[0]) for g in group)".replace("== n", "== suml(concs, len(concs))").replace("< n", "< suml(concs, len(concs))")
_kept = ["len(g_v) == len(survivors)", "all(0 <= g_v[q] and g_v[q] < len(visited_configs) for q in range(len(g_v)))", "all(all(g_v[p] < g_v[q] for p in range(q)) for q in range(len(g_v)))",
         "all(len(s) == n for s in survivors)", "all(all(len(survivors[q][i]) == 2 and survivors[q][i][0] == -1 and survivors[q][i][1] == visited_configs[g_v[q]][i] for i in range(n)) for q in range(len(survivors)))",
         "all(all(all(not moved(visited_configs[g_v[q]], group[g][0], visited_configs[p], n) for g in range(len(group))) for p in range(g_v[q])) for q in range(len(g_v)))",
         "implies(not supers, all(all(implies(moved(visited_configs[g_v[q]], group[t][0], visited_configs[g_v[q]], n), counts_up(group[t][0], int(cellsize))) for t in range(1, int(cellsize))) for q in range(len(g_v))))",
         "all(len(c) == n for c in visited_configs)", "all(right_counts2(s, concs, n) for s in survivors)",
         ("forall(lambda q, p, g: implies(0 <= p and p < q and q < len(survivors) and 0 <= g and g < len(group), not moved2(survivors[q], group[g][0], survivors[p], n)))",
          ["if moved2(survivors[q], group[g][0], survivors[p], n): moved2_moved(survivors[q], survivors[p], visited_configs[g_v[q]], visited_configs[g_v[p]], group[g][0], n)"]),
         ("forall(lambda q, t: implies(not supers and 0 <= q and q < len(survivors) and 1 <= t and t < int(cellsize), implies(moved2(survivors[q], group[t][0], survivors[q], n), counts_up(group[t][0], int(cellsize)))))",
          ["moved2_moved(survivors[q], survivors[q], visited_configs[g_v[q]], visited_configs[g_v[q]], group[t][0], n)"])]
_cand = dict(types={"candidate": "L(int)"}, inv=["len(candidate) == IT", "all(0 <= candidate[i] and candidate[i] < C[i] for i in range(IT))"],
             begin=["suml_mono(concs, IT, len(concs))", "suml_mono(concs, IT + 1, len(concs))", "C_positive(n - suml(concs, IT), concs[IT])"])

CONTRACTS = {
    "phenum/tree.py:_color_list": dict(params={"col": "L(L(int))"}, returns="L(L(int))", assumed="only called, its result is not used when there are no arrows"),
    "phenum/phonons.py:_find_concentrations": dict(params={"col": "L(L(int))"}, returns="L(int)", assumed="its result is not used by the callers under contract"),
    "phenum/phonons.py:how_many_arrows": dict(
        params={"tcol": "L(L(int))"}, returns="Tup(int,int,L(int))", requires=["all(len(r) == 2 for r in tcol)"],
        ensures=["result[0] == narrows(tcol, len(tcol))", "0 <= result[1]", "result[1] <= result[0]", "iff(result[1] == 0, result[0] == 0)"],
        loops={0: dict(types={"species": "L(int)"}, inv=["arrows == narrows(tcol, IT)", "len(species) <= arrows", "iff(len(species) == 0, arrows == 0)"])}),
    "phenum/tree.py:guess_and_check_brancher": dict(
        params={"concs": "L(int)", "group": "L(L(L(int)))", "colors_w_arrows": "L(L(int))", "dim": "int", "supers": "bool", "cellsize": "real", "num_wanted": "int"}, returns="L(L(L(int)))", globals={"verbosity": None}, reveal=["moved"],
        requires=["len(concs) >= 1", "all(c >= 0 for c in concs)", "suml(concs, len(concs)) >= 1", _ok, "all(len(r) == 2 for r in colors_w_arrows)", "narrows(colors_w_arrows, len(colors_w_arrows)) == 0",
                  "0 <= cellsize", "int(cellsize) <= len(group)", "num_wanted >= 0"],
        ensures=["len(result) <= num_wanted",
                 "all(len(s) == l_n and all(len(a) == 2 and a[0] == -1 for a in s) for s in result)",
                 "all(all(all(not moved2(result[q], group[g][0], result[p], l_n) for g in range(len(group))) for p in range(q)) for q in range(len(result)))",
                 "all(right_counts2(s, concs, l_n) for s in result)",
                 "implies(not supers, all(all(implies(moved2(s, group[t][0], s, l_n), counts_up(group[t][0], int(cellsize))) for t in range(1, int(cellsize))) for s in result))"],
        begin=["g_v = []"],
        loops={0: dict(inv=[]),
               1: dict(types={"survivors": "L(L(L(int)))", "visited": "L(L(int))", "visited_configs": "L(L(int))", "g_v": "L(int)"},
                       inv=["len(survivors) <= num_wanted"] + _kept,
                       end=["right_counts_intro(config, concs, n)", "if unique: pairs_counts(config, survivors[len(survivors) - 1], concs, n)", "g_v = g_v + ([len(visited_configs) - 1] if unique else [])"]),
               2: _cand, 3: dict(inv=["len(candidate) == len(C)", "all(0 <= candidate[i] and candidate[i] < C[i] for i in range(len(C)))"]), 4: _cand,
               5: dict(inv=["unique", "all(all(not moved(config, group[g][0], visited_configs[p], n) for p in range(len(visited_configs))) for g in range(IT))"]),
               6: dict(types={"new_config": "L(int)"}, inv=["len(new_config) == IT", "all(new_config[i] == config[perm[i]] for i in range(IT))"]),
               7: dict(inv=["unique", "all(implies(moved(config, group[t][0], config, n), counts_up(group[t][0], int(cellsize))) for t in range(1, IT + 1))"]),
               8: dict(types={"trans_config": "L(int)"}, inv=["len(trans_config) == IT", "all(trans_config[i] == config[action[i]] for i in range(IT))"]),
               9: dict(inv=["False"]), 10: dict(inv=["False"])}),
}
