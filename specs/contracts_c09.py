CONTRACTS = {
    "phenum/symmetry.py:get_concs_for_size#free": dict(
        params={"size": "int", "nspecies": "int", "res_concs": "const(False)", "nB": "int", "concs": "L(L(int))"}, returns="L(L(int))",
        ghosts={"g_w": "L(int)"},
        requires=["size >= 1", "nB >= 1", "nspecies >= 1"],
        ensures=["all(len(r) == nspecies for r in result)",
                 "all(nonneg(r, nspecies) and suml(r, nspecies) == size * nB for r in result)",
                 "all(lexlt(result[t], result[t + 1], nspecies) for t in range(len(result) - 1))"],
        ensures_ghost=["implies(len(g_w) == nspecies and nonneg(g_w, nspecies) and suml(g_w, nspecies) == size * nB, exists(lambda t: 0 <= t and t < len(result) and same(result[t], g_w, nspecies)))"],
        begin=["g_ok = len(g_w) == nspecies and nonneg(g_w, nspecies) and suml(g_w, nspecies) == size * nB"],
        loops={5: dict(types={"aranges": "L(L(int))"}, inv=["len(aranges) == IT", "all(len(x) == size * nB + 1 for x in aranges)", "all(all(x[i] == i for i in range(size * nB + 1)) for x in aranges)"]),
               6: dict(types={"c_list": "L(L(int))"},
                       inv=["all(len(r) == nspecies for r in c_list)", "all(nonneg(r, nspecies) and suml(r, nspecies) == size * nB for r in c_list)",
                            "all(inbox(aranges, r, nspecies) for r in c_list)", "implies(g_ok, inbox(aranges, g_w, nspecies))", "all(vr(aranges, r, nspecies) < IT for r in c_list)",
                            "all(lexlt(c_list[t], c_list[t + 1], nspecies) for t in range(len(c_list) - 1))",
                            "implies(g_ok and vr(aranges, g_w, nspecies) < IT, exists(lambda t: 0 <= t and t < len(c_list) and same(c_list[t], g_w, nspecies)))"],
                       enter=["if g_ok: box_of_sum(aranges, g_w, size * nB, nspecies)", "if g_ok: vr_bound(aranges, g_w, nspecies)"],
                       begin=["vr_pr(aranges, p, g_digits, nspecies)", "inbox_intro(aranges, p, nspecies)", "nonneg_intro(p, nspecies)",
                              "if g_ok: vr_order(aranges, p, g_w, nspecies)", "if g_ok and vr(aranges, p, nspecies) == vr(aranges, g_w, nspecies): same_sum(aranges, p, g_w, nspecies)",
                              "if len(c_list) > 0: vr_order(aranges, c_list[len(c_list) - 1], p, nspecies)"],
                       exit=["if g_ok: vr_bound(aranges, g_w, nspecies)"])}),
    "phenum/symmetry.py:get_concs_for_size#limits": dict(
        params={"size": "int", "nspecies": "int", "res_concs": "const(True)", "nB": "int", "concs": "L(L(int))"}, returns="L(L(int))",
        ghosts={"g_w": "L(int)"},
        requires=["size >= 1", "nB >= 1", "len(concs) >= 1", "all(len(c) >= 3 and c[0] >= 0 and c[1] >= 0 and c[2] >= 1 for c in concs)",
                  "all(size * nB * c[2] <= 1000000000 for c in concs)"],
        ensures=["all(len(r) == len(concs) for r in result)",
                 "all(within(r, concs, size * nB, len(concs)) and suml(r, len(concs)) == size * nB for r in result)",
                 "all(lexlt(result[t], result[t + 1], len(concs)) for t in range(len(result) - 1))"],
        ensures_ghost=["implies(len(g_w) == len(concs) and within(g_w, concs, size * nB, len(concs)) and suml(g_w, len(concs)) == size * nB,"
                       " exists(lambda t: 0 <= t and t < len(result) and same(result[t], g_w, len(concs))))"],
        begin=["g_ok = len(g_w) == len(concs) and within(g_w, concs, size * nB, len(concs)) and suml(g_w, len(concs)) == size * nB"],
        loops={
            0: dict(types={"vol_table": "L(L(int))"},
                    inv=["len(vol_table) == IT", "all(len(r) == 3 for r in vol_table)", "all(r[2] == size * nB for r in vol_table)", "all(r[0] >= 0 and r[0] <= r[1] for r in vol_table)",
                         "implies(g_ok, all(vol_table[t][0] <= g_w[t] and g_w[t] <= vol_table[t][1] for t in range(IT)))"],
                    begin=["if g_ok: within_at(g_w, concs, size * nB, IT, len(concs))"],
                    end=["g_c = concs[IT - 1]", "g_r = vol_table[IT - 1]",
                         "ratio_order(min(g_c[0], g_c[1]), max(g_c[0], g_c[1]), g_c[2], size, nB)",
                         "if g_ok: floor_below(g_r[0], min(g_c[0], g_c[1]), g_c[2], size, nB, size * nB, g_w[IT - 1])",
                         "if g_ok: ceil_above(g_r[1], max(g_c[0], g_c[1]), g_c[2], size, nB, size * nB, g_w[IT - 1])"]),
            1: dict(types={"label": "L(L(int))", "minv": "L(real)", "maxv": "L(real)"},
                    inv=["len(label) == IT", "len(minv) == IT", "len(maxv) == IT",
                         "all(len(label[t]) == digit[t] + 1 for t in range(IT))", "all(all(label[t][x] == vol_table[t][0] + x for x in range(digit[t] + 1)) for t in range(IT))",
                         "all(minv[t] == float(min(concs[t][0], concs[t][1])) / concs[t][2] and maxv[t] == float(max(concs[t][0], concs[t][1])) / concs[t][2] for t in range(IT))"],
                    exit=["if g_ok: inbox_intro(label, g_w, k)", "if g_ok: vr_bound(label, g_w, k)"]),
            2: dict(types={"c_list": "L(L(int))"},
                    inv=["not done", "len(a) == k", "len(dig_cnt) == k", "all(0 <= dig_cnt[i] and dig_cnt[i] <= digit[i] for i in range(k))", "all(a[i] == label[i][0] + dig_cnt[i] for i in range(k))",
                         "vr(label, a, k) == IT",
                         "all(len(r) == k for r in c_list)", "all(within(r, concs, n, k) and suml(r, k) == n for r in c_list)",
                         "all(inbox(label, r, k) for r in c_list)", "all(vr(label, r, k) < IT for r in c_list)",
                         "all(lexlt(c_list[t], c_list[t + 1], k) for t in range(len(c_list) - 1))",
                         "implies(g_ok and vr(label, g_w, k) < IT, exists(lambda t: 0 <= t and t < len(c_list) and same(c_list[t], g_w, k)))"],
                    enter=["vr_first(label, a, k)"],
                    begin=["g_a = list(a)", "g_d = list(dig_cnt)", "inbox_intro(label, a, k)",
                           "if g_ok: vr_order(label, a, g_w, k)", "if g_ok and vr(label, a, k) == vr(label, g_w, k): same_sum(label, a, g_w, k)",
                           "if g_ok and vr(label, a, k) == vr(label, g_w, k): same_within(a, g_w, concs, n, k)",
                           "if len(c_list) > 0: vr_order(label, c_list[len(c_list) - 1], a, k)",
                           ],
                    end=["vr_next(label, g_a, a, j, k)"]),
            3: dict(types={"conc": "L(real)"},
                    inv=["len(conc) == IT",
                         "all(iff(conc[i] < minv[i] - eps, a[i] * concs[i][2] < min(concs[i][0], concs[i][1]) * n) and iff(conc[i] > maxv[i] + eps, a[i] * concs[i][2] > max(concs[i][0], concs[i][1]) * n) for i in range(IT))",
                         "implies(within(a, concs, n, k), all(min(concs[i][0], concs[i][1]) * n <= a[i] * concs[i][2] and a[i] * concs[i][2] <= max(concs[i][0], concs[i][1]) * n for i in range(IT)))"],
                    begin=["prod_at_most(n, size * nB, concs[IT][2], 1000000000)", "tolerance(a[IT], n, min(concs[IT][0], concs[IT][1]), concs[IT][2], eps)", "tolerance(a[IT], n, max(concs[IT][0], concs[IT][1]), concs[IT][2], eps)",
                           "if within(a, concs, n, k): within_at(a, concs, n, IT, k)"],
                    exit=["if all(conc[i] >= minv[i] - eps and conc[i] <= maxv[i] + eps for i in range(k)): within_intro(a, concs, n, k)"]),
            4: dict(inv=["not done2", "0 <= j", "j < k", "len(a) == k", "len(dig_cnt) == k",
                         "all(a[i] == g_a[i] and dig_cnt[i] == g_d[i] for i in range(j + 1))",
                         "all(a[i] == label[i][0] and dig_cnt[i] == 0 and g_d[i] == digit[i] for i in range(j + 1, k))"],
                    decreases="j + 1",
                    **{"break": ["if j < 0: assert all(g_a[i] - label[i][0] == len(label[i]) - 1 for i in range(k))", "if j < 0: vr_last(label, g_a, k)",
                                 "if j < 0 and g_ok: assert vr(label, g_w, k) <= vr(label, g_a, k)"]}),
        }),
    "phenum/phonons.py:get_arrow_concs#limits": dict(
        params={"params": "D(is_crestricted=const(True), concs=L(L(real)), arrows=bool, nspecies=int)"}, returns="L(real)",
        ensures=["len(result) == len(params['concs'])",
                 "all(result[i] == (params['concs'][i][3] if len(params['concs'][i]) == 4 and params['arrows'] else 0) for i in range(len(result)))"],
        loops={0: dict(types={"a_concs": "L(real)"},
                       inv=["len(a_concs) == IT", "all(a_concs[i] == (params['concs'][i][3] if len(params['concs'][i]) == 4 and params['arrows'] else 0) for i in range(IT))"])}),
    "phenum/phonons.py:get_arrow_concs#free": dict(
        params={"params": "D(is_crestricted=const(False), concs=L(L(real)), arrows=bool, nspecies=int)"}, returns="L(real)",
        requires=["params['nspecies'] >= 0"],
        ensures=["len(result) == params['nspecies']", "all(x == 0 for x in result)"]),
}
