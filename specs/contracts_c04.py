CONTRACTS = {
    "phenum/tree.py:_coefficients": dict(
        params={"number_of_each_color": "L(int)", "number_of_slots": "int"}, returns="L(int)",
        requires=["all(x >= 0 for x in number_of_each_color)", "number_of_slots >= suml(number_of_each_color, len(number_of_each_color))"],
        ensures=["len(result) == len(number_of_each_color)",
                 "all(result[i] == C(number_of_slots - suml(number_of_each_color, i), number_of_each_color[i]) for i in range(len(result)))"],
        loops={0: dict(types={"coe": "L(int)"},
                       inv=["len(coe) == IT", "number_of_slots == old(number_of_slots) - suml(number_of_each_color, IT)",
                            "all(coe[i] == C(old(number_of_slots) - suml(number_of_each_color, i), number_of_each_color[i]) for i in range(len(coe)))"],
                       begin=["suml_mono(number_of_each_color, IT, len(number_of_each_color))"])},
    ),
    "phenum/tree.py:_hash": dict(
        params={"listi": "L(int)"}, returns="int",
        requires=["all(x == 0 or x == 1 for x in listi)", "exists(lambda j: 0 <= j and j < len(listi) and listi[len(listi) - 1 - j] == 1)"],
        ensures=["result == rk(listi, 0, len(listi))",
                 "0 <= result", "result < C(len(listi), cntr(listi, 1, 0, len(listi)))"],
        begin=["rk_bound(listi, 0, len(listi))"],
        loops={0: dict(
            inv=["0 <= m", "m <= len(listi)", "len(li) == m",
                 "all(li[j] == listi[len(listi) - m + j] for j in range(m))",
                 "cntr(listi, 0, len(listi) - m, rm1) == z - IT", "len(listi) - m <= rm1", "0 <= rm1", "rm1 <= len(listi)",
                 "y + rk(listi, len(listi) - m, len(listi)) == rk(listi, 0, len(listi))"],
            begin=["g_li = li", "g_m = m", "g_o = len(listi) - m", "cntr_shift(li, listi, 0, g_o, 0, rm1 - g_o)", "cntr_witness(li, 0, 0, rm1 - g_o)"],
            end=["cntr_none(g_li, 0, 0, p0)", "cntr_shift(g_li, listi, 0, g_o, 0, p0)", "cntr_zero(listi, 0, g_o, g_o + p0)", "cntr_split(listi, 0, g_o, g_o + p0, rm1)", "rk_skip(listi, g_o, g_o + p0, len(listi))",
                 "cntr_shift(g_li, listi, 1, g_o, p0, g_m)"],
            exit=["cntr_zero(listi, 0, len(listi) - m, rm1)", "rk_skip(listi, len(listi) - m, rm1, len(listi))",
                  "cntr_none(listi, 1, rm1, len(listi))", "rk_tail(listi, rm1, len(listi))"]),
        },
    ),
    "phenum/tree.py:_invhash": dict(
        params={"branch": "L(int)", "colors": "L(int)", "n": "int"}, returns="L(int)",
        requires=["len(branch) <= len(colors)", "all(x >= 0 for x in colors)", "suml(colors, len(colors)) <= n", "n >= 0",
                  "all(0 <= branch[i] and branch[i] < C(n - suml(colors, i), colors[i]) for i in range(len(branch)))"],
        ensures=["len(result) == n", "all(0 <= x and x <= len(branch) for x in result)",
                 "forall(lambda c: implies(1 <= c and c <= len(branch), cntr(result, c, 0, n) == colors[c - 1] and rkc(result, c, 0, n) == branch[c - 1]))"],
        loops={
            0: dict(types={"new": "L(int)"},
                    inv=["len(new) == old(n)", "coluse == IT0 + 1", "n == old(n) - suml(colors, IT0)", "cntr(new, 0, 0, old(n)) == n",
                         "all(0 <= x and x <= IT0 for x in new)",
                         ("forall(lambda c: implies(1 <= c and c <= IT0, cntr(new, c, 0, old(n)) == colors[c - 1] and rkc(new, c, 0, old(n)) == branch[c - 1]))",
                          ["if c < IT0: keep_rank(g_new, new, c, 0, old(n))"])],
                    enter=["two_values(new, 1, 0, old(n))", "cntr_none(new, 1, 0, old(n))"],
                    begin=["g_new = list(new)", "g_n = n", "suml_mono(colors, IT0, len(colors))", "suml_mono(colors, IT0 + 1, len(colors))"],
                    end=["fill_rank(g_new, newi, new, IT0, g_n, 0, old(n))", "two_values(newi, IT0, 0, g_n)"]),
            1: dict(types={"newi": "L(int)"},
                    inv=["len(newi) == n", "t == colors[i] - cntr(newi, coluse, 0, IT1)", "t >= 0", "I >= 0", "I < C(n - IT1, t)",
                         "I + rkp(newi, coluse, IT1, n, colors[i]) == branch[i]",
                         "all(newi[j] == 0 or newi[j] == coluse for j in range(0, IT1))", "all(newi[j] == 0 for j in range(IT1, n))"],
                    begin=["pascal(n - IT1, t)", "cntr_split(newi, coluse, 0, IT1, IT1 + 1)", "C_nonneg(n - IT1 - 1, t - 1)"],
                    end=["cntr_split(newi, coluse, 0, IT1 - 1, IT1)"],
                    exit=["rkp_rkc(newi, coluse, 0, n, colors[i])"]),
            2: dict(types={"new": "L(int)"},
                    inv=["len(new) == old(n)", "si == cntr(g_new, 0, 0, IT2)",
                         "all(new[j] == g_new[j] for j in range(IT2, old(n)))",
                         "all(new[j] == (g_new[j] if g_new[j] != 0 else newi[cntr(g_new, 0, 0, j)]) for j in range(0, IT2))"],
                    begin=["cntr_split(g_new, 0, 0, IT2, old(n))", "cntr_split(g_new, 0, 0, IT2, IT2 + 1)"]),
        },
    ),
}
