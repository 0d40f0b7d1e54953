_pairs = "all(len(r) == 2 for r in %s)"
CONTRACTS = {
    "phenum/phonons.py:_col_sort": dict(
        params={"col_list": "L(L(int))"}, returns="L(L(int))", counters=["pcnt"],
        requires=[_pairs % "col_list"],
        ensures=["len(result) == len(col_list)", _pairs % "result",
                 "forall(lambda x, y: pcnt(result, x, y, len(result)) == pcnt(col_list, x, y, len(col_list)))",
                 "all(all(implies(result[i][0] >= 0, result[j][0] >= 0) for i in range(j)) for j in range(len(result)))"],
        loops={0: dict(types={"col1": "L(L(int))", "col2": "L(L(int))"},
                       inv=["len(col1) + len(col2) == IT", _pairs % "col1", _pairs % "col2", "all(r[0] < 0 for r in col1)", "all(r[0] >= 0 for r in col2)",
                            "forall(lambda x, y: pcnt(col1, x, y, len(col1)) + pcnt(col2, x, y, len(col2)) == pcnt(col_list, x, y, IT))"]),
               1: dict(types={"colt": "L(L(int))"}, inv=["len(colt) == IT", _pairs % "colt", "all(r[0] < 0 for r in colt)", "forall(lambda x, y: pcnt(colt, x, y, len(colt)) == pcnt(col1, x, y, IT))"]),
               2: dict(inv=["len(colt) == IT + len(col1)", _pairs % "colt", "all(colt[q][0] < 0 for q in range(len(col1)))", "all(colt[q][0] >= 0 for q in range(len(col1), len(colt)))",
                            "forall(lambda x, y: pcnt(colt, x, y, len(colt)) == pcnt(col1, x, y, len(col1)) + pcnt(col2, x, y, IT))"])}),
    # atoms of species i + 1: the wanted number of them with an arrow (1), the others without (-1)
    "phenum/phonons.py:arrow_concs": dict(
        params={"cList": "L(int)", "aconcs": "L(real)"}, returns="L(L(int))",
        requires=["len(aconcs) == len(cList)", "all(c >= 0 for c in cList)", "all(0 <= a and a <= 1 for a in aconcs)"],
        ensures=["len(result) == suml(cList, len(cList))", _pairs % "result",
                 "all(pcnt(result, 1, i + 1, len(result)) == int(cList[i] * aconcs[i]) for i in range(len(cList)))",
                 "all(pcnt(result, -1, i + 1, len(result)) == cList[i] - int(cList[i] * aconcs[i]) for i in range(len(cList)))",
                 "all(all(implies(result[i][0] >= 0, result[j][0] >= 0) for i in range(j)) for j in range(len(result)))"],
        loops={0: dict(types={"decoration_w_arrows": "L(L(int))"}, 
                       inv=["len(decoration_w_arrows) == suml(cList, IT)", _pairs % "decoration_w_arrows",
                            "all(pcnt(decoration_w_arrows, 1, i + 1, len(decoration_w_arrows)) == (int(cList[i] * old(aconcs)[i]) if i < IT else 0) for i in range(len(cList)))",
                            "all(pcnt(decoration_w_arrows, -1, i + 1, len(decoration_w_arrows)) == (cList[i] - int(cList[i] * old(aconcs)[i]) if i < IT else 0) for i in range(len(cList)))"],
                       begin=["floor_scaled(cList[IT], old(aconcs)[IT])"]),
               1: dict(decreases="na", inv=["0 <= na", "na <= ns", "na + cList[i] == ns + ac_i", "len(decoration_w_arrows) == suml(cList, i) + ac_i - na", _pairs % "decoration_w_arrows",
                            "all(pcnt(decoration_w_arrows, 1, j + 1, len(decoration_w_arrows)) == (int(cList[j] * old(aconcs)[j]) if j < i else (ac_i - na if j == i else 0)) for j in range(len(cList)))",
                            "all(pcnt(decoration_w_arrows, -1, j + 1, len(decoration_w_arrows)) == (cList[j] - int(cList[j] * old(aconcs)[j]) if j < i else 0) for j in range(len(cList)))"]),
               2: dict(decreases="ns", inv=["0 <= ns", "len(decoration_w_arrows) == suml(cList, i) + cList[i] - ns", _pairs % "decoration_w_arrows",
                            "all(pcnt(decoration_w_arrows, 1, j + 1, len(decoration_w_arrows)) == (int(cList[j] * old(aconcs)[j]) if j <= i else 0) for j in range(len(cList)))",
                            "all(pcnt(decoration_w_arrows, -1, j + 1, len(decoration_w_arrows)) == (cList[j] - int(cList[j] * old(aconcs)[j]) if j < i else (cList[i] - ac_i - ns if j == i else 0)) for j in range(len(cList)))"]),
               3: dict(inv=["False"])}),
    "phenum/io_utils.py:create_labeling#plain": dict(
        params={"config": "L(int)"}, returns="Tup(str,str)", requires=["len(config) >= 1"],
        ensures=["result[0] == species_text(config, len(config))", "result[1] == zeros_text(len(config))"],
        loops={1: dict(inv=["label == species_text(config, IT)", "arrow == zeros_text(IT)"])}),
    "phenum/io_utils.py:create_labeling#arrows": dict(
        params={"config": "L(L(int))"}, returns="Tup(str,str)", requires=["len(config) >= 1", _pairs % "config"],
        ensures=["result[0] == pair_text(config, 1, -1, len(config))", "result[1] == pair_text(config, 0, 1, len(config))"],
        loops={0: dict(inv=["label == pair_text(config, 1, -1, IT)", "arrow == pair_text(config, 0, 1, IT)"])}),
}
