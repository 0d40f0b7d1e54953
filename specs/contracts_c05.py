CONTRACTS = {
    "phenum/phonons.py:_ahash": dict(
        params={"coloring": "L(int)", "dim": "int"}, returns="int",
        requires=["dim >= 1"],
        ensures=["result == ah(coloring, dim, len(coloring))",
                 "implies(all(0 <= x and x < dim for x in coloring), 0 <= result and result < pw(dim, len(coloring)))"],
        end=["if all(0 <= x and x < dim for x in coloring): ah_bound(coloring, dim, len(coloring))"],
        loops={0: dict(inv=["ACC == ah(coloring, dim, IT)"])},
    ),
    "phenum/phonons.py:_ainvhash": dict(
        params={"anum": "int", "num_of_arrows": "int", "dim": "int"}, returns="L(int)",
        requires=["dim >= 1", "num_of_arrows >= 0", "0 <= anum", "anum < pw(dim, num_of_arrows)"],
        ensures=["len(result) == num_of_arrows", "all(0 <= x and x < dim for x in result)",
                 "ah(result, dim, num_of_arrows) == anum"],
        end=["ah_split(result, dim, num_of_arrows)"],
        loops={0: dict(inv=["anum >= 0", "anum < pw(dim, num_of_arrows - IT)", "len(arrows) == num_of_arrows",
                            "all(0 <= arrows[j] and arrows[j] < dim for j in range(num_of_arrows - IT, num_of_arrows))",
                            "anum + aseg(arrows, dim, num_of_arrows - IT, num_of_arrows) == old(anum)"],
                       begin=["digit_bound(anum, pw(dim, num_of_arrows - 1 - IT), dim)"])},
    ),
}
