_h, _l, _s, _v, _t = "structure_data['HNF']", "structure_data['L']", "structure_data['diag']", "system_data['plattice']", "system_data['dvecs']"
_a, _b, _c, _d, _e, _f = [_h + x for x in ("[0][0]", "[1][0]", "[1][1]", "[2][0]", "[2][1]", "[2][2]")]
_lists = ["len(a_bas) == len(g_indx)", "ic == len(g_indx)", "all(g_indx[p] == gat(%s, %s, %s, p) for p in range(len(g_indx)))" % (_h, _l, _s),
          "all(len(a_bas[p]) == 3 and a_bas[p][0] == bat(%s, %s, %s, p, 0) and a_bas[p][1] == bat(%s, %s, %s, p, 1) and a_bas[p][2] == bat(%s, %s, %s, p, 2) for p in range(len(a_bas)))"
          % ((_h, _v, _t) * 3)]
_types = {"g_indx": "L(int)", "a_bas": "L(L(real))"}

_lab = "structure_data['labeling']"
_fill = dict(types={"x": "L(real)", "spin": "L(int)"},
             inv=["len(x) == k", "len(spin) == IT", "all(spin[q] == occupation(int(%s[g_indx[q]]), k) for q in range(IT))" % _lab,
                  "all(x[t] == labcount(%s, g_indx, t, IT) for t in range(k))" % _lab],
             begin=["gat_range(%s, %s, %s, IT, n_d)" % (_h, _l, _s)])

CONTRACTS = {
    "phenum/vector_utils.py:map_enumStr_to_real_space": dict(
        params={"system_data": "D(plattice=CL(3,CL(3,real)),dvecs=L(L(real)),nD=int,k=int,eps=real)",
                "structure_data": "D(n=int,HNF=CL(3,CL(3,int)),diag=CL(3,int),L=CL(3,CL(3,int)),labeling=L(str))", "minkowskiReduce": "const(False)"},
        returns="D(sLV=CL(3,CL(3,real)),aBas=L(L(real)),spin=L(int),gIndx=L(int),x=L(real))",
        requires=["%s >= 1" % x for x in (_a, _c, _f)] + [_h + "[0][1] == 0", _h + "[0][2] == 0", _h + "[1][2] == 0", "structure_data['n'] == cellsize(%s)" % _h,
                  "system_data['nD'] == len(%s)" % _t, "system_data['nD'] >= 1", "all(len(v) == 3 for v in %s)" % _t, "system_data['eps'] > 0", "system_data['k'] >= 1",
                  "%s[0] >= 1 and %s[1] >= 1 and %s[2] >= 1" % (_s, _s, _s), "%s[0] * %s[1] * %s[2] == structure_data['n']" % (_s, _s, _s),
                  "len(structure_data['labeling']) == structure_data['n'] * system_data['nD']",
                  "all(0 <= int(x) and int(x) < system_data['k'] for x in structure_data['labeling'])"],
        ensures=["len(result['aBas']) == structure_data['n'] * system_data['nD']", "len(result['gIndx']) == structure_data['n'] * system_data['nD']",
                 "all(result['gIndx'][p] == gat(%s, %s, %s, p) for p in range(len(result['gIndx'])))" % (_h, _l, _s),
                 ("forall(lambda p: implies(0 <= p and p < len(result['gIndx']), 0 <= result['gIndx'][p] and result['gIndx'][p] < structure_data['n'] * system_data['nD']))",
                  ["gat_range(%s, %s, %s, p, system_data['nD'])" % (_h, _l, _s)]),
                 "all(result['aBas'][p][i] == bat(%s, %s, %s, p, i) for p in range(len(result['aBas'])) for i in range(3))" % (_h, _v, _t),
                 "all(result['spin'][p] == occupation(int(structure_data['labeling'][result['gIndx'][p]]), system_data['k']) for p in range(len(result['gIndx'])))",
                 "len(result['spin']) == len(result['gIndx'])", "len(result['x']) == system_data['k']",
                 "all(result['x'][t] * (structure_data['n'] * system_data['nD']) == labcount(structure_data['labeling'], result['gIndx'], t, len(result['gIndx'])) for t in range(system_data['k']))",
                 "all(all(result['sLV'][j][i] == %s[i][0] * %s[0][j] + %s[i][1] * %s[1][j] + %s[i][2] * %s[2][j] for i in range(3)) for j in range(3))" % (_v, _h, _v, _h, _v, _h)],
        ghosts={"g_r": "CL(3,CL(3,int))"},
        ensures_ghost=[("forall(lambda p, q: implies(0 <= p and p < q and q < len(result['gIndx']) and smith(%s, %s, g_r, %s), result['gIndx'][p] != result['gIndx'][q]))" % (_l, _h, _s),
                        ["if result['gIndx'][p] == result['gIndx'][q]: gat_injective(%s, %s, g_r, %s, p, q, system_data['nD'])" % (_h, _l, _s)])],
        loops={
            0: dict(types=_types, inv=["len(g_indx) == ((IT0 * %s) * %s) * %s" % (_a, _c, _f)] + _lists),
            1: dict(types=_types, inv=["len(g_indx) == ((iD * %s + IT1) * %s) * %s" % (_a, _c, _f)] + _lists,
                    begin=["lo2_def(%s, %s, z1)" % (_a, _b)]),
            2: dict(types=_types, inv=["len(g_indx) == ((iD * %s + z1) * %s + IT2) * %s" % (_a, _c, _f)] + _lists,
                    begin=["lo3_def(%s, %s, %s, %s, %s, z1, z2)" % (_a, _b, _c, _d, _e)]),
            3: dict(types=_types, inv=["len(g_indx) == ((iD * %s + z1) * %s + (z2 - lo2(%s, %s, z1))) * %s + IT3" % (_a, _c, _a, _b, _f)] + _lists,
                    begin=["at_point(%s, %s, %s, %s, %s, iD, z1, z2, z3, len(g_indx))" % (_h, _l, _s, _v, _t)]),
            4: dict(types={"x": "L(real)"}, inv=["len(x) == IT", "all(v == 0 for v in x)"]),
            5: _fill, 6: _fill,
        }),
}