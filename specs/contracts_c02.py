_reg = "det9(%s[0][0], %s[0][1], %s[0][2], %s[1][0], %s[1][1], %s[1][2], %s[2][0], %s[2][1], %s[2][2]) != 0"
_lat = ", ".join("%s[%d][%d]" % (x, i, j) for x in ("lat1", "lat2") for i in range(3) for j in range(3))


def reg(x):
    return _reg.replace("%s", x)


def shape(x):
    return "len(%s) == 3 and all(len(%s[k]) == 3 for k in range(3))" % (x, x)


CONTRACTS = {
    "phenum/grouptheory.py:_is_equiv_lattice": dict(
        params={"lat1": "CL(3,CL(3,real))", "lat2": "CL(3,CL(3,real))", "eps": "real"}, returns="bool",
        requires=[reg("lat1"), "eps > 0"],
        ensures=["result == same_lattice(%s, eps)" % _lat],
        end=["regular(l_lat1inv, lat1, l_S, lat2)", "same_meaning(lat1, l_S, lat2, eps)", "unimodular_def(l_S, eps)"], det="det9"),
    "phenum/grouptheory.py:_get_sLV_fixing_operations": dict(
        params={"HNF": "CL(3,CL(3,int))", "pLV": "CL(3,CL(3,real))", "rot": "L(L(L(real)))", "shift": "L(L(real))",
                "dPerm": "D(_cls='RotPermList', v=L(L(L(int))))", "eps": "real"},
        returns="Tup(D(_cls='OpList',rot=L(L(L(real))),shift=L(L(real))),D(_cls='RotPermList',v=L(L(L(int))),RotIndx=L(int)),int)",
        requires=[reg("HNF"), reg("pLV"), "eps > 0", "len(shift) == len(rot)", "len(dPerm.v) == len(rot)",
                  "all(%s and %s for r in rot)" % (shape("r"), reg("r"))],
        ensures=["len(result[0].rot) == len(result[1].RotIndx)", "len(result[0].shift) == len(result[1].RotIndx)", "len(result[1].v) == len(result[1].RotIndx)",
                 "all(0 <= result[1].RotIndx[q] and result[1].RotIndx[q] < len(rot) for q in range(len(result[1].RotIndx)))",
                 "all(all(result[1].RotIndx[p] < result[1].RotIndx[q] for p in range(q)) for q in range(len(result[1].RotIndx)))",
                 "all(related(rot[result[1].RotIndx[q]], pLV, HNF, HNF, eps) for q in range(len(result[1].RotIndx)))",
                 "all(implies(related(rot[i], pLV, HNF, HNF, eps), exists(lambda q: 0 <= q and q < len(result[1].RotIndx) and result[1].RotIndx[q] == i)) for i in range(len(rot)))",
                 "all(result[0].rot[q] == rot[result[1].RotIndx[q]] and result[0].shift[q] == shift[result[1].RotIndx[q]] and result[1].v[q] == dPerm.v[result[1].RotIndx[q]] for q in range(len(result[1].RotIndx)))",
                 "0 <= result[2] and result[2] <= len(rot)"],
        begin=["g_w = []"],
        loops={0: dict(types={"g_w": "L(int)", "tmp_op_rot": "L(L(L(real)))", "tmp_op_shift": "L(L(real))", "tv": "L(L(L(int)))", "t_index": "L(int)"},
                       begin=["related_def(rot[iRot], pLV, HNF, HNF, eps)", "product(rot[iRot], pLV, HNF)"],
                       end=["g_w = g_w + [len(t_index) - 1]"],
                       inv=["0 <= c_degen", "c_degen <= IT", "len(tmp_op_rot) == len(t_index)", "len(tmp_op_shift) == len(t_index)", "len(tv) == len(t_index)", "len(t_index) <= IT",
                            "all(0 <= t_index[q] and t_index[q] < IT for q in range(len(t_index)))",
                            "all(all(t_index[p] < t_index[q] for p in range(q)) for q in range(len(t_index)))",
                            "all(related(rot[t_index[q]], pLV, HNF, HNF, eps) for q in range(len(t_index)))",
                            "len(g_w) == IT", "all(implies(related(rot[i], pLV, HNF, HNF, eps), 0 <= g_w[i] and g_w[i] < len(t_index) and t_index[g_w[i]] == i) for i in range(IT))",
                            "all(tmp_op_rot[q] == rot[t_index[q]] and tmp_op_shift[q] == shift[t_index[q]] and tv[q] == dPerm.v[t_index[q]] for q in range(len(t_index)))",
                            "len(degen_lattices) == len(rot)", "all(%s and %s for i in range(c_degen))" % (shape("degen_lattices[i]"), reg("degen_lattices[i]"))]),
               1: dict()}),
    "phenum/symmetry.py:get_spaceGroup": dict(
        params={"par_lat": "CL(3,CL(3,real))", "atomType": "L(int)", "bas_vecs": "L(L(real))", "eps": "real"}, returns="Tup(L(L(L(real))),L(L(real)))",
        requires=["len(atomType) == len(bas_vecs)", "all(t == 1 for t in atomType)"],
        ensures=["len(result[0]) == len(result[1])", "len(result[0]) == group_order(par_lat, bas_vecs, eps)", "all(%s and %s for r in result[0])" % (shape("r"), reg("r"))],
        assumed="the space group search of the parent crystal returns regular 3x3 rotations, as many as shifts and as many as the basis permutations built from it; exercised by the bounded runs of C02 and C14"),
    "phenum/HNFs.py:remove_duplicate_lattices": dict(
        params={"hnfs": "L(L(L(int)))", "pLV": "CL(3,CL(3,real))", "base_vecs": "L(L(real))", "base_perms": "D(_cls='RotPermList', v=L(L(L(int))))", "eps_": "real"},
        returns="Tup(L(L(L(int))),L(obj),L(obj),L(int))",
        requires=[reg("pLV"), "eps_ > 0", "all(%s and %s for h in hnfs)" % (shape("h"), reg("h")), "len(base_perms.v) == group_order(pLV, base_vecs, eps_)"],
        ensures=["all(exists(lambda i: 0 <= i and i < len(hnfs) and result[0][q] == hnfs[i]) for q in range(len(result[0])))",
                 "all(all(all(not related(l_rots[r], pLV, result[0][q], result[0][p], eps_) for r in range(len(l_rots))) for p in range(q)) for q in range(len(result[0])))",
                 "all(exists(lambda q: 0 <= q and q < len(result[0]) and (result[0][q] == hnfs[i] or exists(lambda r: 0 <= r and r < len(l_rots) and related(l_rots[r], pLV, hnfs[i], result[0][q], eps_)))) for i in range(len(hnfs)))",
                 "len(result[1]) == len(result[0])", "len(result[2]) == len(result[0])", "len(result[3]) == len(result[0])"],
        begin=["g_i = []", "g_c = []", "g_r = []", "g_a = 0", "g_b = 0"],
        loops={0: dict(types={"uhnfs": "L(L(L(int)))", "g_i": "L(int)", "g_c": "L(int)", "g_r": "L(int)"},
                       end=["g_i = g_i + ([] if duplicate else [IT - 1])", "g_c = g_c + [g_a if duplicate else len(uhnfs) - 1]", "g_r = g_r + [g_b]"],
                       inv=["len(g_i) == len(uhnfs)", "len(g_c) == IT", "len(g_r) == IT", "all(0 <= g_i[q] and g_i[q] < IT and uhnfs[q] == hnfs[g_i[q]] for q in range(len(uhnfs)))",
                            "all(all(all(not related(rots[r], pLV, uhnfs[q], uhnfs[p], eps) for r in range(len(rots))) for p in range(q)) for q in range(len(uhnfs)))",
                            "all(0 <= g_c[i] and g_c[i] < len(uhnfs) and (uhnfs[g_c[i]] == hnfs[i] or (0 <= g_r[i] and g_r[i] < len(rots) and related(rots[g_r[i]], pLV, hnfs[i], uhnfs[g_c[i]], eps))) for i in range(IT))"]),
               1: dict(inv=["not duplicate", "all(all(not related(rots[r], pLV, hnf_i, uhnfs[q], eps) for r in range(len(rots))) for q in range(IT))"]),
               2: {"inv": ["not duplicate", "all(not related(rots[r], pLV, hnf_i, hnf_j, eps) for r in range(IT))"],
                   "begin": ["related_def(r, pLV, hnf_i, hnf_j, eps)", "product(r, pLV, hnf_i)"], "break": ["g_a = IT1", "g_b = IT2"]},
               3: dict(types={"latts": "L(L(L(real)))", "fix_ops": "L(obj)", "rp_list": "L(obj)", "degens": "L(int)"},
                       inv=["len(fix_ops) == IT", "len(rp_list) == IT", "len(degens) == IT"])}),
}
