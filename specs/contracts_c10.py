_det = ["det(A) == 1 or det(A) == -1", "det(B) == 1 or det(B) == -1", "det(M) == det(HNF) or det(M) == -det(HNF)"]
_one = "implies(j == 1, M[0][0] != 0 and M[0][1] == 0 and M[0][2] == 0 and M[1][0] == 0 and M[2][0] == 0)"
_div = "implies(j == 1, M[1][1] % M[0][0] == 0 and M[1][2] % M[0][0] == 0 and M[2][1] % M[0][0] == 0 and M[2][2] % M[0][0] == 0)"
_inv = ["product(A, HNF, B, M)", _one, _div] + _det
_stop = "implies(stop_loop, j == 1 and M[1][1] != 0 and M[1][2] == 0 and M[2][1] == 0 and M[2][2] % M[1][1] == 0)"
_inner = [(1, 1), (1, 2), (2, 1), (2, 2)]

CONTRACTS = {
    "phenum/grouptheory.py:_find_minmax_indices": dict(
        params={"invec": "CL(3,int)"}, returns="Tup(int,int)",
        requires=["invec[0] != 0 or invec[1] != 0 or invec[2] != 0"],
        ensures=["0 <= result[0] and result[0] <= 2", "0 <= result[1] and result[1] <= 2", "invec[result[0]] != 0", "invec[result[1]] != 0",
                 "all(invec[k] == 0 or abs(invec[result[0]]) <= abs(invec[k]) for k in range(3))",
                 "all(abs(invec[result[1]]) >= abs(invec[k]) for k in range(3))",
                 "all(implies(k < result[0], invec[k] == 0 or abs(invec[k]) > abs(invec[result[0]])) for k in range(3))",
                 "all(implies(k > result[1], abs(invec[k]) < abs(invec[result[1]])) for k in range(3))"]),
    "phenum/grouptheory.py:get_full_HNF": dict(
        params={"HNF": "CL(6,int)"}, returns="CL(3,CL(3,int))",
        ensures=["result[0][0] == HNF[0]", "result[0][1] == 0", "result[0][2] == 0", "result[1][0] == HNF[1]", "result[1][1] == HNF[2]", "result[1][2] == 0",
                 "result[2][0] == HNF[3]", "result[2][1] == HNF[4]", "result[2][2] == HNF[5]"]),
    "phenum/grouptheory.py:SmithNormalForm": dict(
        params={"HNF": "CL(3,CL(3,int))"}, returns="Tup(CL(3,CL(3,int)),CL(3,CL(3,int)),CL(3,CL(3,int)))",
        split=True, reveal=["trip", "det9"],
        raises={"ValueError": "det(HNF) < 1", "RuntimeError": True},
        ensures=["product(result[1], HNF, result[2], result[0])", "det(result[1]) == 1 or det(result[1]) == -1", "det(result[2]) == 1 or det(result[2]) == -1",
                 "all(all(implies(i != k, result[0][i][k] == 0) for k in range(3)) for i in range(3))",
                 "result[0][2][2] >= 0",
                 "result[0][1][1] % result[0][0][0] == 0", "result[0][2][2] % result[0][1][1] == 0"],
        begin=["identities(HNF)", "det_id()"],
        loops={
            1: dict(inv=["j == 0 or j == 1", _stop] + _inv,
                    exit=["dvd_neg(M[1][1], M[2][2])"],
                    end=["dvd_neg(M[0][0], M[%d][%d])" % x for x in _inner] + ["dvd_sum(M[0][0], M[1][%d], M[2][%d])" % (k, k) for k in (1, 2)]),
            2: dict(inv=_inv,
                    begin=["g_A = [list(r) for r in A]", "g_M = [list(r) for r in M]"],
                    end=["row_comb(g_A[maxidx], g_A[minidx], mult, HNF, B[0][0], B[1][0], B[2][0])",
                         "row_comb(g_A[maxidx], g_A[minidx], mult, HNF, B[0][1], B[1][1], B[2][1])",
                         "row_comb(g_A[maxidx], g_A[minidx], mult, HNF, B[0][2], B[1][2], B[2][2])"] +
                        ["dvd_comb(M[0][0], g_M[maxidx][%d], g_M[minidx][%d], mult)" % (k, k) for k in (1, 2)]),
            3: dict(inv=_inv,
                    begin=["g_B = [list(r) for r in B]", "g_M = [list(r) for r in M]"],
                    end=["col_comb(A[0], HNF, g_B[0][maxidx], g_B[1][maxidx], g_B[2][maxidx], mult, g_B[0][minidx], g_B[1][minidx], g_B[2][minidx])",
                         "col_comb(A[1], HNF, g_B[0][maxidx], g_B[1][maxidx], g_B[2][maxidx], mult, g_B[0][minidx], g_B[1][minidx], g_B[2][minidx])",
                         "col_comb(A[2], HNF, g_B[0][maxidx], g_B[1][maxidx], g_B[2][maxidx], mult, g_B[0][minidx], g_B[1][minidx], g_B[2][minidx])"] +
                        ["dvd_comb(M[0][0], g_M[%d][maxidx], g_M[%d][minidx], mult)" % (k, k) for k in (1, 2)]),
        }),
}
