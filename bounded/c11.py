"""C11: real-space atoms and their label positions."""
import copy
import numpy as np
from phenum import grouptheory, vector_utils
import crystal as X

LIMIT = 60


def place(A, basis, H, k, labels, reduce_):
    bc = X.cart(A, basis)
    snf, L, R = grouptheory.SmithNormalForm(copy.deepcopy(H))
    S = [int(snf[i][i]) for i in range(3)]
    n = S[0] * S[1] * S[2]
    nD = len(basis)
    P = np.array(A, float).T
    sysd = {"plattice": P.tolist(), "dvecs": [list(map(float, b)) for b in bc], "title": "t", "bulksurf": "bulk", "nD": nD, "k": k, "eps": 1e-8}
    strd = {"n": n, "HNF": copy.deepcopy(H), "diag": list(S), "L": [[int(x) for x in r] for r in L], "labeling": labels, "directions": "0" * (n * nD)}
    got = vector_utils.map_enumStr_to_real_space(sysd, strd, reduce_)
    N = n * nD
    at, g = got["aBas"], [int(x) for x in got["gIndx"]]
    if len(at) != N or len(g) != N:
        return "%d atoms, %d positions, %d sites" % (len(at), len(g), N)
    if sorted(g) != list(range(N)):
        return "positions %s" % g
    adj, dt = X.inv_int(H)
    where = {}
    Pi = np.linalg.inv(P)
    for a, gi in zip(at, g):
        found = None
        for d in [gi // n]:
            z = Pi @ (np.array(a, float) - np.array(bc[d], float))
            zi = np.rint(z)
            if np.allclose(z, zi, atol=1e-5):
                found = [int(x) for x in zi]
        if found is None:
            return "atom %s is not on a lattice point plus basis vector %d" % (list(a), gi // n)
        cls = (gi // n,) + tuple(int(x) % dt for x in adj @ np.array(found, dtype=object))
        if cls in where:
            return "two atoms on equivalent places"
        where[cls] = gi
        q = [sum(int(L[i][j]) * found[j] for j in range(3)) % S[i] for i in range(3)]
        if gi != (gi // n) * n + q[0] * S[1] * S[2] + q[1] * S[2] + q[2]:
            return "atom at %s of basis vector %d has position %d" % (found, gi // n, gi)
    digit = [int(c) for c in labels]
    want = [(digit[i] - k // 2) + (1 if k % 2 == 0 and digit[i] >= k // 2 else 0) for i in g]
    if [int(x) for x in got["spin"]] != want:
        return "occupations %s instead of %s" % (list(got["spin"]), want)
    x = [digit.count(i) / float(N) for i in range(k)]
    if not np.allclose(got["x"], x, atol=1e-12):
        return "concentrations %s" % got["x"]
    T = np.linalg.inv(P @ np.array(H, float)) @ np.array(got["sLV"], float).T
    if got["sLV"] is None or not np.allclose(T, np.rint(T), atol=1e-5) or abs(abs(np.linalg.det(T)) - 1) > 1e-5:
        return "supercell vectors %s span another lattice" % got["sLV"]
    if not reduce_ and not np.allclose(np.array(got["sLV"]).T, P @ np.array(H, float), atol=1e-9):
        return "supercell vectors are changed though no reduction was asked for"


CHECKS = {"place": place}


def string(r, N, k):
    return "".join(str(r.randint(0, k - 1)) for _ in range(N))


def cases(ctx):
    import random
    fix = random.Random(5)
    names = list(X.LATTICES)
    for n in range(1, 13):
        hs = X.all_hnf(n)
        if n > 6:
            hs = hs[::5]
        for i, H in enumerate(hs):
            b = X.BASES[i % len(X.BASES)]
            k = 1 + i % 4
            yield "place", [X.shape(names[i % len(names)]), b, H, k, string(fix, n * len(b), k), bool(i % 2)]
    ctx.random_part = True
    r = ctx.rng
    while True:
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 12, 16, 18, 20, 24, 27, 30, 36, 48])
        a = r.choice([x for x in range(1, n + 1) if n % x == 0])
        c = r.choice([x for x in range(1, n // a + 1) if (n // a) % x == 0])
        f = n // a // c
        H = [[a, 0, 0], [r.randint(0, c - 1), c, 0], [r.randint(0, f - 1), r.randint(0, f - 1), f]]
        b = r.choice(X.BASES)
        k = r.randint(1, 10)
        yield "place", [X.shape(r.choice(names)), b, H, k, string(r, n * len(b), k), r.random() < .5]
