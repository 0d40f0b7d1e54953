"""C10: Smith normal form and its transforms."""
import copy
import numpy as np
from phenum import grouptheory
import crystal as X

LIMIT = 30


def mul(P, Q):
    return [[sum(P[i][k] * Q[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def whole(m):
    return all(int(x) == x for r in m for x in r)


def snf(H, how="list"):
    arg = copy.deepcopy(H)
    if how == "array":
        arg = np.array(H)
    elif how == "float":
        arg = [[float(x) for x in r] for r in H]
    S, L, R = grouptheory.SmithNormalForm(arg)
    if not (whole(S) and whole(L) and whole(R)):
        return "entries are not integers: %s %s %s" % (S, L, R)
    S, L, R = ([[int(x) for x in r] for r in m] for m in (S, L, R))
    if [[int(x) for x in r] for r in arg] != H:
        return "the matrix %s is changed" % H
    if any(S[i][j] for i in range(3) for j in range(3) if i != j):
        return "%s: not diagonal: %s" % (H, S)
    d = [S[i][i] for i in range(3)]
    if min(d) < 1 or d[1] % d[0] or d[2] % d[1]:
        return "%s: diagonal %s" % (H, d)
    if mul(mul(L, H), R) != S:
        return "%s: left times matrix times right is %s, not %s" % (H, mul(mul(L, H), R), S)
    if abs(det(L)) != 1 or abs(det(R)) != 1:
        return "%s: determinants %s %s" % (H, det(L), det(R))


def pivot(v):
    lo, hi = grouptheory._find_minmax_indices(list(v))
    a = [abs(x) for x in v]
    if a[lo] != min(x for x in a if x) or a[hi] != max(a):
        return "%s: positions %s %s" % (v, lo, hi)
    if sum(1 for x in a if x) > 1 and lo == hi:
        return "%s: same position twice" % v


CHECKS = {"snf": snf, "pivot": pivot}


def cases(ctx):
    for n in range(1, 25):
        hs = X.all_hnf(n)
        if n > 12 and not ctx.thorough:
            hs = hs[::7]
        for H in hs:
            yield "snf", [H]
    for H in ([[2, 1, 0], [0, 3, 1], [1, 0, 4]], [[0, 1, 0], [0, 0, 1], [5, 0, 0]], [[6, 4, 2], [2, 8, 4], [4, 2, 10]],
              [[0, 0, 3], [2, 0, 0], [0, 2, 0]], [[1, 2, 3], [4, 5, 6], [7, 8, 10]], [[-2, 0, 0], [0, -3, 0], [0, 0, 4]]):
        if det(H) > 1:
            yield "snf", [H]
            yield "snf", [H, "array"]
            yield "snf", [H, "float"]
    for v in ([0, 0, 5], [5, 0, 0], [2, -2, 2], [0, 3, -3], [1, 0, 1], [-4, 7, 7], [7, 7, -4]):
        yield "pivot", [v]
    ctx.random_part = True
    r = ctx.rng
    while True:
        m = r.choice([4, 9, 20, 60, 300, 5000])
        if r.random() < .6:
            a, c, f = (r.randint(1, m) for _ in range(3))
            if r.random() < .5:
                g = r.randint(2, 6)
                a, c, f = (r.choice([1, g, x]) for x in (a, c, f))
            H = [[a, 0, 0], [r.randint(0, c - 1), c, 0], [r.randint(0, f - 1), r.randint(0, f - 1), f]]
        else:
            m = min(m, 60)
            H = [[r.randint(-m, m) if r.random() < .8 else 0 for _ in range(3)] for _ in range(3)]
            if det(H) < 2:
                continue
        yield "snf", [H, r.choice(["list", "list", "array", "float"])]
        v = [r.randint(-6, 6) for _ in range(3)]
        if any(v):
            yield "pivot", [v]
