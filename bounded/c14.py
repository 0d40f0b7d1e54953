"""C14: the symmetry group of a supercell."""
import copy
import numpy as np
from phenum import grouptheory
import crystal as X

LIMIT = 60


def group(A, basis, H, arrows):
    bc = X.cart(A, basis)
    h0 = copy.deepcopy(H)
    g = grouptheory.get_sym_group(np.array(A), [list(b) for b in bc], H, 3, arrows=arrows)
    if H != h0:
        return "the supercell matrix is changed"
    sites = [tuple(int(x) for x in p) for p in g.perm.site_perm]
    dirs = [tuple(int(x) for x in p) for p in g.perm.arrow_perm]
    M, L, R = grouptheory.SmithNormalForm(copy.deepcopy(H))
    D = [int(M[i][i]) for i in range(3)]
    want, trans = X.supercell_group(A, basis, H, L, D, arrows)
    if want is None:
        return None
    n = abs(X.inv_int(H)[1])
    N = n * len(basis)
    if len(sites) != len(dirs):
        return "%d site and %d direction permutations" % (len(sites), len(dirs))
    for p in sites:
        if sorted(p) != list(range(N)):
            return "not a permutation of %d sites: %s" % (N, p)
    ops = list(zip(sites, dirs))
    if len(set(ops)) != len(ops):
        return "an operation is listed twice (%d listed, %d different)" % (len(ops), len(set(ops)))
    if sites[0] != tuple(range(N)) or dirs[0] != tuple(range(6)):
        return "the first operation is not the identity"
    if set(sites[:n]) != trans or any(d != tuple(range(6)) for d in dirs[:n]):
        return "the first %d operations are not the lattice translations" % n
    got = set(ops)
    if got != want:
        extra, missing = got - want, want - got
        return "%d operations, expected %d; %d wrong, %d missing, e.g. %s" % (len(got), len(want), len(extra), len(missing), sorted(extra or missing)[:1])
    base = ops[:n + 1] + ops[-3:] + ops[n::max(1, len(ops) // 12)]
    for p, a in base:
        for q, b in ops:
            c = (tuple(p[i] for i in q), tuple(b[x] for x in a))
            if c not in got:
                return "the product of two operations is not listed"


def full(h):
    got = grouptheory.get_full_HNF(h)
    want = [[h[0], 0, 0], [h[1], h[2], 0], [h[3], h[4], h[5]]]
    a = grouptheory.get_full_HNF(np.array(h))
    if [list(map(int, r)) for r in got] != want or [list(map(int, r)) for r in a] != want:
        return "matrix of %s is %s / %s" % (h, got, a)


def members(d):
    import itertools
    got = [tuple(int(x) for x in v) for v in grouptheory._make_member_list(d)]
    want = list(itertools.product(range(d[0]), range(d[1]), range(d[2])))
    if got != want:
        return "member list of %s is wrong" % d


CHECKS = {"group": group, "full": full, "members": members}


def cases(ctx):
    for name in X.LATTICES:
        for H in X.all_hnf(2) + X.all_hnf(3)[::3] + X.all_hnf(4)[::5]:
            for b in (X.BASES[0], X.BASES[1]):
                yield "group", [X.shape(name), b, H, False]
    for name in X.AXIAL:
        for H in X.all_hnf(2) + X.all_hnf(3)[::3] + X.all_hnf(4)[::5]:
            for b in (X.BASES[0], X.BASES[1]):
                yield "group", [X.shape(name), b, H, True]
    for d in ([1, 1, 1], [1, 1, 2], [1, 2, 2], [1, 2, 6], [2, 2, 2], [1, 1, 7], [2, 4, 4], [3, 3, 3], [1, 3, 6], [2, 2, 4]):
        yield "members", [d]
    ctx.random_part = True
    r = ctx.rng
    while True:
        arrows = r.random() < .45
        name = r.choice(X.AXIAL if arrows else list(X.LATTICES))
        A = X.shape(name)
        b = r.choice(X.BASES)
        if r.random() < .3:
            A, b, U = X.skew(r, A, b)
            b = [[x % 1.0 for x in v] for v in b]
            b = [[0.0 if abs(x) < 1e-9 or abs(x - 1) < 1e-9 else x for x in v] for v in b]
        s = r.choice([1, 1, 1, 2, .3])
        A = (np.array(A) * s).tolist()
        n = r.choice([1, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 10, 12])
        while n * len(b) > 24:
            n -= 1
        yield "group", [A, b, r.choice(X.all_hnf(n)), arrows]
        yield "full", [[r.randint(0, 20) for _ in range(6)]]
        a = r.randint(1, 3)
        c = a * r.randint(1, 3)
        yield "members", [[a, c, c * r.randint(1, 4)]]
