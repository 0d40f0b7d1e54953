"""C02: removal of symmetry-equivalent supercell shapes."""
import copy, itertools
import numpy as np
from phenum import HNFs, grouptheory, symmetry
import crystal as X

EPS = 1e-7
LIMIT = 60


def _code(A, basis, hs):
    bc = X.cart(A, basis)
    perms = grouptheory._get_dvector_permutations(A, [list(b) for b in bc], 3, EPS)
    return bc, HNFs.remove_duplicate_lattices(copy.deepcopy(hs), np.array(A), [list(b) for b in bc], perms, eps_=EPS)


def shapes(A, basis, hs):
    bc, (kept, ops, perms, degens) = _code(A, basis, hs)
    group = X.space_group(A, basis)
    Ws = []
    for W, t, p in group:
        if not any((W == V).all() for V in Ws):
            Ws.append(W)
    kept = [[[int(x) for x in r] for r in h] for h in kept]
    hs = [[list(r) for r in h] for h in hs]
    for h in kept:
        if h not in hs:
            return "kept shape %s is not a candidate" % h
    rel = lambda h, g: any(X.same_super(g, W @ np.array(h)) for W in Ws)
    for a, b in itertools.combinations(kept, 2):
        if rel(a, b):
            return "kept shapes %s and %s are equivalent" % (a, b)
    for h in hs:
        if not any(rel(h, k) for k in kept):
            return "shape %s is equivalent to no kept one" % h
    if not (len(ops) == len(perms) == len(degens) == len(kept)):
        return "%d shapes but %d, %d, %d records" % (len(kept), len(ops), len(perms), len(degens))
    At = np.array(A, float).T
    for h, op, dg in zip(kept, ops, degens):
        want = [W for W, t, p in group if X.same_super(h, W @ np.array(h))]
        got = [np.linalg.inv(At) @ np.array(r, float) @ At for r in op.rot]
        if any(np.abs(g - np.round(g)).max() > 1e-5 for g in got):
            return "operation of %s is no lattice rotation" % h
        key = lambda m: tuple(int(round(x)) for x in np.array(m, float).flatten())
        if sorted(map(key, got)) != sorted(map(key, want)):
            return "operations reported for %s: %d, expected %d, or different ones" % (h, len(got), len(want))
        for r, s in zip(op.rot, op.shift):
            W = np.linalg.inv(At) @ np.array(r, float) @ At
            b = np.array(basis, float)
            t = np.linalg.inv(At) @ np.array(s, float)
            for x in b:
                d = W @ x + t - b
                if not any(np.all(np.abs(e - np.round(e)) < 1e-5) for e in d):
                    return "operation reported for %s does not map the crystal onto itself" % h
        orbit = []
        for W in Ws:
            if not any(X.same_super(o, W @ np.array(h)) for o in orbit):
                orbit.append(W @ np.array(h))
        if dg != len(orbit):
            return "degeneracy of %s is %s, expected %d" % (h, dg, len(orbit))


def listed(A, basis, n):
    """The list of shapes of one size."""
    hs = HNFs.get_HNFs(n, np.array(A), X.cart(A, basis), 3)
    hs = [[[int(x) for x in r] for r in h] for h in hs]
    cand = X.all_hnf(n)
    Ws = [W for W, t, p in X.space_group(A, basis)]
    if any(h not in cand for h in hs) or any(hs.count(h) != 1 for h in hs):
        return "shapes that are no normal forms, or repeated"
    rel = lambda h, g: any(X.same_super(g, W @ np.array(h)) for W in Ws)
    for a, b in itertools.combinations(hs, 2):
        if rel(a, b):
            return "kept shapes %s and %s are equivalent" % (a, b)
    for h in cand:
        if not any(rel(h, k) for k in hs):
            return "shape %s is equivalent to no kept one" % h


CHECKS = {"shapes": shapes, "listed": listed}


def cases(ctx):
    for n in (1, 2, 3, 4):
        for name in X.LATTICES:
            A = X.shape(name)
            yield "listed", [A, [[0, 0, 0]], n]
            yield "shapes", [A, [[0, 0, 0]], X.all_hnf(n)]
            yield "shapes", [A, [[0, 0, 0], [.5, .5, .5]], X.all_hnf(n)]
    for name in ("fcc", "hex", "tet", "mono"):
        for b in X.BASES:
            yield "shapes", [X.shape(name), b, X.all_hnf(2)]
            yield "listed", [X.shape(name), b, 3]
    for name in ("sc", "fcc", "bcc", "hex", "tri"):
        for n in (5, 6, 7, 8):
            yield "listed", [X.shape(name), [[0, 0, 0]], n]
    ctx.random_part = True
    r = ctx.rng
    names = list(X.LATTICES)
    while True:
        A = X.shape(r.choice(names))
        b = r.choice(X.BASES)
        if r.random() < .4:
            A, b, U = X.skew(r, A, b)
            b = [[x % 1.0 for x in v] for v in b]
            b = [[0.0 if abs(x) < 1e-9 or abs(x - 1) < 1e-9 else x for x in v] for v in b]
        s = r.choice([1, 1, 2.5, .4])
        A = (np.array(A) * s).tolist()
        n = r.randint(1, 9)
        hs = X.all_hnf(n)
        r.shuffle(hs)
        yield "shapes", [A, b, hs[:r.choice([len(hs), len(hs), 1, 2, 5])][:40]]
        yield "listed", [A, b, r.randint(1, 6)]
