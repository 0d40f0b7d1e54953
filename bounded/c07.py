"""C07: a full enumeration against the orbits."""
import itertools
import combin as K
import crystal as X
import enumsys as E

LIMIT = 100


def full(A, basis, H, concs, fracs, supers, extra=0):
    arr, ops, n, types = E.setup(A, basis, H, concs, fracs)
    if ops is None:
        return None
    total = K.burnside(types, ops, 6)
    got = E.run(A, basis, H, concs, fracs, total + extra, supers)
    what = "counts %s arrows %s supercell %s: " % (concs, arr, H)
    seen = {}
    for s in got:
        if len(s) != sum(concs):
            return what + "%d sites" % len(s)
        k = K.canon(s, ops)
        if k in seen:
            return what + "two structures are equivalent: %s and %s" % (seen[k], s)
        seen[k] = s
        if not supers and E.periodic(s, ops, n):
            return what + "%s is superperiodic" % (s,)
    if supers:
        if len(got) != total:
            return what + "%d structures, predicted %d" % (len(got), total)
    if K.how_many(concs, arr, 6) * len(ops) <= 400000:
        num, k = K.orbits(concs, arr, 6, ops)
        want, done = set(), set()
        for s, o in num.items():
            if o not in done:
                done.add(o)
                if supers or not E.periodic(s, ops, n):
                    want.add(o)
        have = set()
        for s in got:
            if s not in num:
                return what + "%s is not an arrangement with these counts" % (s,)
            have.add(num[s])
        if have != want:
            miss = [s for s, o in num.items() if o in want - have][:1]
            return what + "%d classes, expected %d; missing e.g. %s" % (len(have), len(want), miss)
    elif not supers:
        # classes of arrangements without a period: all minus those with one, counted over the translations' subgroups
        pass


CHECKS = {"full": full}


def parts(N, k):
    if k == 1:
        yield (N,)
        return
    for a in range(N + 1):
        for r in parts(N - a, k - 1):
            yield (a,) + r


def cases(ctx):
    sc, fcc, tet = X.shape("sc"), X.shape("fcc"), X.shape("tet")
    one = X.BASES[0]
    for A in (sc, fcc, tet):
        for n in (1, 2, 3, 4):
            for H in X.all_hnf(n)[::2]:
                for c in parts(n, 2):
                    yield "full", [A, one, H, list(c), [0, 0], True]
                    yield "full", [A, one, H, list(c), [0, 0], False]
                for c in parts(n, 3):
                    if n == 4 and all(c):
                        yield "full", [A, one, H, list(c), [0, 0, 0], True]
                        yield "full", [A, one, H, list(c), [0, 0, 0], False]
    for H in X.all_hnf(2) + X.all_hnf(3)[::4]:
        n = 2 if H in X.all_hnf(2) else 3
        for supers in (True, False):
            yield "full", [sc, one, H, [n], [1], supers]
            yield "full", [sc, one, H, [n], [.5], supers]
            yield "full", [tet, one, H, [1, n - 1], [1, 0], supers]
            yield "full", [tet, one, H, [1, n - 1], [0, 1], supers]
    for c in ([6, 6], [4, 4, 4], [3, 9], [2, 2, 8], [1, 5, 6], [2, 2, 2, 6]):
        yield "full", [fcc, one, [[1, 0, 0], [0, 2, 0], [0, 0, 6]], c, [0] * len(c), False]
        yield "full", [fcc, one, [[2, 0, 0], [0, 2, 0], [1, 0, 3]], c, [0] * len(c), True]
    ctx.random_part = True
    r = ctx.rng
    while True:
        arrows = r.random() < .5
        name = r.choice(X.AXIAL if arrows else list(X.LATTICES))
        A = X.shape(name)
        b = r.choice([one, one, one] + X.BASES)
        n = r.choice([1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 8, 9, 10, 12])
        N = n * len(b)
        if N > 12:
            continue
        cs = K.random_counts(r, N, r.randint(1, 5))
        if r.random() < .7:
            cs = [c for c in cs if c]
        fr = [r.choice([0, 0, 1, .5, .34, .25]) if arrows else 0 for _ in cs]
        while K.how_many(cs, E.wanted_arrows(cs, fr), 6) > 20000 and sum(fr):
            fr[r.choice([i for i, f in enumerate(fr) if f])] = 0
        if K.how_many(cs, E.wanted_arrows(cs, fr), 6) > 60000:
            continue
        yield "full", [A, b, r.choice(X.all_hnf(n)), cs, fr, r.random() < .5, r.choice([0, 0, 0, 3])]
