"""C17: random selections of structures."""
import combin as K
import crystal as X
import enumsys as E
import c08

LIMIT = 100
KNOWN = ("labels follow the sorted counts",)


def pick(A, basis, H, concs, fracs, num, supers, seed):
    arr, ops, n, types = E.setup(A, basis, H, concs, fracs)
    if ops is None:
        return None
    total = K.burnside(types, ops, 6)
    got = E.run(A, basis, H, concs, fracs, num, supers, seed)
    what = "%d of counts %s arrows %s: " % (num, concs, arr)
    note = None
    if num <= 100 and not sum(arr) and got and all(E.member(s, concs, arr) for s in got):
        new = c08.relabel(got, concs)
        if new is not None and not any(E.member(s, concs, arr) for s in new):
            note = c08.SORTED + ": counts %s, structure %s" % (concs, got[0])
            got = new
    if len(got) > num:
        return what + "%d returned" % len(got)
    seen = {}
    for s in got:
        m = E.member(s, concs, arr)
        if m:
            return what + "%s in %s" % (m, s)
        if not supers and E.periodic(s, ops, n):
            return what + "%s is superperiodic" % (s,)
        k = K.canon(s, ops)
        if k in seen:
            return what + "%s and %s are equivalent" % (seen[k], s)
        seen[k] = s
    if supers:
        exact = min(num, total)
    elif not might_repeat(types, ops, n):
        exact = min(num, total)
    else:
        exact = None
        if (sum(fracs) and sum(concs) >= 12 and len(concs) > 1 or K.how_many(concs, [0] * len(concs), 1) > 100000) and total > 40 * num:
            exact = num
    if exact is not None and len(got) != exact:
        return what + "%d returned, %d exist" % (len(got), total)
    return note


def might_repeat(types, ops, n):
    """Some arrangement with these counts is kept by a translation."""
    for p, _ in ops[1:n]:
        m, j = 1, p[0]
        while j != 0:
            j, m = p[j], m + 1
        if all(c % m == 0 for c, _ in types):
            return True
    return False


def spread(A, basis, H, concs, fracs, num, seeds):
    """Different seeds lead to different selections, and together they reach every class."""
    arr, ops, n, types = E.setup(A, basis, H, concs, fracs)
    have = set()
    for seed in range(seeds):
        for s in E.run(A, basis, H, concs, fracs, num, True, seed):
            have.add(K.canon(s, ops))
    total = K.burnside(types, ops, 6)
    if len(have) != total:
        return "counts %s: %d selections of %d reach %d of %d classes" % (concs, seeds, num, len(have), total)


CHECKS = {"pick": pick, "spread": spread}


def cases(ctx):
    sc, fcc, tet = X.shape("sc"), X.shape("fcc"), X.shape("tet")
    one = X.BASES[0]
    box = lambda a, b, c: [[a, 0, 0], [0, b, 0], [0, 0, c]]
    yield "pick", [tet, one, box(1, 2, 10), [12, 8], [0, 0], 3, False, 1]
    yield "pick", [fcc, one, box(1, 2, 10), [8, 12], [0, 0], 60, False, 2]
    yield "pick", [tet, one, box(1, 2, 6), [5, 7], [0, .5], 4, False, 1]
    yield "pick", [sc, one, box(2, 2, 3), [11, 1], [0, 1], 30, True, 3]
    yield "pick", [tet, one, box(1, 1, 12), [11, 1], [0, 1], 80, False, 3]
    yield "pick", [tet, one, box(1, 1, 12), [12], [1], 5, False, 3]
    yield "pick", [tet, one, box(1, 1, 12), [12], [.1], 5, True, 3]
    yield "pick", [tet, one, box(1, 1, 6), [6], [1], 1, True, 3]
    for s in range(6):
        yield "pick", [tet, one, box(1, 1, 6), [3, 3], [0, 1], 7, bool(s % 2), s]
        yield "pick", [fcc, one, box(1, 1, 6), [2, 4], [0, 0], 2, bool(s % 2), s]
        yield "pick", [fcc, one, box(1, 2, 4), [4, 4], [0, 0], 5, bool(s % 2), s]
        yield "pick", [sc, one, box(2, 2, 3), [9, 2, 1], [0, 0, 1], 40, bool(s % 2), s]
        yield "pick", [tet, one, box(2, 1, 6), [10, 2], [0, .5], 100, bool(s % 2), s]
    yield "spread", [fcc, one, box(1, 1, 6), [2, 4], [0, 0], 2, 40]
    yield "spread", [tet, one, box(1, 1, 3), [1, 2], [1, 0], 2, 40]
    ctx.random_part = True
    r = ctx.rng
    while True:
        arrows = r.random() < .6
        A = X.shape(r.choice(X.AXIAL if arrows else list(X.LATTICES)))
        b = r.choice([one, one, one] + X.BASES)
        n = r.choice([1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 8, 9, 12, 12])
        if r.random() < .15:
            n, b = r.choice([12, 13, 14, 16, 20]), one
        N = n * len(b)
        if N > 20:
            continue
        cs = K.random_counts(r, N, r.randint(1, 5))
        if r.random() < .8:
            cs = [c for c in cs if c]
        fr = [r.choice([0, 0, 1, .5, .34, .25, .1]) if arrows else 0 for _ in cs]
        arr = E.wanted_arrows(cs, fr)
        many = K.how_many(cs, arr, 6)
        guess = K.how_many(cs, [0] * len(cs), 1) > 100000 or (sum(arr) and N >= 12)
        if many > 20000 and not guess:
            continue
        yield "pick", [A, b, r.choice(X.all_hnf(n)), cs, fr, r.choice([1, 2, 3, 5, 10, 20, 60]), r.random() < .5, r.randint(0, 10 ** 6)]
