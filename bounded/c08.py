"""C08: composition and arrows of the returned structures, and their text labels."""
from collections import Counter
from phenum import phonons, io_utils
import combin as K
import crystal as X
import enumsys as E

LIMIT = 100
KNOWN = ("labels follow the sorted counts",)
SORTED = "labels follow the sorted counts"


def relabel(got, concs):
    """Undo the renaming of species in order of increasing counts (no arrows); None if that is not it."""
    order = sorted([i for i in range(len(concs)) if concs[i]], key=lambda i: concs[i])
    if order == list(range(len(order))):
        return None
    if any(s[1] < 1 or s[1] > len(order) for t in got for s in t):
        return None
    return [tuple((a, order[s - 1] + 1) for a, s in t) for t in got]


def written(got):
    for s in got:
        lab, arr = io_utils.create_labeling([list(x) for x in s])
        if lab != "".join(str(x[1] - 1) for x in s):
            return "structure %s is written as %s" % (s, lab)
        if arr != "".join(str(x[0] + 1) for x in s):
            return "arrows of %s are written as %s" % (s, arr)


def structures(A, basis, H, concs, fracs, num, supers, seed):
    arr = E.wanted_arrows(concs, fracs)
    got = E.run(A, basis, H, concs, fracs, num, supers, seed)
    if num <= 100 and not sum(arr) and got and all(E.member(s, concs, arr) for s in got):
        new = relabel(got, concs)
        if new is not None and not any(E.member(s, concs, arr) for s in new):
            return SORTED + ": counts %s, structure %s" % (concs, got[0])
    for s in got:
        m = E.member(s, concs, arr)
        if m:
            return "counts %s arrows %s: %s in %s" % (concs, arr, m, s)
    return written(got[:40])


def decoration(concs, fracs):
    arr = E.wanted_arrows(concs, fracs)
    dec = phonons.arrow_concs(list(concs), list(fracs))
    got = Counter((-1 if a < 0 else 1, s) for a, s in dec)
    want = Counter()
    for i, (c, a) in enumerate(zip(concs, arr)):
        if c - a:
            want[(-1, i + 1)] = c - a
        if a:
            want[(1, i + 1)] = a
    if got != want:
        return "counts %s arrows %s: decoration %s" % (concs, arr, dec)
    first = [x for x in dec if x[0] >= 0]
    if dec[len(dec) - len(first):] != first:
        return "sites with arrows are not last: %s" % dec
    (na, kinds, cs) = phonons.how_many_arrows(dec)
    if na != sum(arr) or kinds != sum(1 for a in arr if a):
        return "counts %s: %d arrows on %d species" % (concs, na, kinds)
    # counts of the kinds in the order in which they occur
    seq = []
    for x in dec:
        if tuple(x) not in seq:
            seq.append(tuple(x))
    if list(cs) != [sum(1 for y in dec if tuple(y) == x) for x in seq]:
        return "counts %s: kinds counted as %s" % (concs, cs)
    # every kind in one block
    if [tuple(x) for x in dec] != [x for x in seq for _ in range(sum(1 for y in dec if tuple(y) == x))]:
        return "kinds are mixed: %s" % dec


def mixed(col):
    """Counting, sorting and writing of any arrangement."""
    col = [list(x) for x in col]
    keep = [list(x) for x in col]
    s = phonons._col_sort(col)
    if Counter(map(tuple, s)) != Counter(map(tuple, keep)):
        return "sorting changes %s to %s" % (keep, s)
    na, kinds, cs = phonons.how_many_arrows(keep)
    if na != sum(1 for x in keep if x[0] >= 0) or kinds != len({x[1] for x in keep if x[0] >= 0}):
        return "%d arrows on %d species in %s" % (na, kinds, keep)
    if sum(cs) != len(keep) or sorted(cs) != sorted(Counter(map(tuple, keep)).values()):
        return "kinds of %s counted as %s" % (keep, cs)
    return written([tuple(map(tuple, keep))])


CHECKS = {"structures": structures, "decoration": decoration, "mixed": mixed}


def cases(ctx):
    sc, fcc, tet = X.shape("sc"), X.shape("fcc"), X.shape("tet")
    one = X.BASES[0]
    box = lambda a, b, c: [[a, 0, 0], [0, b, 0], [0, 0, c]]
    # a random pick of a few structures out of many, largest count first
    yield "structures", [tet, one, box(1, 2, 10), [12, 8], [0, 0], 3, False, 1]
    yield "structures", [fcc, one, box(1, 2, 10), [8, 12], [0, 0], 4, False, 2]
    yield "structures", [tet, one, box(1, 2, 6), [5, 7], [0, .5], 4, False, 1]
    yield "structures", [tet, one, box(1, 2, 6), [7, 5], [.5, .5], 4, True, 1]
    for c in ([1, 3], [3, 1], [2, 2], [0, 4], [1, 1, 2], [2, 1, 1], [1, 2, 1]):
        for f in ([0] * 3, [1] * 3, [.5] * 3, [0, 1, 0], [.5, 0, 1]):
            f = f[:len(c)]
            yield "decoration", [c, f]
            yield "structures", [tet, one, box(1, 1, 4), c, f, 10 ** 6, True, 0]
            yield "structures", [sc, one, box(1, 2, 2), c, f, 5, False, 0]
    ctx.random_part = True
    r = ctx.rng
    while True:
        k = r.randint(1, 6)
        c = [r.randint(0, 12) for _ in range(k)]
        f = [r.choice([0, 0, 1, .5, .25, 1 / 3., .1, r.random()]) for _ in range(k)]
        yield "decoration", [c, f]
        yield "mixed", [[[r.randint(-1, 5), r.randint(1, r.choice([1, 2, 4, 9]))] for _ in range(r.randint(1, 14))]]
        arrows = r.random() < .6
        A = X.shape(r.choice(X.AXIAL if arrows else list(X.LATTICES)))
        b = r.choice([one, one, one] + X.BASES)
        n = r.choice([1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 8, 9])
        if r.random() < .1:
            n, b, big = r.choice([13, 14, 16]), one, True
        N = n * len(b)
        if N > 16:
            continue
        cs = K.random_counts(r, N, r.randint(1, 5))
        if r.random() < .8:
            cs = [c for c in cs if c]
        fr = [r.choice([0, 0, 1, .5, .34, .25]) if arrows else 0 for _ in cs]
        many = K.how_many(cs, E.wanted_arrows(cs, fr), 6)
        if many > 20000 and N < 12 or (many > 20000 and not arrows and K.how_many(cs, [0] * len(cs), 6) <= 100000):
            continue
        yield "structures", [A, b, r.choice(X.all_hnf(n)), cs, fr, r.choice([1, 2, 5, 20]), r.random() < .5, r.randint(0, 10 ** 6)]
