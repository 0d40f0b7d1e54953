"""C04: colour arrangements and their ranks."""
import itertools, math
from phenum import tree

FILES = ["phenum/tree.py", "phenum/numerics.py"]


def _slow_rank(l):
    """Rank among the 0/1 arrangements with as many ones, an arrangement with a 1 earlier coming first."""
    r, n, k = 0, len(l), sum(l)
    for i, x in enumerate(l):
        if x:
            k -= 1
        elif k:
            r += math.comb(n - i - 1, k - 1)
    return r


def limits(colors, n):
    got = tree._coefficients(list(colors), n)
    want, left = [], n
    for c in colors:
        want.append(math.comb(left, c))
        left -= c
    if list(got) != want:
        return "limits of %s are %s, expected %s" % (colors, got, want)


def rank(l):
    g = list(l)
    got = tree._hash(g)
    if got != _slow_rank(l):
        return "rank of %s is %s, expected %s" % (l, got, _slow_rank(l))
    if g != l:
        return "ranking changes the arrangement"


def roundtrip(branch, colors, n):
    b, c = list(branch), list(colors)
    lab = tree._invhash(b, c, n)
    if len(lab) != n:
        return "arrangement of %s has %d sites instead of %d" % (branch, len(lab), n)
    if b != branch or c != colors:
        return "making an arrangement changes its arguments"
    left = list(lab)
    for i, want in enumerate(branch):
        if left.count(i + 1) != colors[i]:
            return "arrangement %s has %d sites of species %d instead of %d" % (lab, left.count(i + 1), i + 1, colors[i])
        if colors[i]:
            got = tree._hash([1 if x == i + 1 else 0 for x in left])
            if got != want:
                return "arrangement %s of index %s: species %d has rank %s" % (lab, branch, i + 1, got)
        left = [x for x in left if x != i + 1]
    if any(x != 0 for x in left):
        return "arrangement %s of index %s names a species that was not placed" % (lab, branch)


def bijection(colors):
    n = sum(colors)
    lims = tree._coefficients(list(colors), n)
    seen = set()
    for b in itertools.product(*[range(x) for x in lims]):
        m = roundtrip(list(b), list(colors), n)
        if m:
            return m
        seen.add(tuple(tree._invhash(list(b), list(colors), n)))
    total = 1
    left = n
    for c in colors:
        total *= math.comb(left, c)
        left -= c
    if len(seen) != total:
        return "%d distinct arrangements for %s, there are %d" % (len(seen), colors, total)


CHECKS = {"limits": limits, "rank": rank, "roundtrip": roundtrip, "bijection": bijection}


def cases(ctx):
    for n in range(1, 9):
        for l in itertools.product((0, 1), repeat=n):
            if any(l):
                yield "rank", [list(l)]
    for m in (1, 2, 3, 4):
        for c in itertools.product(range(0, 5), repeat=m):
            if 0 < sum(c) <= 8:
                yield "limits", [list(c), sum(c)]
                yield "bijection", [list(c)]
    r = ctx.rng
    for n in [x for x in ctx.around(FILES, 2, 200)] + [30, 33, 40, 64, 65]:
        for k in sorted({1, 2, n // 2, n - 1, n}):
            if k < 1:
                continue
            l = [1] * k + [0] * (n - k)
            for _ in range(3):
                yield "rank", [list(l)]
                r.shuffle(l)
            yield "rank", [sorted(l)]
            if k < n:
                lims = [math.comb(n, k), math.comb(n - k, (n - k) // 2)]
                for b in ([0, 0], [lims[0] - 1, lims[1] - 1], [lims[0] // 2, lims[1] // 3]):
                    yield "roundtrip", [b, [k, (n - k) // 2, n - k - (n - k) // 2], n]
    ctx.random_part = True
    while True:
        m = r.randint(1, 8)
        c = [r.choice([0, 1, 1, 2, r.randint(0, 5), r.randint(0, 12), r.randint(0, 30)]) for _ in range(m)]
        n = sum(c)
        if not n:
            continue
        yield "limits", [c, n]
        lims, left = [], n
        for x in c:
            lims.append(math.comb(left, x))
            left -= x
        b = [r.choice([0, L - 1, r.randrange(L)]) for L in lims]
        yield "roundtrip", [b[:r.randint(1, m)], c, n]
        yield "roundtrip", [b, c, n]
        l = [1 if r.random() < r.choice([.1, .5, .9]) else 0 for _ in range(r.randint(1, 40))]
        if any(l):
            yield "rank", [l]
