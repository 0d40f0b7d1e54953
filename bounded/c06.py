"""C06: predicted counts against orbit counts."""
import copy, itertools
from phenum import polyaburnside
import combin as K
import crystal as X

LIMIT = 60


def count(types, ops, how):
    """types: [[count, arrows?]], arrowed ones last; ops: pairs of permutations."""
    concs = [c for c, _ in types]
    dim = len(ops[0][1])
    narr = sum(1 for _, a in types if a)
    arg = copy.deepcopy(ops)
    if how == "none":
        got = polyaburnside.polya(list(concs), arg)
    elif how == "int":
        got = polyaburnside.polya(list(concs), arg, arrowings=narr)
    else:
        got = polyaburnside.polya(list(concs), arg, arrowings=[bool(a) for _, a in types])
    want = K.burnside([tuple(t) for t in types], ops, dim)
    if isinstance(got, float):
        return "the count %r is a float" % got
    if got != want:
        return "counts %s, %d operations: predicted %s, true number %s" % (types, len(ops), got, want)
    arrows = [c if a else 0 for c, a in types]
    if K.how_many(concs, arrows, dim) * len(ops) <= 60000:
        num, k = K.orbits(concs, arrows, dim, ops)
        if k != got:
            return "counts %s: predicted %s, orbits %d" % (types, got, k)


def rejected(concs, ops):
    try:
        got = polyaburnside.polya(list(concs), copy.deepcopy(ops))
    except ValueError:
        return None
    return "counts %s on %d sites are accepted (%s)" % (concs, len(ops[0][0]), got)


CHECKS = {"count": count, "rejected": rejected}


def cyclic(n):
    return [[[(i + k) % n for i in range(n)], [0]] for k in range(n)]


def cases(ctx):
    for n in range(1, 9):
        for c in itertools.product(range(0, n + 1), repeat=2):
            if sum(c) == n:
                yield "count", [[[x, 0] for x in c], cyclic(n), "none"]
            elif sum(c) <= n + 2:
                yield "rejected", [list(c), cyclic(n)]
    # large cells: exact integers needed
    for n in (40, 60, 72, 96, 120):
        for c in ([n // 2, n - n // 2], [n // 3, n // 3, n - 2 * (n // 3)], [1, n - 1], [n // 4, n // 4, n // 4, n - 3 * (n // 4)]):
            yield "count", [[[x, 0] for x in c], cyclic(n), "none"]
            if n <= 60:
                rot = [[0, 1, 2, 3, 4, 5], [1, 0, 2, 3, 4, 5]]
                ops = [[p, rot[k % 2]] for k, (p, _) in enumerate(cyclic(n))]
                yield "count", [[[x, int(i > 0)] for i, x in enumerate(c)], ops, "int"]
    ctx.random_part = True
    r = ctx.rng
    while True:
        arrows = r.random() < .6
        if r.random() < .5:
            ops, n = K.random_group(r, arrows, 12)
            if ops is None:
                continue
        else:
            N, dim = r.randint(1, 8), r.choice([1, 2, 4, 6, 3])
            ops = None
            while ops is None:
                gens = []
                for _ in range(r.randint(1, 2)):
                    p, a = list(range(N)), list(range(dim))
                    if r.random() < .8:
                        r.shuffle(p)
                    if arrows:
                        r.shuffle(a)
                    gens.append((p, a))
                ops = K.closure(gens, N, dim, 720)
        ops = K.as_lists(ops)
        N = len(ops[0][0])
        cs = K.random_counts(r, N, r.randint(1, 4))
        if r.random() < .7:
            cs = [c for c in cs if c] or [N]
        na = r.randint(0, len(cs)) if arrows else 0
        types = [[c, 0] for c in cs[:len(cs) - na]] + [[c, 1] for c in cs[len(cs) - na:]]
        yield "count", [types, ops, "none" if not na and r.random() < .5 else r.choice(["int", "list"])]
        if r.random() < .1:
            cs[0] += r.choice([-1, 1, 2])
            if cs[0] >= 0:
                yield "rejected", [cs, ops]
