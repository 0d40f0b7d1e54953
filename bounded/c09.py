"""C09: concentrations of a cell size, arrow fractions."""
import itertools
from fractions import Fraction as Fr
import numpy as np
from phenum import symmetry, phonons

LIMIT = 60


def tuples(N, k):
    if k == 1:
        yield (N,)
        return
    for a in range(N + 1):
        for r in tuples(N - a, k - 1):
            yield (a,) + r


def free(size, nD, k):
    got = symmetry.get_concs_for_size(size, k, False, nD, [])
    want = [list(t) for t in tuples(size * nD, k)]
    if [list(map(int, t)) for t in got] != want:
        return "size %d, %d basis atoms, %d species: %s" % (size, nD, k, diff(got, want))


def diff(got, want):
    g = [list(map(int, t)) for t in got]
    return "%d concentrations, expected %d; extra %s missing %s" % (
        len(g), len(want), [x for x in g if x not in want][:2], [x for x in want if x not in g][:2])


def limited(size, nD, limits):
    arg = [list(l) for l in limits]
    got = symmetry.get_concs_for_size(size, len(limits), True, nD, arg)
    N = size * nD
    # fraction of every species within its own limits
    want = [list(t) for t in tuples(N, len(limits)) if all(Fr(min(l[:2]), l[2]) <= Fr(a, N) <= Fr(max(l[:2]), l[2]) for a, l in zip(t, limits))]
    g = [list(map(int, t)) for t in got]
    if g != want:
        return "size %d, %d basis atoms, limits %s: %s" % (size, nD, limits, diff(got, want))
    if arg != [list(l) for l in limits]:
        return "the limits are changed"


def fractions(concs, arrows, restricted):
    p = {"is_crestricted": restricted, "concs": concs, "arrows": arrows, "nspecies": len(concs)}
    got = phonons.get_arrow_concs(p)
    want = [c[3] if arrows and len(c) == 4 else 0 for c in concs] if restricted else [0] * len(concs)
    if list(got) != want:
        return "arrow fractions of %s are %s" % (concs, got)


CHECKS = {"free": free, "limited": limited, "fractions": fractions}


def cases(ctx):
    for size in range(1, 13):
        for k in range(1, 5):
            for nD in (1, 2, 3):
                if k < 4 or size * nD <= 16:
                    yield "free", [size, nD, k]
    for size in range(1, 7):
        for nD in (1, 2):
            for d in (1, 2, 3, 4, 6):
                for a in range(d + 1):
                    for b in range(a, d + 1):
                        yield "limited", [size, nD, [[a, b, d], [0, d, d]]]
                        yield "limited", [size, nD, [[0, d, d], [a, b, d]]]
    for l in ([[0, 1, 2], [2, 3, 3]], [[1, 2, 4], [1, 1, 2], [0, 1, 3]], [[1, 1, 3], [2, 2, 3]], [[0, 0, 1], [1, 1, 1]], [[0, 5, 7], [1, 8, 9]]):
        for size in (1, 2, 3, 4, 6, 8, 12, 14, 24):
            yield "limited", [size, 1, l]
            yield "limited", [size, 2, l]
    yield "limited", [100, 1, [[7, 9, 100], [91, 93, 100]]]
    yield "limited", [49, 1, [[1, 1, 49], [48, 48, 49]]]
    ctx.random_part = True
    r = ctx.rng
    while True:
        k = r.randint(1, 4)
        size, nD = r.randint(1, r.choice([4, 8, 14])), r.choice([1, 1, 2, 3])
        lim = []
        d0 = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 100, 7, 49])
        for _ in range(k):
            d = d0 if r.random() < .5 else r.choice([1, 2, 3, 4, 6, 7, 9, 10, 12, 20, 50])
            a = r.randint(0, d) if r.random() < .5 else 0
            b = r.randint(a, d) if r.random() < .6 else d
            if r.random() < .1:
                a, b = b, a
            lim.append([a, b, d] if r.random() < .7 else [a, b, d, r.choice([0, .5, 1])])
        yield "limited", [size, nD, lim]
        yield "free", [size, nD, r.randint(1, 4 if size * nD < 20 else 3)]
        f = [l if len(l) == 4 or r.random() < .5 else l + [r.choice([0, .25, 1])] for l in lim]
        yield "fractions", [f, r.random() < .7, r.random() < .7]
