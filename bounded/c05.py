"""C05: arrow arrangements and their index numbers."""
import itertools
from phenum import phonons

FILES = ["phenum/phonons.py", "phenum/tree.py"]


def index(num, dim, narrows):
    got = phonons._ainvhash(num, narrows, dim)
    if len(got) != narrows:
        return "arrangement %d of %d arrows has %d entries" % (num, narrows, len(got))
    if any(int(x) != x or not 0 <= x < dim for x in got):
        return "arrangement %d: direction out of range in %s (%d directions)" % (num, got, dim)
    back = phonons._ahash([int(x) for x in got], dim)
    if back != num:
        return "index %d, %d arrows, %d directions -> %s -> %s" % (num, narrows, dim, got, back)
    if phonons._ahash(got, dim) != num:
        return "index %d does not come back" % num


def arrangement(arr, dim):
    a = list(arr)
    num = phonons._ahash(a, dim)
    if a != arr:
        return "ranking changes the arrangement"
    if num != int(num) or not 0 <= num < dim ** len(arr):
        return "index %s of %s out of range (%d directions)" % (num, arr, dim)
    back = phonons._ainvhash(num, len(arr), dim)
    if list(back) != arr:
        return "arrangement %s (%d directions) -> %s -> %s" % (arr, dim, num, back)


CHECKS = {"index": index, "arrangement": arrangement}


def cases(ctx):
    for dim in range(1, 8):
        for n in range(1, 6):
            if dim ** n <= 4096:
                for k in range(dim ** n):
                    yield "index", [k, dim, n]
                for a in itertools.product(range(dim), repeat=n):
                    yield "arrangement", [list(a), dim]
    r = ctx.rng
    for dim in ctx.around(FILES, 1, 100):
        for n in (1, 2, 3, 7):
            yield "arrangement", [[dim - 1] * n, dim]
            yield "arrangement", [[dim - 1] + [0] * (n - 1), dim]
            yield "arrangement", [[0] * (n - 1) + [dim - 1], dim]
            yield "index", [dim ** n // 2, dim, n]
    for n in ctx.around(FILES, 1, 100):
        for dim in (2, 3, 6):
            yield "arrangement", [[dim - 1] * n, dim]
            yield "index", [dim ** n - 1, dim, n]
            yield "index", [dim ** n // 3, dim, n]
    ctx.random_part = True
    while True:
        dim = r.choice([1, 2, 3, 4, 5, 6, 6, 8, 10, 12, 13, 26, r.randint(1, 100)])
        n = r.choice([1, 2, 3, r.randint(1, 12), r.randint(1, 40)])
        yield "arrangement", [[r.randrange(dim) for _ in range(n)], dim]
        yield "index", [r.choice([0, dim ** n - 1, r.randrange(dim ** n), r.randrange(min(dim ** n, 100))]), dim, n]
