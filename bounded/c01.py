"""C01: list of Hermite normal forms, compared with an independent enumeration."""
from phenum import HNFs

FILES = ["phenum/HNFs.py"]


def sigma_count(n):
    return sum(d * sum(e for e in range(1, d + 1) if d % e == 0) for d in range(1, n + 1) if n % d == 0)


def diagonals(n):
    got = HNFs._get_HNF_diagonals(n)
    want = [[i, j, n // (i * j)] for i in range(1, n + 1) if n % i == 0 for j in range(1, n // i + 1) if (n // i) % j == 0]
    g = sorted([int(x) for x in d] for d in got)
    if g != sorted(want):
        missing = [d for d in want if d not in g]
        return "diagonals of %d: missing %s, extra or repeated %s" % (n, missing[:3], [d for d in g if d not in want or g.count(d) > 1][:3])
    if any(type(x) is not int and int(x) != x for d in got for x in d):
        return "diagonals of %d are not whole numbers" % n


def hnfs(n):
    got = HNFs.find_all_HNFs(n)
    seen = set()
    for h in got:
        if len(h) != 3 or any(len(r) != 3 for r in h):
            return "malformed matrix %s" % (h,)
        if any(int(x) != x for r in h for x in r):
            return "entry not whole in %s" % (h,)
        (a, z1, z2), (b, c, z3), (d, e, f) = h
        if z1 or z2 or z3:
            return "not lower triangular: %s" % (h,)
        if a <= 0 or c <= 0 or f <= 0 or a * c * f != n:
            return "determinant of %s is not %d" % (h, n)
        if not (0 <= b < c and 0 <= d < f and 0 <= e < f):
            return "entries out of range: %s" % (h,)
        t = (a, b, c, d, e, f)
        if t in seen:
            return "repeated matrix %s" % (h,)
        seen.add(t)
    if len(got) != sigma_count(n):
        return "%d matrices for size %d, there are %d" % (len(got), n, sigma_count(n))
    # the result of one call must not be changed by another one or by the caller
    got[0][0][0] = -99
    again = HNFs.find_all_HNFs(n)
    if any(h[0][0] < 0 for h in again) or len(again) != len(got):
        return "result of a second call depends on the first one"


CHECKS = {"diagonals": diagonals, "hnfs": hnfs}


def cases(ctx):
    for n in list(range(1, 65)) + ctx.around(FILES, 1, 300):
        yield "diagonals", [n]
        yield "hnfs", [n]
    for n in [72, 84, 90, 96, 100, 120, 121, 125, 128, 144, 169, 180, 210]:
        yield "diagonals", [n]
        yield "hnfs", [n]
    for n in [256, 360, 420, 512, 625, 720, 840, 900, 1001, 1024, 1260]:
        yield "diagonals", [n]
    for n in range(65, 400 if ctx.thorough else 220):
        yield "diagonals", [n]
        yield "hnfs", [n]
