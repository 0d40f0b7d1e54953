"""C03: combinatorial numbers against Python's exact integers."""
import math
import numpy as np
from phenum import numerics, polyaburnside

FILES = ["phenum/numerics.py", "phenum/polyaburnside.py"]


def exact(got, want, what):
    if isinstance(got, (float, np.floating)):
        return "%s is a float: %r" % (what, got)
    if got != want:
        return "%s is %s, expected %s" % (what, got, want)


def fact(n):
    return exact(numerics.factorial(n), math.factorial(n), "factorial(%d)" % n)


def binom(n, k):
    want = math.comb(n, k) if 0 <= k <= n else 0
    return exact(numerics.binomial_coefficient(n, k), want, "binomial_coefficient(%d, %d)" % (n, k))


def _multi(l):
    r, s = 1, 0
    for x in l:
        s += x
        r *= math.comb(s, x)
    return r


def multi(l):
    before = list(l)
    r = exact(numerics.multinomial(l), _multi(before), "multinomial(%s)" % before)
    if r is None and l != before:
        return "multinomial changes its argument"
    return r or exact(numerics.multinomial(np.array(before)), _multi(before), "multinomial(array %s)" % before)


def nck(n, k):
    return exact(polyaburnside.Multinomial.nchoosek(n, k), math.comb(n, k), "nchoosek(%d, %d)" % (n, k))


def nckm(power, coeff, arrows, l):
    """Coefficient of the term with exponents l in (sum of c_i x_i^power)^exponent."""
    before = list(l)
    m = polyaburnside.Multinomial(power, coeff, list(arrows), max(1, sum(l) // power))
    got = m.nchoosekm(l)
    if any(x % power for x in before):
        want = 0
    else:
        want = _multi([x // power for x in before])
        for x, a in zip(before, arrows):
            if a:
                want *= coeff ** (x // power)
    return exact(got, want, "coefficient of %s in (%s, arrows %s, coefficient %d)" % (before, power, arrows, coeff))


CHECKS = {"fact": fact, "binom": binom, "multi": multi, "nck": nck, "nckm": nckm}


def cases(ctx):
    import itertools
    for n in range(0, 40):
        yield "fact", [n]
        for k in range(-3, n + 4):
            yield "binom", [n, k]
        for k in range(0, n + 1):
            yield "nck", [n, k]
    for m in (1, 2, 3, 4):
        for l in itertools.product(range(0, 5), repeat=m):
            yield "multi", [list(l)]
            yield "nckm", [1, 3, [i % 2 for i in range(len(l))], list(l)]
            yield "nckm", [2, 2, [0] * len(l), list(l)]
    cs = ctx.around(FILES, 1, 400) + [60, 61, 62, 63, 64, 66, 67, 68, 100, 127, 128, 200, 256, 340]
    for n in cs:
        yield "fact", [n]
        for k in sorted({0, 1, 2, 3, n // 3, n // 2 - 1, n // 2, n // 2 + 1, 2 * n // 3, n - 3, n - 2, n - 1, n, n + 1} | set(c for c in cs if c <= n)):
            yield "binom", [n, k]
            if 0 <= k <= n:
                yield "nck", [n, k]
                yield "multi", [[k, n - k]]
                yield "nckm", [1, 6, [0, 1], [k, n - k]]
    ctx.random_part = True
    r = ctx.rng
    while True:
        n = r.choice([r.randint(0, 60), r.randint(0, 300), r.randint(0, 1200)])
        k = r.choice([r.randint(0, max(n, 1)), r.randint(-5, n + 5), r.randint(0, 12)])
        yield "binom", [n, k]
        if 0 <= k <= n:
            yield "nck", [n, k]
        if n < 400:
            yield "fact", [n]
        l = [r.choice([0, r.randint(0, 4), r.randint(0, 25), r.randint(0, 90)]) for _ in range(r.randint(1, 9))]
        yield "multi", [l]
        p = r.choice([1, 1, 2, 3, 5])
        yield "nckm", [p, r.randint(0, 12), [r.random() < .4 for _ in l], [x * p if r.random() < .97 else x for x in l]]
