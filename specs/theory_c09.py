# Lists of counts in lexicographic order: mixed radix ranks.


@spec(decreases="k")
def pr(x: "A(L(int))", d: "A(int)", k: int) -> int:
    """Rank of the index tuple d[0..k) among those of the lists x[0..k)."""
    return 0 if k <= 0 else pr(x, d, k - 1) * len(x[k - 1]) + d[k - 1]


@spec(decreases="k")
def pt(x: "A(L(int))", k: int) -> int:
    """Number of index tuples."""
    return 1 if k <= 0 else pt(x, k - 1) * len(x[k - 1])


@spec(decreases="k")
def vr(x: "A(L(int))", a: "A(int)", k: int) -> int:
    """Rank of the tuple of values a[0..k) taken from the intervals x[0..k)."""
    return 0 if k <= 0 else vr(x, a, k - 1) * len(x[k - 1]) + (a[k - 1] - x[k - 1][0])


@spec(decreases="k")
def same(a: "A(int)", b: "A(int)", k: int) -> bool:
    return True if k <= 0 else same(a, b, k - 1) and a[k - 1] == b[k - 1]


@spec(decreases="k")
def lexlt(a: "A(int)", b: "A(int)", k: int) -> bool:
    """a[0..k) comes before b[0..k) in lexicographic order."""
    return False if k <= 0 else lexlt(a, b, k - 1) or (same(a, b, k - 1) and a[k - 1] < b[k - 1])


@spec(decreases="k")
def inbox(x: "A(L(int))", a: "A(int)", k: int) -> bool:
    return True if k <= 0 else inbox(x, a, k - 1) and 0 <= a[k - 1] - x[k - 1][0] and a[k - 1] - x[k - 1][0] < len(x[k - 1])


@spec(decreases="k")
def within(c: "A(int)", lim: "A(L(int))", n: int, k: int) -> bool:
    """The fractions c[i]/n lie between the limits of their species."""
    return True if k <= 0 else within(c, lim, n, k - 1) and c[k - 1] >= 0 and min(lim[k - 1][0], lim[k - 1][1]) * n <= c[k - 1] * lim[k - 1][2] \
        and c[k - 1] * lim[k - 1][2] <= max(lim[k - 1][0], lim[k - 1][1]) * n


@spec(decreases="k")
def nonneg(c: "A(int)", k: int) -> bool:
    return True if k <= 0 else nonneg(c, k - 1) and c[k - 1] >= 0


@lemma(requires=["k >= 0", "forall(lambda i: implies(0 <= i and i < k, c[i] >= 0))"], ensures=["nonneg(c, k)"], decreases="k")
def nonneg_intro(c: "A(int)", k: int):
    if k > 0:
        nonneg_intro(c, k - 1)


@lemma(requires=["nonneg(c, k)", "0 <= i", "i < k"], ensures=["c[i] >= 0"], decreases="k")
def nonneg_at(c: "A(int)", i: int, k: int):
    if i < k - 1:
        nonneg_at(c, i, k - 1)


@lemma(requires=["k >= 0", "forall(lambda i: implies(0 <= i and i < k, a[i] == b[i]))"], ensures=["same(a, b, k)"], decreases="k")
def same_intro(a: "A(int)", b: "A(int)", k: int):
    if k > 0:
        same_intro(a, b, k - 1)


@lemma(requires=["same(a, b, k)", "0 <= i", "i < k"], ensures=["a[i] == b[i]"], decreases="k")
def same_at(a: "A(int)", b: "A(int)", i: int, k: int):
    if i < k - 1:
        same_at(a, b, i, k - 1)


@lemma(requires=["same(a, b, k)", "k >= 0"], ensures=["suml(a, k) == suml(b, k)", "iff(inbox(x, a, k), inbox(x, b, k))", "vr(x, a, k) == vr(x, b, k)"], decreases="k")
def same_sum(x: "A(L(int))", a: "A(int)", b: "A(int)", k: int):
    if k > 0:
        same_sum(x, a, b, k - 1)


@lemma(requires=["k >= 0", "forall(lambda i: implies(0 <= i and i < k, 0 <= a[i] - x[i][0] and a[i] - x[i][0] < len(x[i])))"], ensures=["inbox(x, a, k)"], decreases="k")
def inbox_intro(x: "A(L(int))", a: "A(int)", k: int):
    if k > 0:
        inbox_intro(x, a, k - 1)


@lemma(requires=["k >= 0", "forall(lambda i: implies(0 <= i and i < k, a[i] - x[i][0] == d[i]))"], ensures=["vr(x, a, k) == pr(x, d, k)"], decreases="k")
def vr_pr(x: "A(L(int))", a: "A(int)", d: "A(int)", k: int):
    if k > 0:
        vr_pr(x, a, d, k - 1)


@lemma(requires=["0 <= d", "d < w", "0 <= e", "e < w"],
       ensures=["implies(p * w + d == q * w + e, p == q and d == e)", "implies(p * w + d < q * w + e, p < q or (p == q and d < e))"])
def digits_two(p: int, q: int, d: int, e: int, w: int):
    if p < q:
        assert (q - p) * w >= w
    if p > q:
        assert (p - q) * w >= w


@lemma(requires=["k >= 0", "inbox(x, a, k)", "inbox(x, b, k)"],
       ensures=["implies(vr(x, a, k) == vr(x, b, k), same(a, b, k))", "implies(vr(x, a, k) < vr(x, b, k), lexlt(a, b, k))"], decreases="k")
def vr_order(x: "A(L(int))", a: "A(int)", b: "A(int)", k: int):
    if k > 0:
        vr_order(x, a, b, k - 1)
        digits_two(vr(x, a, k - 1), vr(x, b, k - 1), a[k - 1] - x[k - 1][0], b[k - 1] - x[k - 1][0], len(x[k - 1]))


@lemma(requires=["0 <= v", "v < t", "0 <= d", "d < w"], ensures=["0 <= v * w + d", "v * w + d < t * w"])
def digit_step(v: int, t: int, d: int, w: int):
    assert (t - 1 - v) * w >= 0


@lemma(requires=["k >= 0", "inbox(x, a, k)"], ensures=["0 <= vr(x, a, k)", "vr(x, a, k) < pt(x, k)"], decreases="k")
def vr_bound(x: "A(L(int))", a: "A(int)", k: int):
    if k > 0:
        vr_bound(x, a, k - 1)
        digit_step(vr(x, a, k - 1), pt(x, k - 1), a[k - 1] - x[k - 1][0], len(x[k - 1]))


@lemma(requires=["k >= 0", "forall(lambda i: implies(0 <= i and i < k, a[i] == x[i][0]))"], ensures=["vr(x, a, k) == 0"], decreases="k")
def vr_first(x: "A(L(int))", a: "A(int)", k: int):
    if k > 0:
        vr_first(x, a, k - 1)


@lemma(requires=["k >= 0", "forall(lambda i: implies(0 <= i and i < k, a[i] - x[i][0] == len(x[i]) - 1))"], ensures=["vr(x, a, k) == pt(x, k) - 1"], decreases="k")
def vr_last(x: "A(L(int))", a: "A(int)", k: int):
    if k > 0:
        vr_last(x, a, k - 1)
        assert (pt(x, k - 1) - 1) * len(x[k - 1]) == pt(x, k - 1) * len(x[k - 1]) - len(x[k - 1])


@lemma(requires=["0 <= j", "j < k", "forall(lambda i: implies(0 <= i and i < j, b[i] == a[i]))", "b[j] == a[j] + 1",
                 "forall(lambda i: implies(j < i and i < k, a[i] - x[i][0] == len(x[i]) - 1))", "forall(lambda i: implies(j < i and i < k, b[i] == x[i][0]))"],
       ensures=["vr(x, b, k) == vr(x, a, k) + 1"], decreases="k")
def vr_next(x: "A(L(int))", a: "A(int)", b: "A(int)", j: int, k: int):
    if k > j + 1:
        vr_next(x, a, b, j, k - 1)
        assert (vr(x, a, k - 1) + 1) * len(x[k - 1]) == vr(x, a, k - 1) * len(x[k - 1]) + len(x[k - 1])
    else:
        same_intro(a, b, j)
        same_sum(x, a, b, j)


# ---- fractions with a tolerance against exact fractions
@lemma(requires=["n >= 1", "d >= 1"], ensures=["((1.0 * a) / n) * (n * d) == a * d", "((1.0 * m) / d) * (n * d) == m * n"])
def cross(a: int, n: int, m: int, d: int):
    assert ((1.0 * a) / n) * n == a
    assert ((1.0 * m) / d) * d == m


@lemma(requires=["x * p == u", "y * p == v", "1 <= p", "p <= 1000000000", "0 < eps", "eps <= 0.0000000001"],
       ensures=["iff(x < y - eps, u < v)", "iff(x > y + eps, u > v)"])
def tol0(x: real, y: real, p: real, eps: real, u: int, v: int):
    assert eps * p < 1
    assert eps * p > 0
    if x < y - eps:
        assert (y - eps - x) * p > 0
        assert u < v
    else:
        assert (x - y + eps) * p >= 0
        assert u > v - 1
    if x > y + eps:
        assert (x - eps - y) * p > 0
        assert u > v
    else:
        assert (y + eps - x) * p >= 0
        assert u < v + 1


@lemma(requires=["n >= 1", "d >= 1", "n * d <= 1000000000", "0 < eps", "eps <= 0.0000000001"],
       ensures=["iff((1.0 * a) / n < (1.0 * m) / d - eps, a * d < m * n)", "iff((1.0 * a) / n > (1.0 * m) / d + eps, a * d > m * n)"])
def tolerance(a: int, n: int, m: int, d: int, eps: real):
    cross(a, n, m, d)
    tol0((1.0 * a) / n, (1.0 * m) / d, n * d, eps, a * d, m * n)


@lemma(requires=["k >= 0", "nonneg(w, k)"], ensures=["suml(w, k) >= 0"], decreases="k")
def sum_nonneg(w: "A(int)", k: int):
    if k > 0:
        sum_nonneg(w, k - 1)


@lemma(requires=["k >= 0", "nonneg(w, k)", "suml(w, k) <= n", "forall(lambda i: implies(0 <= i and i < k, len(x[i]) == n + 1 and x[i][0] == 0))"],
       ensures=["inbox(x, w, k)", "suml(w, k) >= 0"], decreases="k")
def box_of_sum(x: "A(L(int))", w: "A(int)", n: int, k: int):
    if k > 0:
        sum_nonneg(w, k - 1)
        box_of_sum(x, w, n, k - 1)


@lemma(requires=["k >= 0", "forall(lambda i: implies(0 <= i and i < k, c[i] >= 0 and min(lim[i][0], lim[i][1]) * n <= c[i] * lim[i][2] and c[i] * lim[i][2] <= max(lim[i][0], lim[i][1]) * n))"],
       ensures=["within(c, lim, n, k)"], decreases="k")
def within_intro(c: "A(int)", lim: "A(L(int))", n: int, k: int):
    if k > 0:
        within_intro(c, lim, n, k - 1)


@lemma(requires=["within(c, lim, n, k)", "0 <= i", "i < k"],
       ensures=["c[i] >= 0", "min(lim[i][0], lim[i][1]) * n <= c[i] * lim[i][2]", "c[i] * lim[i][2] <= max(lim[i][0], lim[i][1]) * n"], decreases="k")
def within_at(c: "A(int)", lim: "A(L(int))", n: int, i: int, k: int):
    if i < k - 1:
        within_at(c, lim, n, i, k - 1)


@lemma(requires=["same(a, b, k)", "k >= 0"], ensures=["iff(within(a, lim, n, k), within(b, lim, n, k))"], decreases="k")
def same_within(a: "A(int)", b: "A(int)", lim: "A(L(int))", n: int, k: int):
    if k > 0:
        same_within(a, b, lim, n, k - 1)


@lemma(requires=["d >= 1", "n >= 1", "q <= (1.0 * m) / d * s * b", "q > (1.0 * m) / d * s * b - 1", "n == s * b", "m * n <= w * d"], ensures=["q <= w"])
def floor_below(q: int, m: int, d: int, s: int, b: int, n: int, w: int):
    assert (1.0 * m) / d * d == m
    assert (1.0 * m) / d * s * b == (1.0 * m) / d * n
    assert (1.0 * m) / d * n * d == m * n
    assert q * d <= m * n


@lemma(requires=["d >= 1", "n >= 1", "q >= (1.0 * m) / d * s * b", "n == s * b", "m * n >= w * d"], ensures=["q >= w"])
def ceil_above(q: int, m: int, d: int, s: int, b: int, n: int, w: int):
    assert (1.0 * m) / d * d == m
    assert (1.0 * m) / d * s * b == (1.0 * m) / d * n
    assert (1.0 * m) / d * n * d == m * n
    assert q * d >= m * n
    assert q * d >= w * d


@lemma(requires=["0 <= x", "x <= y", "s >= 1"], ensures=["0 <= x * s", "x * s <= y * s"])
def scale_up(x: real, y: real, s: int):
    pass


@lemma(requires=["0 <= lo", "lo <= hi", "d >= 1", "s >= 1", "b >= 1"], ensures=["0 <= (1.0 * lo) / d * s * b", "(1.0 * lo) / d * s * b <= (1.0 * hi) / d * s * b"])
def ratio_order(lo: int, hi: int, d: int, s: int, b: int):
    scale_up((1.0 * lo) / d, (1.0 * hi) / d, s)
    scale_up((1.0 * lo) / d * s, (1.0 * hi) / d * s, b)


@lemma(requires=["n == m", "m * d <= top"], ensures=["n * d <= top"])
def prod_at_most(n: int, m: int, d: int, top: int):
    pass
