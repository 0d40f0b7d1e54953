# Ranks of colour arrangements (combinatorial number system).


@spec(decreases="hi - lo", frame=("l", "lo", "hi"))
def cntr(l: "A(int)", v: int, lo: int, hi: int) -> int:
    """How often v occurs in l[lo:hi]."""
    return 0 if lo >= hi else (1 if l[lo] == v else 0) + cntr(l, v, lo + 1, hi)


@spec(decreases="hi - lo", frame=("l", "lo", "hi"))
def rk(l: "A(int)", lo: int, hi: int) -> int:
    """Rank of the 0/1 arrangement l[lo:hi]: at every 0 the number of arrangements with a 1 there."""
    return 0 if lo >= hi else (C(hi - lo - 1, cntr(l, 1, lo + 1, hi) - 1) if l[lo] == 0 else 0) + rk(l, lo + 1, hi)


@lemma(requires=["lo <= hi"], ensures=["cntr(l, v, lo, hi) >= 0", "cntr(l, v, lo, hi) <= hi - lo"], decreases="hi - lo", auto=["cntr(l, v, lo, hi)"])
def cntr_bounds(l: "A(int)", v: int, lo: int, hi: int):
    if lo < hi:
        cntr_bounds(l, v, lo + 1, hi)


@lemma(requires=["lo <= mid", "mid <= hi"], ensures=["cntr(l, v, lo, hi) == cntr(l, v, lo, mid) + cntr(l, v, mid, hi)"], decreases="mid - lo")
def cntr_split(l: "A(int)", v: int, lo: int, mid: int, hi: int):
    if lo < mid:
        cntr_split(l, v, lo + 1, mid, hi)


@lemma(requires=["x <= y", "forall(lambda j: implies(x <= j and j < y, a[j] == l[o + j]))"],
       ensures=["cntr(a, v, x, y) == cntr(l, v, o + x, o + y)"], decreases="y - x")
def cntr_shift(a: "A(int)", l: "A(int)", v: int, o: int, x: int, y: int):
    if x < y:
        cntr_shift(a, l, v, o, x + 1, y)


@lemma(requires=["cntr(l, v, lo, hi) == 0"], ensures=["forall(lambda j: implies(lo <= j and j < hi, l[j] != v))"], decreases="hi - lo")
def cntr_zero(l: "A(int)", v: int, lo: int, hi: int):
    if lo < hi:
        cntr_zero(l, v, lo + 1, hi)


@lemma(requires=["lo <= mid", "mid <= hi", "forall(lambda j: implies(lo <= j and j < mid, l[j] != 0))"],
       ensures=["rk(l, lo, hi) == rk(l, mid, hi)"], decreases="mid - lo")
def rk_skip(l: "A(int)", lo: int, mid: int, hi: int):
    if lo < mid:
        rk_skip(l, lo + 1, mid, hi)


@lemma(requires=["cntr(l, v, lo, hi) > 0"], ensures=["exists(lambda j: lo <= j and j < hi and l[j] == v)"], decreases="hi - lo")
def cntr_witness(l: "A(int)", v: int, lo: int, hi: int):
    if lo < hi and l[lo] != v:
        cntr_witness(l, v, lo + 1, hi)


@lemma(requires=["lo <= hi", "forall(lambda j: implies(lo <= j and j < hi, l[j] != v))"], ensures=["cntr(l, v, lo, hi) == 0"], decreases="hi - lo")
def cntr_none(l: "A(int)", v: int, lo: int, hi: int):
    if lo < hi:
        cntr_none(l, v, lo + 1, hi)


@lemma(requires=["lo <= hi", "cntr(l, 1, lo, hi) == 0"], ensures=["rk(l, lo, hi) == 0"], decreases="hi - lo")
def rk_tail(l: "A(int)", lo: int, hi: int):
    if lo < hi:
        cntr_split(l, 1, lo, lo + 1, hi)
        rk_tail(l, lo + 1, hi)


@lemma(requires=["n >= 1"], ensures=["C(n, k) == C(n - 1, k - 1) + C(n - 1, k)"], decreases="n")
def pascal(n: int, k: int):
    C_top(n - 1)
    if k > n:
        C_zero(n - 1, k)
        C_zero(n - 1, k - 1)


@lemma(requires=["0 <= lo", "lo <= hi", "forall(lambda j: implies(lo <= j and j < hi, l[j] == 0 or l[j] == 1))"],
       ensures=["0 <= rk(l, lo, hi)", "rk(l, lo, hi) < C(hi - lo, cntr(l, 1, lo, hi))"], decreases="hi - lo")
def rk_bound(l: "A(int)", lo: int, hi: int):
    if lo < hi:
        rk_bound(l, lo + 1, hi)
        pascal(hi - lo, cntr(l, 1, lo, hi))
        C_nonneg(hi - lo - 1, cntr(l, 1, lo, hi))


# Two 0/1 arrangements with the same number of ones and the same rank are equal.
@lemma(requires=["0 <= lo", "lo <= hi", "forall(lambda j: implies(lo <= j and j < hi, l[j] == 0 or l[j] == 1))",
                 "forall(lambda j: implies(lo <= j and j < hi, m[j] == 0 or m[j] == 1))",
                 "cntr(l, 1, lo, hi) == cntr(m, 1, lo, hi)", "rk(l, lo, hi) == rk(m, lo, hi)"],
       ensures=["forall(lambda j: implies(lo <= j and j < hi, l[j] == m[j]))"], decreases="hi - lo")
def rk_injective(l: "A(int)", m: "A(int)", lo: int, hi: int):
    if lo < hi:
        rk_bound(l, lo + 1, hi)
        rk_bound(m, lo + 1, hi)
        C_nonneg(hi - lo - 1, cntr(l, 1, lo, hi))
        C_nonneg(hi - lo - 1, cntr(l, 1, lo, hi) - 1)
        assert l[lo] == m[lo]
        rk_injective(l, m, lo + 1, hi)


# ---- several colours: sites already taken by earlier colours are skipped
@spec
def taken(x: int, c: int) -> bool:
    return 1 <= x and x < c


@spec(decreases="hi - lo", frame=("l", "lo", "hi"))
def free(l: "A(int)", c: int, lo: int, hi: int) -> int:
    """Sites of l[lo:hi] not taken by a colour before c."""
    return 0 if lo >= hi else (0 if taken(l[lo], c) else 1) + free(l, c, lo + 1, hi)


@spec(decreases="hi - lo", frame=("l", "lo", "hi"))
def rkc(l: "A(int)", c: int, lo: int, hi: int) -> int:
    """Rank of the positions of colour c among the sites not taken by earlier colours."""
    return 0 if lo >= hi else (0 if taken(l[lo], c) or l[lo] == c else C(free(l, c, lo + 1, hi), cntr(l, c, lo + 1, hi) - 1)) + rkc(l, c, lo + 1, hi)


@spec(decreases="k", frame=("l", "0", "k"))
def rkp(l: "A(int)", c: int, k: int, n: int, t: int) -> int:
    """Part of the rank due to the first k of n sites when t sites have colour c."""
    return 0 if k <= 0 else rkp(l, c, k - 1, n, t) + (0 if l[k - 1] == c else C(n - k, t - cntr(l, c, 0, k - 1) - 1))


@lemma(requires=["lo <= hi", "c >= 1", "forall(lambda j: implies(lo <= j and j < hi, not taken(l[j], c)))"], ensures=["free(l, c, lo, hi) == hi - lo"], decreases="hi - lo")
def free_all(l: "A(int)", c: int, lo: int, hi: int):
    if lo < hi:
        free_all(l, c, lo + 1, hi)


@lemma(requires=["0 <= lo", "lo <= n", "c >= 1", "forall(lambda j: implies(0 <= j and j < n, l[j] == 0 or l[j] == c))", "t == cntr(l, c, 0, n)"],
       ensures=["rkp(l, c, n, n, t) - rkp(l, c, lo, n, t) == rkc(l, c, lo, n)"], decreases="n - lo")
def rkp_rkc(l: "A(int)", c: int, lo: int, n: int, t: int):
    if lo < n:
        rkp_rkc(l, c, lo + 1, n, t)
        free_all(l, c, lo + 1, n)
        cntr_split(l, c, 0, lo, n)
        if l[lo] == c:
            assert rkp(l, c, lo + 1, n, t) == rkp(l, c, lo, n, t)
        else:
            assert cntr(l, c, lo, n) == cntr(l, c, lo + 1, n)


# Colours before c keep their positions when the still free sites are filled with c.
@lemma(requires=["lo <= hi", "c >= 1", "forall(lambda j: implies(lo <= j and j < hi, (a[j] != 0 and b[j] == a[j]) or (a[j] == 0 and (b[j] == 0 or b[j] > c))))"],
       ensures=["cntr(b, c, lo, hi) == cntr(a, c, lo, hi)", "free(b, c, lo, hi) == free(a, c, lo, hi)", "rkc(b, c, lo, hi) == rkc(a, c, lo, hi)"], decreases="hi - lo")
def keep_rank(a: "A(int)", b: "A(int)", c: int, lo: int, hi: int):
    if lo < hi:
        keep_rank(a, b, c, lo + 1, hi)


# Filling the free sites of a with the arrangement w (entries 0 and c).
@lemma(requires=["0 <= lo", "lo <= hi", "c >= 1", "n == cntr(a, 0, 0, hi)",
                 "forall(lambda j: implies(0 <= j and j < hi, 0 <= a[j] and a[j] < c))",
                 "forall(lambda j: implies(0 <= j and j < n, w[j] == 0 or w[j] == c))",
                 "forall(lambda j: implies(0 <= j and j < hi, b[j] == (a[j] if a[j] != 0 else w[cntr(a, 0, 0, j)])))"],
       ensures=["cntr(b, c, lo, hi) == cntr(w, c, cntr(a, 0, 0, lo), n)", "free(b, c, lo, hi) == n - cntr(a, 0, 0, lo)",
                "rkc(b, c, lo, hi) == rkc(w, c, cntr(a, 0, 0, lo), n)", "cntr(b, 0, lo, hi) == cntr(w, 0, cntr(a, 0, 0, lo), n)",
                "forall(lambda j: implies(lo <= j and j < hi, (a[j] != 0 and b[j] == a[j]) or (a[j] == 0 and (b[j] == 0 or b[j] == c))))"], decreases="hi - lo")
def fill_rank(a: "A(int)", w: "A(int)", b: "A(int)", c: int, n: int, lo: int, hi: int):
    cntr_split(a, 0, 0, lo, hi)
    if lo < hi:
        cntr_split(a, 0, 0, lo, lo + 1)
        cntr_split(a, 0, 0, lo + 1, hi)
        fill_rank(a, w, b, c, n, lo + 1, hi)
        if a[lo] == 0:
            assert cntr(a, 0, 0, lo + 1) == cntr(a, 0, 0, lo) + 1
            assert b[lo] == w[cntr(a, 0, 0, lo)]
            free_all(w, c, cntr(a, 0, 0, lo) + 1, n)
        else:
            assert cntr(a, 0, 0, lo + 1) == cntr(a, 0, 0, lo)


@lemma(requires=["lo <= hi", "c != 0", "forall(lambda j: implies(lo <= j and j < hi, w[j] == 0 or w[j] == c))"],
       ensures=["cntr(w, 0, lo, hi) + cntr(w, c, lo, hi) == hi - lo"], decreases="hi - lo")
def two_values(w: "A(int)", c: int, lo: int, hi: int):
    if lo < hi:
        two_values(w, c, lo + 1, hi)


@lemma(requires=["lo <= hi", "c >= 1"], ensures=["cntr(l, c, lo, hi) <= free(l, c, lo, hi)"], decreases="hi - lo", auto=["free(l, c, lo, hi)"])
def cntr_free(l: "A(int)", c: int, lo: int, hi: int):
    if lo < hi:
        cntr_free(l, c, lo + 1, hi)


@lemma(requires=["lo <= hi", "c >= 1"], ensures=["0 <= rkc(l, c, lo, hi)", "rkc(l, c, lo, hi) < C(free(l, c, lo, hi), cntr(l, c, lo, hi))"], decreases="hi - lo")
def rkc_bound(l: "A(int)", c: int, lo: int, hi: int):
    if lo < hi:
        rkc_bound(l, c, lo + 1, hi)
        cntr_free(l, c, lo + 1, hi)
        cntr_bounds(l, c, lo + 1, hi)
        if not taken(l[lo], c):
            pascal(free(l, c, lo, hi), cntr(l, c, lo, hi))
            C_nonneg(free(l, c, lo, hi) - 1, cntr(l, c, lo, hi))
            C_nonneg(free(l, c, lo, hi) - 1, cntr(l, c, lo, hi) - 1)


@lemma(requires=["lo <= hi", "forall(lambda j: implies(lo <= j and j < hi, taken(l[j], c) == taken(m[j], c)))"],
       ensures=["free(l, c, lo, hi) == free(m, c, lo, hi)"], decreases="hi - lo")
def same_free(l: "A(int)", m: "A(int)", c: int, lo: int, hi: int):
    if lo < hi:
        same_free(l, m, c, lo + 1, hi)


# Arrangements that agree on the colours before c and have the same number of
# sites of colour c and the same rank agree on colour c: ranks are injective.
@lemma(requires=["lo <= hi", "c >= 1", "forall(lambda j: implies(lo <= j and j < hi, taken(l[j], c) == taken(m[j], c)))",
                 "cntr(l, c, lo, hi) == cntr(m, c, lo, hi)", "rkc(l, c, lo, hi) == rkc(m, c, lo, hi)"],
       ensures=["forall(lambda j: implies(lo <= j and j < hi, (l[j] == c) == (m[j] == c)))"], decreases="hi - lo")
def rkc_injective(l: "A(int)", m: "A(int)", c: int, lo: int, hi: int):
    if lo < hi:
        same_free(l, m, c, lo + 1, hi)
        if taken(l[lo], c):
            rkc_injective(l, m, c, lo + 1, hi)
        else:
            rkc_bound(l, c, lo + 1, hi)
            rkc_bound(m, c, lo + 1, hi)
            assert (l[lo] == c) == (m[lo] == c)
            rkc_injective(l, m, c, lo + 1, hi)
