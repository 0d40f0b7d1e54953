# Mixed radix numbers of the arrow arrangements.


@spec(decreases="k", frame=("l", "0", "k"))
def ah(l: "A(int)", d: int, k: int) -> int:
    return 0 if k <= 0 else ah(l, d, k - 1) + l[k - 1] * pw(d, k - 1)


@spec(decreases="hi - lo", frame=("l", "lo", "hi"))
def aseg(l: "A(int)", d: int, lo: int, hi: int) -> int:
    return 0 if lo >= hi else l[lo] * pw(d, lo) + aseg(l, d, lo + 1, hi)


@lemma(requires=["0 <= lo", "lo <= hi"], ensures=["ah(l, d, lo) + aseg(l, d, lo, hi) == ah(l, d, hi)"], decreases="hi - lo")
def ah_split0(l: "A(int)", d: int, lo: int, hi: int):
    if lo < hi:
        ah_split0(l, d, lo + 1, hi)


@lemma(requires=["0 <= hi"], ensures=["aseg(l, d, 0, hi) == ah(l, d, hi)"])
def ah_split(l: "A(int)", d: int, hi: int):
    ah_split0(l, d, 0, hi)


@lemma(requires=["d >= 1", "k >= 0", "forall(lambda j: implies(0 <= j and j < k, 0 <= l[j] and l[j] < d))"],
       ensures=["0 <= ah(l, d, k)", "ah(l, d, k) < pw(d, k)"], decreases="k")
def ah_bound(l: "A(int)", d: int, k: int):
    if k > 0:
        ah_bound(l, d, k - 1)
        assert l[k - 1] * pw(d, k - 1) <= (d - 1) * pw(d, k - 1)
        assert l[k - 1] * pw(d, k - 1) >= 0


@lemma(requires=["b >= 1", "d >= 1", "0 <= a", "a < d * b"], ensures=["0 <= a // b", "a // b < d", "0 <= a - b * (a // b)", "a - b * (a // b) < b"])
def digit_bound(a: int, b: int, d: int):
    if a // b >= d:
        assert b * (a // b) >= b * d
    if a // b < 0:
        assert b * (a // b) <= 0 - b


@lemma(requires=["q >= 1", "0 <= x", "x < q", "0 <= y", "y < q", "x + a * q == y + b * q"], ensures=["x == y", "a == b"])
def digits_unique(x: int, y: int, a: int, b: int, q: int):
    assert (a - b) * q == y - x
    if a > b:
        assert (a - b) * q >= q
    if a < b:
        assert (b - a) * q >= q


# Equal numbers come from equal arrangements: with the postcondition of
# _ainvhash this makes the two functions inverse to each other.
@lemma(requires=["d >= 1", "k >= 0", "forall(lambda j: implies(0 <= j and j < k, 0 <= l[j] and l[j] < d))",
                 "forall(lambda j: implies(0 <= j and j < k, 0 <= m[j] and m[j] < d))", "ah(l, d, k) == ah(m, d, k)"],
       ensures=["forall(lambda j: implies(0 <= j and j < k, l[j] == m[j]))"], decreases="k")
def ah_injective(l: "A(int)", m: "A(int)", d: int, k: int):
    if k > 0:
        ah_bound(l, d, k - 1)
        ah_bound(m, d, k - 1)
        digits_unique(ah(l, d, k - 1), ah(m, d, k - 1), l[k - 1], m[k - 1], pw(d, k - 1))
        ah_injective(l, m, d, k - 1)
