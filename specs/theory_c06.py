# Coefficients of powers of sums of powers.


@spec(unfold=False)
def mterm(l: "L(int)", p: int, a: "L(bool)", c: int) -> int:
    """Coefficient of the monomial with exponents l in (sum of c_i x_i ** p) ** m, c_i = c where a[i] and 1 elsewhere."""
    return (fact(sumd(l, p, len(l))) * cpow(a, l, p, c, len(l))) // prodfactd(l, p, len(l)) if all(x % p == 0 for x in l) else 0


@lemma(requires=["x >= 1", "y >= 1"], ensures=["x * y >= 1"])
def mul_pos(x: int, y: int):
    pass


@lemma(requires=["k >= 0"], ensures=["prodfactd(l, p, k) >= 1"], decreases="k", auto=["prodfactd(l, p, k)"])
def prodfactd_pos(l: "A(int)", p: int, k: int):
    if k > 0:
        prodfactd_pos(l, p, k - 1)
        mul_pos(prodfactd(l, p, k - 1), fact(l[k - 1] // p))


@lemma(requires=["all(x % p == 0 for x in l)", "r * prodfactd(l, p, len(l)) == fact(sumd(l, p, len(l))) * cpow(a, l, p, c, len(l))"], ensures=["r == mterm(l, p, a, c)"], reveal=["mterm"])
def mterm_value(l: "L(int)", p: int, a: "L(bool)", c: int, r: int):
    div_exact(fact(sumd(l, p, len(l))) * cpow(a, l, p, c, len(l)), prodfactd(l, p, len(l)), r)


@lemma(requires=["any(x % p != 0 for x in l)"], ensures=["mterm(l, p, a, c) == 0"], reveal=["mterm"])
def mterm_zero(l: "L(int)", p: int, a: "L(bool)", c: int):
    pass
