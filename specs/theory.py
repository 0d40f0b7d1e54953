# Theory of the specifications: mathematical functions and lemmas about them.
# The functions are ordinary Python (they are also executed by the bounded
# checks); the lemmas are proved by the same verifier.


@spec(decreases="n")
def fact(n: int) -> int:
    return 1 if n <= 0 else n * fact(n - 1)


@spec(decreases="n")
def C(n: int, k: int) -> int:
    """Binomial coefficient by Pascal's rule."""
    if k < 0 or n < 0 or k > n:
        return 0
    if k == 0 or n == 0:
        return 1
    return C(n - 1, k - 1) + C(n - 1, k)


@spec(decreases="k", frame=("l", "0", "k"))
def suml(l: "A(int)", k: int) -> int:
    return 0 if k <= 0 else suml(l, k - 1) + l[k - 1]


@lemma(requires=["n >= 0"], ensures=["fact(n) >= 1"], decreases="n", auto=["fact(n)"])
def fact_pos(n: int):
    if n > 0:
        fact_pos(n - 1)


@lemma(requires=["b > 0", "a == b * q"], ensures=["a // b == q", "a % b == 0"])
def div_exact(a: int, b: int, q: int):
    pass


@lemma(requires=["n >= 0"], ensures=["C(n, n) == 1", "C(n, n + 1) == 0"], decreases="n")
def C_top(n: int):
    if n > 0:
        C_top(n - 1)


@lemma(requires=["n >= 1"], ensures=["C(n, 1) == n"], decreases="n")
def C_one(n: int):
    if n > 1:
        C_one(n - 1)


@lemma(requires=["0 <= j", "j < n"], ensures=["C(n, j + 1) * (j + 1) == C(n, j) * (n - j)"], decreases="n")
def absorb(n: int, j: int):
    if j > 0:
        absorb(n - 1, j - 1)
    if j < n - 1:
        absorb(n - 1, j)
    C_top(n - 1)
    C_one(n)


@lemma(requires=["0 <= k", "k <= n"], ensures=["C(n, k) == C(n, n - k)"], decreases="n")
def C_sym(n: int, k: int):
    if k > 0 and k < n:
        C_sym(n - 1, k - 1)
        C_sym(n - 1, k)
    C_top(n)


@lemma(requires=["a * p * qm == g", "b * pk * q == g", "pk == k * p", "qm == m * q", "c == a + b"],
       ensures=["c * pk * qm == (k + m) * g"])
def mul_split(a: int, b: int, k: int, m: int, p: int, q: int, g: int, pk: int, qm: int, c: int):
    assert a * pk * qm == k * (a * p * qm)
    assert b * pk * qm == m * (b * pk * q)


@lemma(requires=["0 <= k", "k <= n"], ensures=["C(n, k) * fact(k) * fact(n - k) == fact(n)"], decreases="n")
def C_fact(n: int, k: int):
    if k > 0 and k < n:
        C_fact(n - 1, k - 1)
        C_fact(n - 1, k)
        mul_split(C(n - 1, k - 1), C(n - 1, k), k, n - k, fact(k - 1), fact(n - 1 - k), fact(n - 1), fact(k), fact(n - k), C(n, k))
    C_top(n)


@lemma(requires=["n >= 0"], ensures=["C(n, k) >= 0"], decreases="n", auto=["C(n, k)"])
def C_nonneg(n: int, k: int):
    if n > 0:
        C_nonneg(n - 1, k - 1)
        C_nonneg(n - 1, k)


@spec(decreases="k", frame=("l", "0", "k"))
def prodfact(l: "A(int)", k: int) -> int:
    return 1 if k <= 0 else prodfact(l, k - 1) * fact(l[k - 1])


@lemma(requires=["0 <= j", "j <= k", "forall(lambda i: implies(0 <= i and i < k, l[i] >= 0))"],
       ensures=["suml(l, j) <= suml(l, k)", "suml(l, j) >= 0"], decreases="k")
def suml_mono(l: "A(int)", j: int, k: int):
    if k > 0:
        if j < k:
            suml_mono(l, j, k - 1)
        else:
            suml_mono(l, j - 1, k - 1)


@lemma(requires=["c * f * g == s", "r * p * s == t", "pf == p * f"], ensures=["(r * c) * pf * g == t"])
def mul5(c: int, f: int, g: int, s: int, r: int, p: int, t: int, pf: int):
    assert (r * c) * (p * f) * g == (r * p) * (c * f * g)


@spec(decreases="n")
def pw(b: int, n: int) -> int:
    return 1 if n <= 0 else b * pw(b, n - 1)


@lemma(requires=["b >= 1", "n >= 0"], ensures=["pw(b, n) >= 1"], decreases="n", auto=["pw(b, n)"])
def pw_pos(b: int, n: int):
    if n > 0:
        pw_pos(b, n - 1)


@lemma(requires=["c * f * g == s", "r * p == g", "pf == p * f"], ensures=["(r * c) * pf == s"])
def mul4(c: int, f: int, g: int, s: int, r: int, p: int, pf: int):
    assert (r * c) * (p * f) == c * f * (r * p)


@lemma(requires=["a * p == s"], ensures=["(a * b) * p == s * b"])
def mul_comm3(a: int, b: int, p: int, s: int):
    pass


@spec(decreases="k", frame=("l", "0", "k"))
def sumd(l: "A(int)", p: int, k: int) -> int:
    return 0 if k <= 0 else sumd(l, p, k - 1) + l[k - 1] // p


@spec(decreases="k", frame=("l", "0", "k"))
def prodfactd(l: "A(int)", p: int, k: int) -> int:
    return 1 if k <= 0 else prodfactd(l, p, k - 1) * fact(l[k - 1] // p)


@spec(decreases="k", frame=("l", "0", "k"))
def cpow(a: "A(bool)", l: "A(int)", p: int, c: int, k: int) -> int:
    return 1 if k <= 0 else cpow(a, l, p, c, k - 1) * (pw(c, l[k - 1] // p) if a[k - 1] else 1)


@lemma(requires=["forall(lambda j: implies(0 <= j and j < k, q[j] == l[j] // p))"], ensures=["suml(q, k) == sumd(l, p, k)"], decreases="k")
def sumd_suml(q: "A(int)", l: "A(int)", p: int, k: int):
    if k > 0:
        sumd_suml(q, l, p, k - 1)


@lemma(requires=["p >= 1", "forall(lambda j: implies(0 <= j and j < k, l[j] >= 0))"], ensures=["sumd(l, p, k) >= 0"], decreases="k")
def sumd_mono(l: "A(int)", p: int, k: int):
    if k > 0:
        sumd_mono(l, p, k - 1)


@lemma(requires=["n >= 0", "k > n"], ensures=["C(n, k) == 0"])
def C_zero(n: int, k: int):
    pass


@lemma(requires=["0 <= i", "i < n", "forall(lambda j: implies(0 <= j and j < n, l[j] >= 0))",
                 "r * prodfact(l, i) * fact(suml(l, n) - suml(l, i)) == fact(suml(l, n))"],
       ensures=["(r * C(suml(l, n) - suml(l, i), l[i])) * prodfact(l, i + 1) * fact(suml(l, n) - suml(l, i + 1)) == fact(suml(l, n))"])
def multi_step(l: "A(int)", i: int, n: int, r: int):
    suml_mono(l, i, n)
    suml_mono(l, i + 1, n)
    C_fact(suml(l, n) - suml(l, i), l[i])
    mul5(C(suml(l, n) - suml(l, i), l[i]), fact(l[i]), fact(suml(l, n) - suml(l, i) - l[i]), fact(suml(l, n) - suml(l, i)), r, prodfact(l, i), fact(suml(l, n)), prodfact(l, i + 1))
