# Arrangements moved by site permutations.


@spec(unfold=False)
def moved(a: "L(int)", perm: "L(int)", b: "L(int)", n: int) -> bool:
    """The permutation takes arrangement a to arrangement b."""
    return all(a[perm[i]] == b[i] for i in range(n))


@spec(unfold=False)
def moved2(a: "L(L(int))", perm: "L(int)", b: "L(L(int))", n: int) -> bool:
    return all(a[perm[i]][1] == b[i][1] for i in range(n))


@spec
def counts_up(perm: "L(int)", k: int) -> bool:
    return len(perm) == k and all(perm[i] == i for i in range(k))


@spec(unfold=False)
def right_counts(c: "L(int)", concs: "L(int)", n: int) -> bool:
    """Species s + 1 sits on concs[s] sites."""
    return all(cntr(c, s + 1, 0, n) == concs[s] for s in range(len(concs)))


@lemma(requires=["0 <= k", "k <= n"], ensures=["C(n, k) >= 1"], decreases="n")
def C_positive(n: int, k: int):
    if n > 0 and k > 0:
        C_positive(n - 1, k - 1)
        C_nonneg(n - 1, k)


@lemma(requires=["forall(lambda c: implies(1 <= c and c <= len(concs), cntr(a, c, 0, n) == concs[c - 1]))"], ensures=["right_counts(a, concs, n)"], reveal=["right_counts"])
def right_counts_intro(a: "L(int)", concs: "L(int)", n: int):
    pass


@spec(unfold=False)
def right_counts2(s: "L(L(int))", concs: "L(int)", n: int) -> bool:
    """Species c + 1 sits without an arrow on concs[c] sites."""
    return all(pcnt(s, -1, c + 1, n) == concs[c] for c in range(len(concs)))


@lemma(requires=["n >= 0", "all(s[i][0] == -1 and s[i][1] == a[i] for i in range(n))"], ensures=["pcnt(s, -1, v, n) == cntr(a, v, 0, n)"], decreases="n")
def same_count(a: "A(int)", s: "A(L(int))", v: int, n: int):
    if n > 0:
        same_count(a, s, v, n - 1)
        cntr_split(a, v, 0, n - 1, n)


@lemma(requires=["0 <= k", "k <= len(concs)", "n >= 0", "all(s[i][0] == -1 and s[i][1] == a[i] for i in range(n))", "all(cntr(a, c + 1, 0, n) == concs[c] for c in range(len(concs)))"],
       ensures=["all(pcnt(s, -1, c + 1, n) == concs[c] for c in range(k))"], decreases="k")
def same_counts(a: "L(int)", s: "L(L(int))", concs: "L(int)", n: int, k: int):
    if k > 0:
        same_counts(a, s, concs, n, k - 1)
        same_count(a, s, k, n)


@lemma(requires=["n >= 0", "right_counts(a, concs, n)", "all(s[i][0] == -1 and s[i][1] == a[i] for i in range(n))"], ensures=["right_counts2(s, concs, n)"], reveal=["right_counts", "right_counts2"])
def pairs_counts(a: "L(int)", s: "L(L(int))", concs: "L(int)", n: int):
    same_counts(a, s, concs, n, len(concs))


@lemma(requires=["moved2(s, perm, t, n)", "all(0 <= perm[i] and perm[i] < n for i in range(n))", "all(s[i][1] == a[i] for i in range(n))", "all(t[i][1] == b[i] for i in range(n))"],
       ensures=["moved(a, perm, b, n)"], reveal=["moved", "moved2"])
def moved2_moved(s: "L(L(int))", t: "L(L(int))", a: "L(int)", b: "L(int)", perm: "L(int)", n: int):
    pass
