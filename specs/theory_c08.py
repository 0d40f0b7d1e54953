# Counts of (arrow, species) pairs and the text labels of a structure.


@spec(decreases="n", frame=("p", "0", "n"))
def pcnt(p: "A(L(int))", x: int, y: int, n: int) -> int:
    """How many of the first n pairs have arrow x and species y."""
    return 0 if n <= 0 else (1 if p[n - 1][0] == x and p[n - 1][1] == y else 0) + pcnt(p, x, y, n - 1)


@lemma(requires=["n >= 0"], ensures=["pcnt(p, x, y, n) >= 0", "pcnt(p, x, y, n) <= n"], decreases="n", auto=["pcnt(p, x, y, n)"])
def pcnt_bounds(p: "A(L(int))", x: int, y: int, n: int):
    if n > 0:
        pcnt_bounds(p, x, y, n - 1)


@lemma(requires=["c >= 0", "0 <= a", "a <= 1"], ensures=["0 <= int(c * a)", "int(c * a) <= c"])
def floor_scaled(c: int, a: real):
    assert c * a >= 0
    assert c * (1 - a) >= 0


@spec(decreases="n", frame=("p", "0", "n"))
def species_text(p: "A(int)", n: int) -> str:
    """Species numbers less one, written one after the other."""
    return "" if n <= 0 else species_text(p, n - 1) + str(p[n - 1] - 1)


@spec(decreases="n")
def zeros_text(n: int) -> str:
    return "" if n <= 0 else zeros_text(n - 1) + "0"


@spec(decreases="n", frame=("p", "0", "n"))
def pair_text(p: "A(L(int))", k: int, d: int, n: int) -> str:
    """Entry k of every pair plus d, written one after the other."""
    return "" if n <= 0 else pair_text(p, k, d, n - 1) + str(p[n - 1][k] + d)


@spec(decreases="n", frame=("p", "0", "n"))
def narrows(p: "A(L(int))", n: int) -> int:
    """How many of the first n pairs carry an arrow."""
    return 0 if n <= 0 else (1 if p[n - 1][0] >= 0 else 0) + narrows(p, n - 1)
