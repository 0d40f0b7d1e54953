# Members of a product of three cyclic groups, and matchings of lists of vectors.


@spec
def near(x: real, y: real) -> bool:
    """The tolerance test numpy.allclose makes by default."""
    return (x - y if x >= y else y - x) <= 1e-08 + 1e-05 * (y if y >= 0 else -y)


@lemma(requires=["n2 >= 1", "0 <= r", "r < n2"], ensures=["implies(r + 1 < n2, (r + 1) % n2 == r + 1)", "implies(r + 1 == n2, (r + 1) % n2 == 0)"])
def roll(r: int, n2: int):
    pass


@lemma(requires=["n0 >= 1", "n1 >= 1", "n2 >= 1", "0 <= b", "b < n1", "0 <= c", "c < n2", "a * n1 * n2 + b * n2 + c < n0 * n1 * n2"], ensures=["a < n0"])
def top_digit(a: int, b: int, c: int, n0: int, n1: int, n2: int):
    if a >= n0:
        assert (a - n0) * (n1 * n2) >= 0
        assert b * n2 >= 0


@lemma(requires=["n0 >= 1", "n1 >= 1", "n2 >= 1", "0 <= a", "a < n0", "0 <= b", "b < n1", "0 <= c", "c < n2", "a * n1 * n2 + b * n2 + c == m", "m + 1 < n0 * n1 * n2"],
       ensures=["implies(c + 1 < n2, (c + 1) % n2 == c + 1)", "implies(c + 1 == n2 and b + 1 < n1, (c + 1) % n2 == 0 and (b + 1) % n1 == b + 1 and a * n1 * n2 + (b + 1) * n2 == m + 1)",
                "implies(c + 1 == n2 and b + 1 == n1, (c + 1) % n2 == 0 and (b + 1) % n1 == 0 and (a + 1) % n0 == a + 1 and (a + 1) * n1 * n2 == m + 1)"])
def next_member(a: int, b: int, c: int, n0: int, n1: int, n2: int, m: int):
    roll(c, n2)
    roll(b, n1)
    if c + 1 == n2 and b + 1 == n1:
        assert b * n2 + n2 == n1 * n2
        assert (a + 1) * (n1 * n2) == m + 1
        top_digit(a + 1, 0, 0, n0, n1, n2)
        roll(a, n0)


@spec(unfold=False)
def close3(a: "L(real)", b: "L(real)") -> bool:
    """The tolerance test numpy.allclose makes by default, for vectors of three numbers."""
    return near(a[0], b[0]) and near(a[1], b[1]) and near(a[2], b[2])


@spec(unfold=False)
def within3(a: "L(real)", b: "L(real)", eps: real) -> bool:
    return abs(a[0] - b[0]) <= eps and abs(a[1] - b[1]) <= eps and abs(a[2] - b[2]) <= eps


@lemma(reveal=["close3"], ensures=["iff(close3(a, b), near(a[0], b[0]) and near(a[1], b[1]) and near(a[2], b[2]))"])
def close3_def(a: "L(real)", b: "L(real)"):
    pass


@lemma(reveal=["within3"], ensures=["iff(within3(a, b, eps), abs(a[0] - b[0]) <= eps and abs(a[1] - b[1]) <= eps and abs(a[2] - b[2]) <= eps)"])
def within3_def(a: "L(real)", b: "L(real)", eps: real):
    pass


@spec(unfold=False)
def transposed(a: "L(L(real))", b: "L(L(real))") -> bool:
    """b is the transpose of a within the tolerance of numpy.allclose."""
    return all(all(near(a[j][i], b[i][j]) for j in range(3)) for i in range(3))


@lemma(reveal=["transposed"], ensures=["iff(transposed(a, b), near(a[0][0], b[0][0]) and near(a[1][0], b[0][1]) and near(a[2][0], b[0][2]) and near(a[0][1], b[1][0]) and near(a[1][1], b[1][1])"
                                       " and near(a[2][1], b[1][2]) and near(a[0][2], b[2][0]) and near(a[1][2], b[2][1]) and near(a[2][2], b[2][2]))"])
def transposed_def(a: "L(L(real))", b: "L(L(real))"):
    pass
