# 3x3 integer matrices, row by row.


@spec(unfold=False)
def trip(a0: int, a1: int, a2: int, h00: int, h01: int, h02: int, h10: int, h11: int, h12: int, h20: int, h21: int, h22: int, b0: int, b1: int, b2: int) -> int:
    """Row (a0, a1, a2) times matrix h times column (b0, b1, b2)."""
    return (a0 * h00 + a1 * h10 + a2 * h20) * b0 + (a0 * h01 + a1 * h11 + a2 * h21) * b1 + (a0 * h02 + a1 * h12 + a2 * h22) * b2


@spec
def rowcol(a: "L(int)", h: "L(L(int))", b0: int, b1: int, b2: int) -> int:
    return trip(a[0], a[1], a[2], h[0][0], h[0][1], h[0][2], h[1][0], h[1][1], h[1][2], h[2][0], h[2][1], h[2][2], b0, b1, b2)


@spec
def ahb(a: "L(L(int))", h: "L(L(int))", b: "L(L(int))", i: int, j: int) -> int:
    return rowcol(a[i], h, b[0][j], b[1][j], b[2][j])


@spec(unfold=False)
def det9(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int, i: int) -> int:
    return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)


@spec
def det(m: "L(L(int))") -> int:
    return det9(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2])


@spec
def product(a: "L(L(int))", h: "L(L(int))", b: "L(L(int))", m: "L(L(int))") -> bool:
    """A*H*B == M"""
    return ahb(a, h, b, 0, 0) == m[0][0] and ahb(a, h, b, 0, 1) == m[0][1] and ahb(a, h, b, 0, 2) == m[0][2] \
        and ahb(a, h, b, 1, 0) == m[1][0] and ahb(a, h, b, 1, 1) == m[1][1] and ahb(a, h, b, 1, 2) == m[1][2] \
        and ahb(a, h, b, 2, 0) == m[2][0] and ahb(a, h, b, 2, 1) == m[2][1] and ahb(a, h, b, 2, 2) == m[2][2]


@lemma(reveal=["trip"], ensures=["rowcol([a[0] - m * c[0], a[1] - m * c[1], a[2] - m * c[2]], h, b0, b1, b2) == rowcol(a, h, b0, b1, b2) - m * rowcol(c, h, b0, b1, b2)"])
def row_comb(a: "CL(3, int)", c: "CL(3, int)", m: int, h: "CL(3, CL(3, int))", b0: int, b1: int, b2: int):
    pass


@lemma(reveal=["trip"], ensures=["rowcol(a, h, b0 - m * c0, b1 - m * c1, b2 - m * c2) == rowcol(a, h, b0, b1, b2) - m * rowcol(a, h, c0, c1, c2)"])
def col_comb(a: "CL(3, int)", h: "CL(3, CL(3, int))", b0: int, b1: int, b2: int, m: int, c0: int, c1: int, c2: int):
    pass


@lemma(reveal=["trip"], ensures=["rowcol(a, h, -b0, -b1, -b2) == -rowcol(a, h, b0, b1, b2)"])
def col_neg(a: "CL(3, int)", h: "CL(3, CL(3, int))", b0: int, b1: int, b2: int):
    pass


@lemma(reveal=["trip"], ensures=["rowcol([a[0] + c[0], a[1] + c[1], a[2] + c[2]], h, b0, b1, b2) == rowcol(a, h, b0, b1, b2) + rowcol(c, h, b0, b1, b2)"])
def row_sum(a: "CL(3, int)", c: "CL(3, int)", h: "CL(3, CL(3, int))", b0: int, b1: int, b2: int):
    pass


@lemma(reveal=["trip"], ensures=["rowcol([1, 0, 0], h, 1, 0, 0) == h[0][0]", "rowcol([1, 0, 0], h, 0, 1, 0) == h[0][1]", "rowcol([1, 0, 0], h, 0, 0, 1) == h[0][2]",
                                 "rowcol([0, 1, 0], h, 1, 0, 0) == h[1][0]", "rowcol([0, 1, 0], h, 0, 1, 0) == h[1][1]", "rowcol([0, 1, 0], h, 0, 0, 1) == h[1][2]",
                                 "rowcol([0, 0, 1], h, 1, 0, 0) == h[2][0]", "rowcol([0, 0, 1], h, 0, 1, 0) == h[2][1]", "rowcol([0, 0, 1], h, 0, 0, 1) == h[2][2]"])
def identities(h: "CL(3, CL(3, int))"):
    pass


@lemma(reveal=["det9"], ensures=["det9(1, 0, 0, 0, 1, 0, 0, 0, 1) == 1"])
def det_id():
    pass


@lemma(reveal=["trip"], ensures=["ahb(a, h, b, i, j) == (a[i][0] * h[0][0] + a[i][1] * h[1][0] + a[i][2] * h[2][0]) * b[0][j] + (a[i][0] * h[0][1] + a[i][1] * h[1][1] + a[i][2] * h[2][1]) * b[1][j]"
                                 " + (a[i][0] * h[0][2] + a[i][1] * h[1][2] + a[i][2] * h[2][2]) * b[2][j]"])
def ahb_sum(a: "CL(3, CL(3, int))", h: "CL(3, CL(3, int))", b: "CL(3, CL(3, int))", i: int, j: int):
    pass


@lemma(requires=["d != 0", "x == d * q"], ensures=["x % d == 0"])
def dvd_intro(d: int, x: int, q: int):
    pass


@lemma(ensures=["implies(d != 0 and x % d == 0 and y % d == 0, (x - m * y) % d == 0)"])
def dvd_comb(d: int, x: int, y: int, m: int):
    if d != 0 and x % d == 0 and y % d == 0:
        dvd_intro(d, x - m * y, x // d - m * (y // d))


@lemma(ensures=["implies(d != 0 and (x - y) % d == 0 and y % d == 0, x % d == 0)"])
def dvd_sum(d: int, x: int, y: int):
    if d != 0 and (x - y) % d == 0 and y % d == 0:
        dvd_intro(d, x, (x - y) // d + y // d)


@lemma(ensures=["implies(d != 0, iff((-x) % d == 0, x % d == 0))"])
def dvd_neg(d: int, x: int):
    if d != 0 and x % d == 0:
        dvd_intro(d, -x, -(x // d))
    if d != 0 and (-x) % d == 0:
        dvd_intro(d, x, -((-x) // d))
