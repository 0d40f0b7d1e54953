# Interior points of a supercell, their group coordinates and label positions.
# h is the Hermite normal form (lower triangular), l the left transform, s the
# diagonal of the Smith normal form. Point number p of the list belongs to the
# basis vector and the lattice point that the mixed radix digits of p select.


@spec
def cellsize(h: "L(L(int))") -> int:
    return h[0][0] * h[1][1] * h[2][2]


@spec(unfold=False)
def lo2(a: int, b: int, z1: int) -> int:
    return (b * z1) // a


@spec(unfold=False)
def lo3(a: int, b: int, c: int, d: int, e: int, z1: int, z2: int) -> int:
    return (z1 * (d * c - e * b) + a * e * z2) // (a * c)


@spec
def site(h: "L(L(int))", p: int) -> int:
    """Number of the basis vector of point p."""
    return p // h[2][2] // h[1][1] // h[0][0]


@spec
def zz1(h: "L(L(int))", p: int) -> int:
    return p // h[2][2] // h[1][1] % h[0][0]


@spec
def zz2(h: "L(L(int))", p: int) -> int:
    return p // h[2][2] % h[1][1] + lo2(h[0][0], h[1][0], zz1(h, p))


@spec
def zz3(h: "L(L(int))", p: int) -> int:
    return p % h[2][2] + lo3(h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], zz1(h, p), zz2(h, p))


@spec
def gcoord(l: "L(L(int))", s: "L(int)", i: int, z1: int, z2: int, z3: int) -> int:
    return (l[i][0] * z1 + l[i][1] * z2 + l[i][2] * z3) % s[i]


@spec
def gidx(l: "L(L(int))", s: "L(int)", d: int, z1: int, z2: int, z3: int) -> int:
    """Label position of basis vector d at the lattice point (z1, z2, z3)."""
    return d * s[0] * s[1] * s[2] + gcoord(l, s, 0, z1, z2, z3) * s[1] * s[2] + gcoord(l, s, 1, z1, z2, z3) * s[2] + gcoord(l, s, 2, z1, z2, z3)


@spec(unfold=False)
def gat(h: "L(L(int))", l: "L(L(int))", s: "L(int)", p: int) -> int:
    """Label position of point p."""
    return gidx(l, s, site(h, p), zz1(h, p), zz2(h, p), zz3(h, p))


@spec(unfold=False)
def bat(h: "L(L(int))", v: "L(L(real))", t: "L(L(real))", p: int, i: int) -> real:
    """Cartesian coordinate i of point p: lattice point plus basis vector."""
    return v[i][0] * zz1(h, p) + v[i][1] * zz2(h, p) + v[i][2] * zz3(h, p) + t[site(h, p)][i]


@lemma(requires=["b >= 1", "0 <= r", "r < b"], ensures=["(q * b + r) // b == q", "(q * b + r) % b == r"])
def divmod_unique(q: int, r: int, b: int):
    assert (q * b + r) // b * b + (q * b + r) % b == q * b + r
    if (q * b + r) // b > q:
        assert ((q * b + r) // b - q) * b >= b
    if (q * b + r) // b < q:
        assert (q - (q * b + r) // b) * b >= b


@lemma(requires=["h[0][0] >= 1", "h[1][1] >= 1", "h[2][2] >= 1", "0 <= z1", "z1 < h[0][0]", "0 <= u2", "u2 < h[1][1]", "0 <= u3", "u3 < h[2][2]",
                 "p == ((d * h[0][0] + z1) * h[1][1] + u2) * h[2][2] + u3"],
       ensures=["site(h, p) == d", "zz1(h, p) == z1", "p // h[2][2] % h[1][1] == u2", "p % h[2][2] == u3"])
def digits_of(h: "CL(3, CL(3, int))", d: int, z1: int, u2: int, u3: int, p: int):
    divmod_unique((d * h[0][0] + z1) * h[1][1] + u2, u3, h[2][2])
    divmod_unique(d * h[0][0] + z1, u2, h[1][1])
    divmod_unique(d, z1, h[0][0])


@lemma(requires=["h[0][0] >= 1", "h[1][1] >= 1", "h[2][2] >= 1", "0 <= z1", "z1 < h[0][0]", "0 <= z2 - lo2(h[0][0], h[1][0], z1)", "z2 - lo2(h[0][0], h[1][0], z1) < h[1][1]",
                 "0 <= z3 - lo3(h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], z1, z2)", "z3 - lo3(h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], z1, z2) < h[2][2]",
                 "p == ((d * h[0][0] + z1) * h[1][1] + (z2 - lo2(h[0][0], h[1][0], z1))) * h[2][2] + (z3 - lo3(h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], z1, z2))"],
       ensures=["gat(h, l, s, p) == gidx(l, s, d, z1, z2, z3)",
                "bat(h, v, t, p, 0) == v[0][0] * z1 + v[0][1] * z2 + v[0][2] * z3 + t[d][0]", "bat(h, v, t, p, 1) == v[1][0] * z1 + v[1][1] * z2 + v[1][2] * z3 + t[d][1]",
                "bat(h, v, t, p, 2) == v[2][0] * z1 + v[2][1] * z2 + v[2][2] * z3 + t[d][2]"], reveal=["gat", "bat"])
def at_point(h: "CL(3, CL(3, int))", l: "CL(3, CL(3, int))", s: "CL(3, int)", v: "CL(3, CL(3, real))", t: "L(L(real))", d: int, z1: int, z2: int, z3: int, p: int):
    digits_of(h, d, z1, z2 - lo2(h[0][0], h[1][0], z1), z3 - lo3(h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], z1, z2), p)


@lemma(reveal=["lo2"], ensures=["lo2(a, b, z1) == (b * z1) // a"])
def lo2_def(a: int, b: int, z1: int):
    pass


@lemma(reveal=["lo3"], ensures=["lo3(a, b, c, d, e, z1, z2) == (z1 * (d * c - e * b) + a * e * z2) // (a * c)"])
def lo3_def(a: int, b: int, c: int, d: int, e: int, z1: int, z2: int):
    pass


@lemma(requires=["b >= 1", "0 <= p", "p < m * b"], ensures=["0 <= p // b", "p // b < m", "p == p // b * b + p % b", "0 <= p % b", "p % b < b"])
def div_lt(p: int, b: int, m: int):
    if p // b >= m:
        assert (p // b - m) * b >= 0


@lemma(requires=["0 <= v", "v < t", "0 <= d", "d < w"], ensures=["0 <= v * w + d", "v * w + d < t * w"])
def radix_step(v: int, t: int, d: int, w: int):
    assert (t - 1 - v) * w >= 0


@lemma(requires=["0 <= d", "d < w", "0 <= e", "e < w", "p * w + d == q * w + e"], ensures=["p == q", "d == e"])
def radix_two(p: int, q: int, d: int, e: int, w: int):
    if p < q:
        assert (q - p) * w >= w
    if p > q:
        assert (p - q) * w >= w


@lemma(ensures=["d * x * y * z + g * y * z + h * z + k == ((d * x + g) * y + h) * z + k"])
def horner(d: int, x: int, y: int, z: int, g: int, h: int, k: int):
    pass


@lemma(requires=["s >= 1"], ensures=["0 <= x % s", "x % s < s", "x == x // s * s + x % s"])
def mod_range(x: int, s: int):
    pass


@lemma(requires=["0 <= d", "d < m", "0 <= g", "g < x", "0 <= h", "h < y", "0 <= k", "k < z"],
       ensures=["0 <= d * x * y * z + g * y * z + h * z + k", "d * x * y * z + g * y * z + h * z + k < m * x * y * z"])
def position_range(d: int, m: int, g: int, h: int, k: int, x: int, y: int, z: int):
    horner(d, x, y, z, g, h, k)
    radix_step(d, m, g, x)
    radix_step(d * x + g, m * x, h, y)
    radix_step((d * x + g) * y + h, m * x * y, k, z)


@lemma(requires=["0 <= g", "g < x", "0 <= h", "h < y", "0 <= k", "k < z", "0 <= g2", "g2 < x", "0 <= h2", "h2 < y", "0 <= k2", "k2 < z",
                 "d * x * y * z + g * y * z + h * z + k == d2 * x * y * z + g2 * y * z + h2 * z + k2"],
       ensures=["d == d2", "g == g2", "h == h2", "k == k2"])
def position_unique(d: int, d2: int, g: int, h: int, k: int, g2: int, h2: int, k2: int, x: int, y: int, z: int):
    horner(d, x, y, z, g, h, k)
    horner(d2, x, y, z, g2, h2, k2)
    radix_two((d * x + g) * y + h, (d2 * x + g2) * y + h2, k, k2, z)
    radix_two(d * x + g, d2 * x + g2, h, h2, y)
    radix_two(d, d2, g, g2, x)


@spec
def lrow(l: "L(L(int))", i: int, z1: int, z2: int, z3: int) -> int:
    return l[i][0] * z1 + l[i][1] * z2 + l[i][2] * z3


@lemma(requires=["h[0][0] >= 1", "h[1][1] >= 1", "h[2][2] >= 1", "0 <= p", "p < m * h[0][0] * h[1][1] * h[2][2]"],
       ensures=["0 <= site(h, p)", "site(h, p) < m", "0 <= zz1(h, p)", "zz1(h, p) < h[0][0]",
                "0 <= p // h[2][2] % h[1][1]", "p // h[2][2] % h[1][1] < h[1][1]", "0 <= p % h[2][2]", "p % h[2][2] < h[2][2]",
                "p == ((site(h, p) * h[0][0] + zz1(h, p)) * h[1][1] + p // h[2][2] % h[1][1]) * h[2][2] + p % h[2][2]"])
def digits_range(h: "CL(3, CL(3, int))", p: int, m: int):
    div_lt(p, h[2][2], m * h[0][0] * h[1][1])
    div_lt(p // h[2][2], h[1][1], m * h[0][0])
    div_lt(p // h[2][2] // h[1][1], h[0][0], m)


@lemma(requires=["h[0][0] >= 1", "h[1][1] >= 1", "h[2][2] >= 1", "0 <= p", "p < m * h[0][0] * h[1][1] * h[2][2]", "s[0] >= 1", "s[1] >= 1", "s[2] >= 1"],
       ensures=["0 <= gat(h, l, s, p)", "gat(h, l, s, p) < m * s[0] * s[1] * s[2]"], reveal=["gat"])
def gat_range(h: "CL(3, CL(3, int))", l: "CL(3, CL(3, int))", s: "CL(3, int)", p: int, m: int):
    digits_range(h, p, m)
    mod_range(lrow(l, 0, zz1(h, p), zz2(h, p), zz3(h, p)), s[0])
    mod_range(lrow(l, 1, zz1(h, p), zz2(h, p), zz3(h, p)), s[1])
    mod_range(lrow(l, 2, zz1(h, p), zz2(h, p), zz3(h, p)), s[2])
    position_range(site(h, p), m, gcoord(l, s, 0, zz1(h, p), zz2(h, p), zz3(h, p)), gcoord(l, s, 1, zz1(h, p), zz2(h, p), zz3(h, p)), gcoord(l, s, 2, zz1(h, p), zz2(h, p), zz3(h, p)), s[0], s[1], s[2])


# ---- two points of one cell with the same group coordinates are the same point
@lemma(requires=["0 - a < x", "x < a", "x == a * y"], ensures=["x == 0", "y == 0"])
def small_multiple(x: int, a: int, y: int):
    if y >= 1:
        assert a * (y - 1) >= 0
    if y <= 0 - 1:
        assert a * (y + 1) <= 0


@lemma(requires=["det(l) != 0", "lrow(l, 0, u0, u1, u2) == 0", "lrow(l, 1, u0, u1, u2) == 0", "lrow(l, 2, u0, u1, u2) == 0"], ensures=["u0 == 0", "u1 == 0", "u2 == 0"], reveal=["det9"])
def kernel(l: "CL(3, CL(3, int))", u0: int, u1: int, u2: int):
    assert det(l) * u0 == (l[1][1] * l[2][2] - l[1][2] * l[2][1]) * lrow(l, 0, u0, u1, u2) - (l[0][1] * l[2][2] - l[0][2] * l[2][1]) * lrow(l, 1, u0, u1, u2) + (l[0][1] * l[1][2] - l[0][2] * l[1][1]) * lrow(l, 2, u0, u1, u2)
    assert det(l) * u1 == (l[1][2] * l[2][0] - l[1][0] * l[2][2]) * lrow(l, 0, u0, u1, u2) - (l[0][2] * l[2][0] - l[0][0] * l[2][2]) * lrow(l, 1, u0, u1, u2) + (l[0][2] * l[1][0] - l[0][0] * l[1][2]) * lrow(l, 2, u0, u1, u2)
    assert det(l) * u2 == (l[1][0] * l[2][1] - l[1][1] * l[2][0]) * lrow(l, 0, u0, u1, u2) - (l[0][0] * l[2][1] - l[0][1] * l[2][0]) * lrow(l, 1, u0, u1, u2) + (l[0][0] * l[1][1] - l[0][1] * l[1][0]) * lrow(l, 2, u0, u1, u2)


@lemma(reveal=["trip"], ensures=["lrow(l, i, lrow(h, 0, y0, y1, y2), lrow(h, 1, y0, y1, y2), lrow(h, 2, y0, y1, y2)) =="
                                 " (l[i][0] * h[0][0] + l[i][1] * h[1][0] + l[i][2] * h[2][0]) * y0 + (l[i][0] * h[0][1] + l[i][1] * h[1][1] + l[i][2] * h[2][1]) * y1 + (l[i][0] * h[0][2] + l[i][1] * h[1][2] + l[i][2] * h[2][2]) * y2"])
def rows_first(l: "CL(3, CL(3, int))", h: "CL(3, CL(3, int))", i: int, y0: int, y1: int, y2: int):
    pass


@lemma(ensures=["a0 * lrow(r, 0, t0, t1, t2) + a1 * lrow(r, 1, t0, t1, t2) + a2 * lrow(r, 2, t0, t1, t2) =="
                " (a0 * r[0][0] + a1 * r[1][0] + a2 * r[2][0]) * t0 + (a0 * r[0][1] + a1 * r[1][1] + a2 * r[2][1]) * t1 + (a0 * r[0][2] + a1 * r[1][2] + a2 * r[2][2]) * t2"])
def regroup(a0: int, a1: int, a2: int, r: "CL(3, CL(3, int))", t0: int, t1: int, t2: int):
    pass


@spec
def smith(l: "L(L(int))", h: "L(L(int))", r: "L(L(int))", s: "L(int)") -> bool:
    """l * h * r is the diagonal matrix s and l is invertible."""
    return ahb(l, h, r, 0, 0) == s[0] and ahb(l, h, r, 0, 1) == 0 and ahb(l, h, r, 0, 2) == 0 \
        and ahb(l, h, r, 1, 0) == 0 and ahb(l, h, r, 1, 1) == s[1] and ahb(l, h, r, 1, 2) == 0 \
        and ahb(l, h, r, 2, 0) == 0 and ahb(l, h, r, 2, 1) == 0 and ahb(l, h, r, 2, 2) == s[2] and det(l) != 0


@lemma(requires=["i == 0 or i == 1 or i == 2"],
       ensures=["lrow(l, i, lrow(h, 0, lrow(r, 0, t0, t1, t2), lrow(r, 1, t0, t1, t2), lrow(r, 2, t0, t1, t2)), lrow(h, 1, lrow(r, 0, t0, t1, t2), lrow(r, 1, t0, t1, t2), lrow(r, 2, t0, t1, t2)), lrow(h, 2, lrow(r, 0, t0, t1, t2), lrow(r, 1, t0, t1, t2), lrow(r, 2, t0, t1, t2)))"
                " == ahb(l, h, r, i, 0) * t0 + ahb(l, h, r, i, 1) * t1 + ahb(l, h, r, i, 2) * t2"], reveal=["trip"])
def triple(l: "CL(3, CL(3, int))", h: "CL(3, CL(3, int))", r: "CL(3, CL(3, int))", i: int, t0: int, t1: int, t2: int):
    rows_first(l, h, i, lrow(r, 0, t0, t1, t2), lrow(r, 1, t0, t1, t2), lrow(r, 2, t0, t1, t2))
    regroup(l[i][0] * h[0][0] + l[i][1] * h[1][0] + l[i][2] * h[2][0], l[i][0] * h[0][1] + l[i][1] * h[1][1] + l[i][2] * h[2][1], l[i][0] * h[0][2] + l[i][1] * h[1][2] + l[i][2] * h[2][2], r, t0, t1, t2)


@lemma(ensures=["lrow(l, i, a - x, b - y, c - z) == lrow(l, i, a, b, c) - lrow(l, i, x, y, z)"])
def lrow_sub(l: "CL(3, CL(3, int))", i: int, a: int, b: int, c: int, x: int, y: int, z: int):
    pass


@lemma(requires=["det(l) != 0", "lrow(l, 0, a, b, c) == lrow(l, 0, x, y, z)", "lrow(l, 1, a, b, c) == lrow(l, 1, x, y, z)", "lrow(l, 2, a, b, c) == lrow(l, 2, x, y, z)"],
       ensures=["a == x", "b == y", "c == z"])
def one_to_one(l: "CL(3, CL(3, int))", a: int, b: int, c: int, x: int, y: int, z: int):
    lrow_sub(l, 0, a, b, c, x, y, z)
    lrow_sub(l, 1, a, b, c, x, y, z)
    lrow_sub(l, 2, a, b, c, x, y, z)
    kernel(l, a - x, b - y, c - z)


@lemma(requires=["smith(l, h, r, s)", "h[0][1] == 0", "h[0][2] == 0", "h[1][2] == 0", "h[0][0] >= 1", "h[1][1] >= 1", "h[2][2] >= 1",
                 "lrow(l, 0, v0, v1, v2) == s[0] * t0", "lrow(l, 1, v0, v1, v2) == s[1] * t1", "lrow(l, 2, v0, v1, v2) == s[2] * t2",
                 "0 - h[0][0] < v0", "v0 < h[0][0]"],
       ensures=["v0 == 0", "implies(0 - h[1][1] < v1 and v1 < h[1][1], v1 == 0)",
                "implies(0 - h[1][1] < v1 and v1 < h[1][1] and 0 - h[2][2] < v2 and v2 < h[2][2], v2 == 0)"])
def no_vector(l: "CL(3, CL(3, int))", h: "CL(3, CL(3, int))", r: "CL(3, CL(3, int))", s: "CL(3, int)", v0: int, v1: int, v2: int, t0: int, t1: int, t2: int):
    triple(l, h, r, 0, t0, t1, t2)
    triple(l, h, r, 1, t0, t1, t2)
    triple(l, h, r, 2, t0, t1, t2)
    one_to_one(l, v0, v1, v2, lrow(h, 0, lrow(r, 0, t0, t1, t2), lrow(r, 1, t0, t1, t2), lrow(r, 2, t0, t1, t2)), lrow(h, 1, lrow(r, 0, t0, t1, t2), lrow(r, 1, t0, t1, t2), lrow(r, 2, t0, t1, t2)), lrow(h, 2, lrow(r, 0, t0, t1, t2), lrow(r, 1, t0, t1, t2), lrow(r, 2, t0, t1, t2)))
    assert v0 == h[0][0] * lrow(r, 0, t0, t1, t2)
    small_multiple(v0, h[0][0], lrow(r, 0, t0, t1, t2))
    assert v1 == h[1][1] * lrow(r, 1, t0, t1, t2)
    if 0 - h[1][1] < v1 and v1 < h[1][1]:
        small_multiple(v1, h[1][1], lrow(r, 1, t0, t1, t2))
        assert v2 == h[2][2] * lrow(r, 2, t0, t1, t2)
        if 0 - h[2][2] < v2 and v2 < h[2][2]:
            small_multiple(v2, h[2][2], lrow(r, 2, t0, t1, t2))


@lemma(requires=["s >= 1", "x % s == y % s"], ensures=["x - y == s * (x // s - y // s)"])
def congruent(x: int, y: int, s: int):
    mod_range(x, s)
    mod_range(y, s)


@lemma(requires=["h[0][0] >= 1", "h[1][1] >= 1", "h[2][2] >= 1", "h[0][1] == 0", "h[0][2] == 0", "h[1][2] == 0", "s[0] >= 1", "s[1] >= 1", "s[2] >= 1", "smith(l, h, r, s)",
                 "gcoord(l, s, 0, x1, x2, x3) == gcoord(l, s, 0, y1, y2, y3)", "gcoord(l, s, 1, x1, x2, x3) == gcoord(l, s, 1, y1, y2, y3)", "gcoord(l, s, 2, x1, x2, x3) == gcoord(l, s, 2, y1, y2, y3)",
                 "0 <= x1", "x1 < h[0][0]", "0 <= y1", "y1 < h[0][0]",
                 "0 <= x2 - lo2(h[0][0], h[1][0], x1)", "x2 - lo2(h[0][0], h[1][0], x1) < h[1][1]", "0 <= y2 - lo2(h[0][0], h[1][0], y1)", "y2 - lo2(h[0][0], h[1][0], y1) < h[1][1]",
                 "0 <= x3 - lo3(h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], x1, x2)", "x3 - lo3(h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], x1, x2) < h[2][2]",
                 "0 <= y3 - lo3(h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], y1, y2)", "y3 - lo3(h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], y1, y2) < h[2][2]"],
       ensures=["x1 == y1", "x2 == y2", "x3 == y3"])
def same_point(h: "CL(3, CL(3, int))", l: "CL(3, CL(3, int))", r: "CL(3, CL(3, int))", s: "CL(3, int)", x1: int, x2: int, x3: int, y1: int, y2: int, y3: int):
    congruent(lrow(l, 0, x1, x2, x3), lrow(l, 0, y1, y2, y3), s[0])
    congruent(lrow(l, 1, x1, x2, x3), lrow(l, 1, y1, y2, y3), s[1])
    congruent(lrow(l, 2, x1, x2, x3), lrow(l, 2, y1, y2, y3), s[2])
    lrow_sub(l, 0, x1, x2, x3, y1, y2, y3)
    lrow_sub(l, 1, x1, x2, x3, y1, y2, y3)
    lrow_sub(l, 2, x1, x2, x3, y1, y2, y3)
    no_vector(l, h, r, s, x1 - y1, x2 - y2, x3 - y3, lrow(l, 0, x1, x2, x3) // s[0] - lrow(l, 0, y1, y2, y3) // s[0],
              lrow(l, 1, x1, x2, x3) // s[1] - lrow(l, 1, y1, y2, y3) // s[1], lrow(l, 2, x1, x2, x3) // s[2] - lrow(l, 2, y1, y2, y3) // s[2])
    assert x1 == y1
    assert x2 == y2


@lemma(requires=["h[0][0] >= 1", "h[1][1] >= 1", "h[2][2] >= 1", "h[0][1] == 0", "h[0][2] == 0", "h[1][2] == 0", "s[0] >= 1", "s[1] >= 1", "s[2] >= 1", "smith(l, h, r, s)",
                 "0 <= p", "p < m * h[0][0] * h[1][1] * h[2][2]", "0 <= q", "q < m * h[0][0] * h[1][1] * h[2][2]", "gat(h, l, s, p) == gat(h, l, s, q)"],
       ensures=["p == q"], reveal=["gat"])
def gat_injective(h: "CL(3, CL(3, int))", l: "CL(3, CL(3, int))", r: "CL(3, CL(3, int))", s: "CL(3, int)", p: int, q: int, m: int):
    digits_range(h, p, m)
    digits_range(h, q, m)
    mod_range(lrow(l, 0, zz1(h, p), zz2(h, p), zz3(h, p)), s[0])
    mod_range(lrow(l, 1, zz1(h, p), zz2(h, p), zz3(h, p)), s[1])
    mod_range(lrow(l, 2, zz1(h, p), zz2(h, p), zz3(h, p)), s[2])
    mod_range(lrow(l, 0, zz1(h, q), zz2(h, q), zz3(h, q)), s[0])
    mod_range(lrow(l, 1, zz1(h, q), zz2(h, q), zz3(h, q)), s[1])
    mod_range(lrow(l, 2, zz1(h, q), zz2(h, q), zz3(h, q)), s[2])
    position_unique(site(h, p), site(h, q), gcoord(l, s, 0, zz1(h, p), zz2(h, p), zz3(h, p)), gcoord(l, s, 1, zz1(h, p), zz2(h, p), zz3(h, p)), gcoord(l, s, 2, zz1(h, p), zz2(h, p), zz3(h, p)),
                    gcoord(l, s, 0, zz1(h, q), zz2(h, q), zz3(h, q)), gcoord(l, s, 1, zz1(h, q), zz2(h, q), zz3(h, q)), gcoord(l, s, 2, zz1(h, q), zz2(h, q), zz3(h, q)), s[0], s[1], s[2])
    same_point(h, l, r, s, zz1(h, p), zz2(h, p), zz3(h, p), zz1(h, q), zz2(h, q), zz3(h, q))


@spec(decreases="k")
def labcount(lab: "A(str)", g: "A(int)", t: int, k: int) -> int:
    """Points among the first k whose label is t."""
    return 0 if k <= 0 else labcount(lab, g, t, k - 1) + (1 if int(lab[g[k - 1]]) == t else 0)


@spec
def occupation(i: int, k: int) -> int:
    return i - k // 2 + (1 if k % 2 == 0 and i >= k // 2 else 0)
