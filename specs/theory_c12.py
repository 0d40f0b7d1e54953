# Vectors in space, one number per component.


@spec(decreases="q")
def root(q: real) -> real:
    """The square root, as far as the code computed it."""
    pass


@spec(unfold=False)
def gram(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real) -> real:
    """Squared area spanned by two vectors."""
    return (u0 * u0 + u1 * u1 + u2 * u2) * (v0 * v0 + v1 * v1 + v2 * v2) - (u0 * v0 + u1 * v1 + u2 * v2) * (u0 * v0 + u1 * v1 + u2 * v2)


@spec(unfold=False)
def dot3(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real) -> real:
    return u0 * v0 + u1 * v1 + u2 * v2


@lemma(reveal=["dot3"], ensures=["dot3(u0, u1, u2, v0, v1, v2) == u0 * v0 + u1 * v1 + u2 * v2"])
def dot3_def(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real):
    pass


@lemma(reveal=["gram"], ensures=["gram(v0, v1, v2, u0, u1, u2) == gram(u0, u1, u2, v0, v1, v2)"])
def gram_swap(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real):
    pass


@lemma(reveal=["gram"], ensures=["gram(v0 - k * u0, v1 - k * u1, v2 - k * u2, u0, u1, u2) == gram(u0, u1, u2, v0, v1, v2)"])
def gram_shear(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real, k: real):
    pass


@lemma(reveal=["gram"], requires=["gram(u0, u1, u2, v0, v1, v2) != 0"], ensures=["u0 * u0 + u1 * u1 + u2 * u2 > 0"])
def gram_first(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real):
    pass


@lemma(reveal=["dot3"], ensures=["dot3(v0 - k * u0, v1 - k * u1, v2 - k * u2, u0, u1, u2) == dot3(u0, u1, u2, v0, v1, v2) - k * dot3(u0, u1, u2, u0, u1, u2)"])
def dot_shear(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real, k: real):
    pass


@lemma(requires=["b > 0", "t >= 0", "a / b - k <= t", "k - a / b <= t"], ensures=["a - k * b <= t * b", "k * b - a <= t * b"])
def rounded(a: real, b: real, k: real, t: real):
    assert a == (a / b) * b


@lemma(requires=["p == a * x + b * y", "q == c * x + d * y"], ensures=["q - k * p == (c - k * a) * x + (d - k * b) * y"])
def shear1(p: real, q: real, a: int, b: int, c: int, d: int, k: int, x: real, y: real):
    pass


@lemma(ensures=["(c - k * a) * b - (d - k * b) * a == -(a * d - b * c)"])
def shear_det(a: int, b: int, c: int, d: int, k: int):
    pass


@lemma(reveal=["dot3"], ensures=["dot3(u0, u1, u2, v0, v1, v2) == dot3(v0, v1, v2, u0, u1, u2)"])
def dot_sym(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real):
    pass


@spec(unfold=False)
def det9(a00: real, a01: real, a02: real, a10: real, a11: real, a12: real, a20: real, a21: real, a22: real) -> real:
    return a00 * (a11 * a22 - a12 * a21) - a01 * (a10 * a22 - a12 * a20) + a02 * (a10 * a21 - a11 * a20)


@lemma(reveal=["gram"], ensures=["(u1 * v2 - u2 * v1) * (u1 * v2 - u2 * v1) + (u2 * v0 - u0 * v2) * (u2 * v0 - u0 * v2) + (u0 * v1 - u1 * v0) * (u0 * v1 - u1 * v0) == gram(u0, u1, u2, v0, v1, v2)"])
def lagrange(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real):
    pass


@lemma(requires=["x * x + y * y + z * z == 0"], ensures=["x == 0", "y == 0", "z == 0"])
def squares(x: real, y: real, z: real):
    assert x * x >= 0
    assert y * y >= 0
    assert z * z >= 0
    assert x * x == 0


@lemma(reveal=["det9"], requires=["det9(u0, u1, u2, v0, v1, v2, w0, w1, w2) != 0"], ensures=["gram(u0, u1, u2, v0, v1, v2) != 0"])
def gram_det(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real, w0: real, w1: real, w2: real):
    lagrange(u0, u1, u2, v0, v1, v2)
    if gram(u0, u1, u2, v0, v1, v2) == 0:
        squares(u1 * v2 - u2 * v1, u2 * v0 - u0 * v2, u0 * v1 - u1 * v0)
        assert det9(u0, u1, u2, v0, v1, v2, w0, w1, w2) == w0 * (u1 * v2 - u2 * v1) + w1 * (u2 * v0 - u0 * v2) + w2 * (u0 * v1 - u1 * v0)


@lemma(reveal=["det9"], requires=["p0 == a * x0 + b * y0", "p1 == a * x1 + b * y1", "p2 == a * x2 + b * y2", "q0 == c * x0 + d * y0", "q1 == c * x1 + d * y1", "q2 == c * x2 + d * y2",
                                  "r0 == z0 + m * x0 + n * y0", "r1 == z1 + m * x1 + n * y1", "r2 == z2 + m * x2 + n * y2"],
       ensures=["det9(p0, p1, p2, q0, q1, q2, r0, r1, r2) == (a * d - b * c) * det9(x0, x1, x2, y0, y1, y2, z0, z1, z2)"])
def det_comb(p0: real, p1: real, p2: real, q0: real, q1: real, q2: real, r0: real, r1: real, r2: real, x0: real, x1: real, x2: real, y0: real, y1: real, y2: real, z0: real, z1: real, z2: real,
             a: int, b: int, c: int, d: int, m: int, n: int):
    pass


@lemma(requires=["a0 * x0 + a1 * x1 + a2 * x2 == 0", "b0 * x0 + b1 * x1 + b2 * x2 == 0", "c0 * x0 + c1 * x1 + c2 * x2 == 1", "n0 == a1 * b2 - a2 * b1", "n1 == a2 * b0 - a0 * b2", "n2 == a0 * b1 - a1 * b0"],
       ensures=["n0 * n0 + n1 * n1 + n2 * n2 == (c0 * n0 + c1 * n1 + c2 * n2) * (n0 * x0 + n1 * x1 + n2 * x2)"])
def normal_part(a0: real, a1: real, a2: real, b0: real, b1: real, b2: real, c0: real, c1: real, c2: real, x0: real, x1: real, x2: real, n0: real, n1: real, n2: real):
    assert n1 * x2 - n2 * x1 == b0 * (a0 * x0 + a1 * x1 + a2 * x2) - a0 * (b0 * x0 + b1 * x1 + b2 * x2)
    assert n2 * x0 - n0 * x2 == b1 * (a0 * x0 + a1 * x1 + a2 * x2) - a1 * (b0 * x0 + b1 * x1 + b2 * x2)
    assert n0 * x1 - n1 * x0 == b2 * (a0 * x0 + a1 * x1 + a2 * x2) - a2 * (b0 * x0 + b1 * x1 + b2 * x2)
    assert n1 * x2 - n2 * x1 == 0
    assert n2 * x0 - n0 * x2 == 0
    assert n0 * x1 - n1 * x0 == 0
    assert (n0 * n0 + n1 * n1 + n2 * n2) * (c0 * x0 + c1 * x1 + c2 * x2) - (c0 * n0 + c1 * n1 + c2 * n2) * (n0 * x0 + n1 * x1 + n2 * x2) == (n1 * c2 - n2 * c1) * (n1 * x2 - n2 * x1) + (n2 * c0 - n0 * c2) * (n2 * x0 - n0 * x2) + (n0 * c1 - n1 * c0) * (n0 * x1 - n1 * x0)


@lemma(requires=["r != 0", "(d * r) * (f * r) == r * r"], ensures=["d * f == 1"])
def cancel2(d: real, f: real, r: real):
    assert (d * f - 1) * (r * r) == 0
    assert r * r > 0


@lemma(requires=["r * r == n0 * n0 + n1 * n1 + n2 * n2", "r != 0", "e0 * r == n0", "e1 * r == n1", "e2 * r == n2", "n0 * n0 + n1 * n1 + n2 * n2 == (c0 * n0 + c1 * n1 + c2 * n2) * (n0 * x0 + n1 * x1 + n2 * x2)",
                 "c0 * x0 + c1 * x1 + c2 * x2 == 1", "t0 == c0 - e0 * d", "t1 == c1 - e1 * d", "t2 == c2 - e2 * d", "d == c0 * e0 + c1 * e1 + c2 * e2"],
       ensures=["t0 * x0 + t1 * x1 + t2 * x2 == 0"])
def in_plane(r: real, n0: real, n1: real, n2: real, e0: real, e1: real, e2: real, c0: real, c1: real, c2: real, x0: real, x1: real, x2: real, t0: real, t1: real, t2: real, d: real):
    f = e0 * x0 + e1 * x1 + e2 * x2
    assert d * r == c0 * n0 + c1 * n1 + c2 * n2
    assert f * r == n0 * x0 + n1 * x1 + n2 * x2
    assert (d * r) * (f * r) == r * r
    cancel2(d, f, r)
    assert t0 * x0 + t1 * x1 + t2 * x2 == (c0 * x0 + c1 * x1 + c2 * x2) - d * f


@lemma(reveal=["det9"], requires=["det9(u0, u1, u2, v0, v1, v2, w0, w1, w2) != 0"],
       ensures=["u0 * u0 + u1 * u1 + u2 * u2 > 0", "v0 * v0 + v1 * v1 + v2 * v2 > 0", "w0 * w0 + w1 * w1 + w2 * w2 > 0"])
def rows_nonzero(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real, w0: real, w1: real, w2: real):
    if u0 * u0 + u1 * u1 + u2 * u2 <= 0:
        squares(u0, u1, u2)
    if v0 * v0 + v1 * v1 + v2 * v2 <= 0:
        squares(v0, v1, v2)
    if w0 * w0 + w1 * w1 + w2 * w2 <= 0:
        squares(w0, w1, w2)


@lemma(requires=["r >= 0", "r * r == q", "q > 0"], ensures=["r > 0"])
def root_pos(r: real, q: real):
    pass


@lemma(reveal=["det9"], ensures=["det9(v0, v1, v2, u0, u1, u2, w0, w1, w2) == -det9(u0, u1, u2, v0, v1, v2, w0, w1, w2)", "det9(u0, u1, u2, w0, w1, w2, v0, v1, v2) == -det9(u0, u1, u2, v0, v1, v2, w0, w1, w2)",
                                 "det9(w0, w1, w2, v0, v1, v2, u0, u1, u2) == -det9(u0, u1, u2, v0, v1, v2, w0, w1, w2)", "det9(v0, v1, v2, w0, w1, w2, u0, u1, u2) == det9(u0, u1, u2, v0, v1, v2, w0, w1, w2)",
                                 "det9(w0, w1, w2, u0, u1, u2, v0, v1, v2) == det9(u0, u1, u2, v0, v1, v2, w0, w1, w2)"])
def det_orders(u0: real, u1: real, u2: real, v0: real, v1: real, v2: real, w0: real, w1: real, w2: real):
    pass


@lemma(requires=["p == f0 * x + f1 * y + f2 * z", "q == h0 * x + h1 * y + h2 * z", "s == a * p + b * q"], ensures=["s == (a * f0 + b * h0) * x + (a * f1 + b * h1) * y + (a * f2 + b * h2) * z"])
def two_rows(s: real, p: real, q: real, a: int, b: int, f0: int, f1: int, f2: int, h0: int, h1: int, h2: int, x: real, y: real, z: real):
    pass


@lemma(requires=["p == f0 * x + f1 * y + f2 * z", "q == h0 * x + h1 * y + h2 * z", "t == k0 * x + k1 * y + k2 * z", "s == t + a * p + b * q"],
       ensures=["s == (k0 + a * f0 + b * h0) * x + (k1 + a * f1 + b * h1) * y + (k2 + a * f2 + b * h2) * z"])
def three_rows(s: real, p: real, q: real, t: real, a: int, b: int, f0: int, f1: int, f2: int, h0: int, h1: int, h2: int, k0: int, k1: int, k2: int, x: real, y: real, z: real):
    pass


@lemma(reveal=["det9"], ensures=["det9(1, 0, 0, 0, 1, 0, 0, 0, 1) == 1"])
def identity3():
    pass


@lemma(requires=["u == 1 or u == -1", "d2 == u * d1"], ensures=["d2 == d1 or d2 == -d1"])
def unit_sign(u: int, d1: real, d2: real):
    pass


@lemma(requires=["p0 == a * x0 + b * y0", "p1 == a * x1 + b * y1", "p2 == a * x2 + b * y2", "q0 == c * x0 + d * y0", "q1 == c * x1 + d * y1", "q2 == c * x2 + d * y2",
                 "r0 == z0 + m * x0 + n * y0", "r1 == z1 + m * x1 + n * y1", "r2 == z2 + m * x2 + n * y2", "a * d - b * c == 1 or a * d - b * c == -1"],
       ensures=["det9(p0, p1, p2, q0, q1, q2, r0, r1, r2) == det9(x0, x1, x2, y0, y1, y2, z0, z1, z2) or det9(p0, p1, p2, q0, q1, q2, r0, r1, r2) == -det9(x0, x1, x2, y0, y1, y2, z0, z1, z2)"])
def det_unit(p0: real, p1: real, p2: real, q0: real, q1: real, q2: real, r0: real, r1: real, r2: real, x0: real, x1: real, x2: real, y0: real, y1: real, y2: real, z0: real, z1: real, z2: real,
             a: int, b: int, c: int, d: int, m: int, n: int):
    det_comb(p0, p1, p2, q0, q1, q2, r0, r1, r2, x0, x1, x2, y0, y1, y2, z0, z1, z2, a, b, c, d, m, n)
    unit_sign(a * d - b * c, det9(x0, x1, x2, y0, y1, y2, z0, z1, z2), det9(p0, p1, p2, q0, q1, q2, r0, r1, r2))


@spec(unfold=False)
def moved(a0: real, a1: real, a2: real, s0: int, s1: int, s2: int, b0: real, b1: real, b2: real) -> real:
    """One Cartesian component of the point with these direct coordinates, moved by whole lattice vectors."""
    return (a0 + s0) * b0 + (a1 + s1) * b1 + (a2 + s2) * b2


@lemma(reveal=["moved"], requires=["n00 * l0 + n01 * l1 + n02 * l2 == e0", "n10 * l0 + n11 * l1 + n12 * l2 == e1", "n20 * l0 + n21 * l1 + n22 * l2 == e2"],
       ensures=["moved(q0 * n00 + q1 * n10 + q2 * n20, q0 * n01 + q1 * n11 + q2 * n21, q0 * n02 + q1 * n12 + q2 * n22, 0, 0, 0, l0, l1, l2) == q0 * e0 + q1 * e1 + q2 * e2"])
def inverted(q0: real, q1: real, q2: real, n00: real, n01: real, n02: real, n10: real, n11: real, n12: real, n20: real, n21: real, n22: real, l0: real, l1: real, l2: real, e0: real, e1: real, e2: real):
    assert (q0 * n00 + q1 * n10 + q2 * n20) * l0 + (q0 * n01 + q1 * n11 + q2 * n21) * l1 + (q0 * n02 + q1 * n12 + q2 * n22) * l2 == q0 * (n00 * l0 + n01 * l1 + n02 * l2) + q1 * (n10 * l0 + n11 * l1 + n12 * l2) + q2 * (n20 * l0 + n21 * l1 + n22 * l2)


@lemma(reveal=["moved"], requires=["a0 + s0 == c0 + t0", "a1 + s1 == c1 + t1", "a2 + s2 == c2 + t2"], ensures=["moved(a0, a1, a2, s0, s1, s2, b0, b1, b2) == moved(c0, c1, c2, t0, t1, t2, b0, b1, b2)"])
def moved_step(a0: real, a1: real, a2: real, s0: int, s1: int, s2: int, c0: real, c1: real, c2: real, t0: int, t1: int, t2: int, b0: real, b1: real, b2: real):
    pass
