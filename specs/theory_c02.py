# Two lattices are the same when the matrix that takes one basis to the other has
# integer entries and determinant +1 or -1 (within the tolerance).


@spec(unfold=False)
def det9(a00: real, a01: real, a02: real, a10: real, a11: real, a12: real, a20: real, a21: real, a22: real) -> real:
    return a00 * (a11 * a22 - a12 * a21) - a01 * (a10 * a22 - a12 * a20) + a02 * (a10 * a21 - a11 * a20)


@spec
def poly9(a00: real, a01: real, a02: real, a10: real, a11: real, a12: real, a20: real, a21: real, a22: real) -> real:
    return a00 * (a11 * a22 - a12 * a21) - a01 * (a10 * a22 - a12 * a20) + a02 * (a10 * a21 - a11 * a20)


@spec
def closeint(x: real, eps: real) -> bool:
    return abs(x - round(x)) <= eps


@spec(unfold=False)
def unimod9(s00: real, s01: real, s02: real, s10: real, s11: real, s12: real, s20: real, s21: real, s22: real, eps: real) -> bool:
    """Integer entries and determinant +1 or -1, within eps."""
    return abs(abs(det9(s00, s01, s02, s10, s11, s12, s20, s21, s22)) - 1) <= eps and closeint(s00, eps) and closeint(s01, eps) and closeint(s02, eps) and closeint(s10, eps) and closeint(s11, eps) and closeint(s12, eps) and closeint(s20, eps) and closeint(s21, eps) and closeint(s22, eps)


@spec(unfold=False)
def same_lattice(a00: real, a01: real, a02: real, a10: real, a11: real, a12: real, a20: real, a21: real, a22: real, b00: real, b01: real, b02: real, b10: real, b11: real, b12: real, b20: real, b21: real, b22: real, eps: real) -> bool:
    """The solution s of a times s = b (Cramer's rule) is unimodular."""
    return unimod9(det9(b00, a01, a02, b10, a11, a12, b20, a21, a22) / det9(a00, a01, a02, a10, a11, a12, a20, a21, a22), det9(b01, a01, a02, b11, a11, a12, b21, a21, a22) / det9(a00, a01, a02, a10, a11, a12, a20, a21, a22), det9(b02, a01, a02, b12, a11, a12, b22, a21, a22) / det9(a00, a01, a02, a10, a11, a12, a20, a21, a22), det9(a00, b00, a02, a10, b10, a12, a20, b20, a22) / det9(a00, a01, a02, a10, a11, a12, a20, a21, a22), det9(a00, b01, a02, a10, b11, a12, a20, b21, a22) / det9(a00, a01, a02, a10, a11, a12, a20, a21, a22), det9(a00, b02, a02, a10, b12, a12, a20, b22, a22) / det9(a00, a01, a02, a10, a11, a12, a20, a21, a22), det9(a00, a01, b00, a10, a11, b10, a20, a21, b20) / det9(a00, a01, a02, a10, a11, a12, a20, a21, a22), det9(a00, a01, b01, a10, a11, b11, a20, a21, b21) / det9(a00, a01, a02, a10, a11, a12, a20, a21, a22), det9(a00, a01, b02, a10, a11, b12, a20, a21, b22) / det9(a00, a01, a02, a10, a11, a12, a20, a21, a22), eps)


@lemma(requires=['b0 == a00 * s0 + a01 * s1 + a02 * s2', 'b1 == a10 * s0 + a11 * s1 + a12 * s2', 'b2 == a20 * s0 + a21 * s1 + a22 * s2'], reveal=["det9"],
       ensures=['s0 * det9(a00, a01, a02, a10, a11, a12, a20, a21, a22) == det9(b0, a01, a02, b1, a11, a12, b2, a21, a22)', 's1 * det9(a00, a01, a02, a10, a11, a12, a20, a21, a22) == det9(a00, b0, a02, a10, b1, a12, a20, b2, a22)', 's2 * det9(a00, a01, a02, a10, a11, a12, a20, a21, a22) == det9(a00, a01, b0, a10, a11, b1, a20, a21, b2)'])
def column(a00: real, a01: real, a02: real, a10: real, a11: real, a12: real, a20: real, a21: real, a22: real, s0: real, s1: real, s2: real, b0: real, b1: real, b2: real):
    pass


@lemma(requires=["d != 0", "s * d == n"], ensures=["n / d == s"])
def quotient(s: real, d: real, n: real):
    pass


@spec(unfold=False)
def maps(a: "L(L(real))", s: "L(L(real))", b: "L(L(real))") -> bool:
    """a times s is b."""
    return a[0][0] * s[0][0] + a[0][1] * s[1][0] + a[0][2] * s[2][0] == b[0][0] and a[0][0] * s[0][1] + a[0][1] * s[1][1] + a[0][2] * s[2][1] == b[0][1] and a[0][0] * s[0][2] + a[0][1] * s[1][2] + a[0][2] * s[2][2] == b[0][2] and a[1][0] * s[0][0] + a[1][1] * s[1][0] + a[1][2] * s[2][0] == b[1][0] and a[1][0] * s[0][1] + a[1][1] * s[1][1] + a[1][2] * s[2][1] == b[1][1] and a[1][0] * s[0][2] + a[1][1] * s[1][2] + a[1][2] * s[2][2] == b[1][2] and a[2][0] * s[0][0] + a[2][1] * s[1][0] + a[2][2] * s[2][0] == b[2][0] and a[2][0] * s[0][1] + a[2][1] * s[1][1] + a[2][2] * s[2][1] == b[2][1] and a[2][0] * s[0][2] + a[2][1] * s[1][2] + a[2][2] * s[2][2] == b[2][2]


@lemma(requires=["maps(a, s, b)", "det9(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]) != 0"], reveal=["maps", "same_lattice"],
       ensures=["iff(same_lattice(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2], b[0][0], b[0][1], b[0][2], b[1][0], b[1][1], b[1][2], b[2][0], b[2][1], b[2][2], eps), unimod9(s[0][0], s[0][1], s[0][2], s[1][0], s[1][1], s[1][2], s[2][0], s[2][1], s[2][2], eps))"])
def same_meaning(a: "CL(3,CL(3,real))", s: "CL(3,CL(3,real))", b: "CL(3,CL(3,real))", eps: real):
    column(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2], s[0][0], s[1][0], s[2][0], b[0][0], b[1][0], b[2][0])
    column(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2], s[0][1], s[1][1], s[2][1], b[0][1], b[1][1], b[2][1])
    column(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2], s[0][2], s[1][2], s[2][2], b[0][2], b[1][2], b[2][2])
    quotient(s[0][0], det9(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]), det9(b[0][0], a[0][1], a[0][2], b[1][0], a[1][1], a[1][2], b[2][0], a[2][1], a[2][2]))
    quotient(s[0][1], det9(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]), det9(b[0][1], a[0][1], a[0][2], b[1][1], a[1][1], a[1][2], b[2][1], a[2][1], a[2][2]))
    quotient(s[0][2], det9(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]), det9(b[0][2], a[0][1], a[0][2], b[1][2], a[1][1], a[1][2], b[2][2], a[2][1], a[2][2]))
    quotient(s[1][0], det9(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]), det9(a[0][0], b[0][0], a[0][2], a[1][0], b[1][0], a[1][2], a[2][0], b[2][0], a[2][2]))
    quotient(s[1][1], det9(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]), det9(a[0][0], b[0][1], a[0][2], a[1][0], b[1][1], a[1][2], a[2][0], b[2][1], a[2][2]))
    quotient(s[1][2], det9(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]), det9(a[0][0], b[0][2], a[0][2], a[1][0], b[1][2], a[1][2], a[2][0], b[2][2], a[2][2]))
    quotient(s[2][0], det9(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]), det9(a[0][0], a[0][1], b[0][0], a[1][0], a[1][1], b[1][0], a[2][0], a[2][1], b[2][0]))
    quotient(s[2][1], det9(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]), det9(a[0][0], a[0][1], b[0][1], a[1][0], a[1][1], b[1][1], a[2][0], a[2][1], b[2][1]))
    quotient(s[2][2], det9(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]), det9(a[0][0], a[0][1], b[0][2], a[1][0], a[1][1], b[1][2], a[2][0], a[2][1], b[2][2]))



@lemma(requires=["s0 == x00 * b0 + x01 * b1 + x02 * b2", "s1 == x10 * b0 + x11 * b1 + x12 * b2", "s2 == x20 * b0 + x21 * b1 + x22 * b2",
                 "e0 == a0 * x00 + a1 * x10 + a2 * x20", "e1 == a0 * x01 + a1 * x11 + a2 * x21", "e2 == a0 * x02 + a1 * x12 + a2 * x22"],
       ensures=["a0 * s0 + a1 * s1 + a2 * s2 == e0 * b0 + e1 * b1 + e2 * b2"])
def row(a0: real, a1: real, a2: real, x00: real, x01: real, x02: real, x10: real, x11: real, x12: real, x20: real, x21: real, x22: real, b0: real, b1: real, b2: real, s0: real, s1: real, s2: real, e0: real, e1: real, e2: real):
    pass


@lemma(requires=['a[0][0] * x[0][0] + a[0][1] * x[1][0] + a[0][2] * x[2][0] == 1', 'a[0][0] * x[0][1] + a[0][1] * x[1][1] + a[0][2] * x[2][1] == 0', 'a[0][0] * x[0][2] + a[0][1] * x[1][2] + a[0][2] * x[2][2] == 0', 'a[1][0] * x[0][0] + a[1][1] * x[1][0] + a[1][2] * x[2][0] == 0', 'a[1][0] * x[0][1] + a[1][1] * x[1][1] + a[1][2] * x[2][1] == 1', 'a[1][0] * x[0][2] + a[1][1] * x[1][2] + a[1][2] * x[2][2] == 0', 'a[2][0] * x[0][0] + a[2][1] * x[1][0] + a[2][2] * x[2][0] == 0', 'a[2][0] * x[0][1] + a[2][1] * x[1][1] + a[2][2] * x[2][1] == 0', 'a[2][0] * x[0][2] + a[2][1] * x[1][2] + a[2][2] * x[2][2] == 1', 'x[0][0] * b[0][0] + x[0][1] * b[1][0] + x[0][2] * b[2][0] == s[0][0]', 'x[0][0] * b[0][1] + x[0][1] * b[1][1] + x[0][2] * b[2][1] == s[0][1]', 'x[0][0] * b[0][2] + x[0][1] * b[1][2] + x[0][2] * b[2][2] == s[0][2]', 'x[1][0] * b[0][0] + x[1][1] * b[1][0] + x[1][2] * b[2][0] == s[1][0]', 'x[1][0] * b[0][1] + x[1][1] * b[1][1] + x[1][2] * b[2][1] == s[1][1]', 'x[1][0] * b[0][2] + x[1][1] * b[1][2] + x[1][2] * b[2][2] == s[1][2]', 'x[2][0] * b[0][0] + x[2][1] * b[1][0] + x[2][2] * b[2][0] == s[2][0]', 'x[2][0] * b[0][1] + x[2][1] * b[1][1] + x[2][2] * b[2][1] == s[2][1]', 'x[2][0] * b[0][2] + x[2][1] * b[1][2] + x[2][2] * b[2][2] == s[2][2]'], reveal=["maps"], ensures=["maps(a, s, b)"])
def regular(x: "CL(3,CL(3,real))", a: "CL(3,CL(3,real))", s: "CL(3,CL(3,real))", b: "CL(3,CL(3,real))"):
    row(a[0][0], a[0][1], a[0][2], x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], x[2][0], x[2][1], x[2][2], b[0][0], b[1][0], b[2][0], s[0][0], s[1][0], s[2][0], 1, 0, 0)
    row(a[0][0], a[0][1], a[0][2], x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], x[2][0], x[2][1], x[2][2], b[0][1], b[1][1], b[2][1], s[0][1], s[1][1], s[2][1], 1, 0, 0)
    row(a[0][0], a[0][1], a[0][2], x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], x[2][0], x[2][1], x[2][2], b[0][2], b[1][2], b[2][2], s[0][2], s[1][2], s[2][2], 1, 0, 0)
    row(a[1][0], a[1][1], a[1][2], x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], x[2][0], x[2][1], x[2][2], b[0][0], b[1][0], b[2][0], s[0][0], s[1][0], s[2][0], 0, 1, 0)
    row(a[1][0], a[1][1], a[1][2], x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], x[2][0], x[2][1], x[2][2], b[0][1], b[1][1], b[2][1], s[0][1], s[1][1], s[2][1], 0, 1, 0)
    row(a[1][0], a[1][1], a[1][2], x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], x[2][0], x[2][1], x[2][2], b[0][2], b[1][2], b[2][2], s[0][2], s[1][2], s[2][2], 0, 1, 0)
    row(a[2][0], a[2][1], a[2][2], x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], x[2][0], x[2][1], x[2][2], b[0][0], b[1][0], b[2][0], s[0][0], s[1][0], s[2][0], 0, 0, 1)
    row(a[2][0], a[2][1], a[2][2], x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], x[2][0], x[2][1], x[2][2], b[0][1], b[1][1], b[2][1], s[0][1], s[1][1], s[2][1], 0, 0, 1)
    row(a[2][0], a[2][1], a[2][2], x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], x[2][0], x[2][1], x[2][2], b[0][2], b[1][2], b[2][2], s[0][2], s[1][2], s[2][2], 0, 0, 1)


@lemma(reveal=["unimod9"], ensures=["iff(unimod9(s[0][0], s[0][1], s[0][2], s[1][0], s[1][1], s[1][2], s[2][0], s[2][1], s[2][2], eps), abs(abs(det9(s[0][0], s[0][1], s[0][2], s[1][0], s[1][1], s[1][2], s[2][0], s[2][1], s[2][2])) - 1) <= eps and closeint(s[0][0], eps) and closeint(s[0][1], eps) and closeint(s[0][2], eps) and closeint(s[1][0], eps) and closeint(s[1][1], eps) and closeint(s[1][2], eps) and closeint(s[2][0], eps) and closeint(s[2][1], eps) and closeint(s[2][2], eps))"])
def unimodular_def(s: "CL(3,CL(3,real))", eps: real):
    pass


@spec(unfold=False)
def related(r: "L(L(real))", p: "L(L(real))", hi: "L(L(int))", hj: "L(L(int))", eps: real) -> bool:
    """The operation r takes the superlattice hi of the parent lattice (whose vectors are the rows of p) to the superlattice hj."""
    return same_lattice(r[0][0] * (p[0][0] * hi[0][0] + p[1][0] * hi[1][0] + p[2][0] * hi[2][0]) + r[0][1] * (p[0][1] * hi[0][0] + p[1][1] * hi[1][0] + p[2][1] * hi[2][0]) + r[0][2] * (p[0][2] * hi[0][0] + p[1][2] * hi[1][0] + p[2][2] * hi[2][0]), r[0][0] * (p[0][0] * hi[0][1] + p[1][0] * hi[1][1] + p[2][0] * hi[2][1]) + r[0][1] * (p[0][1] * hi[0][1] + p[1][1] * hi[1][1] + p[2][1] * hi[2][1]) + r[0][2] * (p[0][2] * hi[0][1] + p[1][2] * hi[1][1] + p[2][2] * hi[2][1]), r[0][0] * (p[0][0] * hi[0][2] + p[1][0] * hi[1][2] + p[2][0] * hi[2][2]) + r[0][1] * (p[0][1] * hi[0][2] + p[1][1] * hi[1][2] + p[2][1] * hi[2][2]) + r[0][2] * (p[0][2] * hi[0][2] + p[1][2] * hi[1][2] + p[2][2] * hi[2][2]), r[1][0] * (p[0][0] * hi[0][0] + p[1][0] * hi[1][0] + p[2][0] * hi[2][0]) + r[1][1] * (p[0][1] * hi[0][0] + p[1][1] * hi[1][0] + p[2][1] * hi[2][0]) + r[1][2] * (p[0][2] * hi[0][0] + p[1][2] * hi[1][0] + p[2][2] * hi[2][0]), r[1][0] * (p[0][0] * hi[0][1] + p[1][0] * hi[1][1] + p[2][0] * hi[2][1]) + r[1][1] * (p[0][1] * hi[0][1] + p[1][1] * hi[1][1] + p[2][1] * hi[2][1]) + r[1][2] * (p[0][2] * hi[0][1] + p[1][2] * hi[1][1] + p[2][2] * hi[2][1]), r[1][0] * (p[0][0] * hi[0][2] + p[1][0] * hi[1][2] + p[2][0] * hi[2][2]) + r[1][1] * (p[0][1] * hi[0][2] + p[1][1] * hi[1][2] + p[2][1] * hi[2][2]) + r[1][2] * (p[0][2] * hi[0][2] + p[1][2] * hi[1][2] + p[2][2] * hi[2][2]), r[2][0] * (p[0][0] * hi[0][0] + p[1][0] * hi[1][0] + p[2][0] * hi[2][0]) + r[2][1] * (p[0][1] * hi[0][0] + p[1][1] * hi[1][0] + p[2][1] * hi[2][0]) + r[2][2] * (p[0][2] * hi[0][0] + p[1][2] * hi[1][0] + p[2][2] * hi[2][0]), r[2][0] * (p[0][0] * hi[0][1] + p[1][0] * hi[1][1] + p[2][0] * hi[2][1]) + r[2][1] * (p[0][1] * hi[0][1] + p[1][1] * hi[1][1] + p[2][1] * hi[2][1]) + r[2][2] * (p[0][2] * hi[0][1] + p[1][2] * hi[1][1] + p[2][2] * hi[2][1]), r[2][0] * (p[0][0] * hi[0][2] + p[1][0] * hi[1][2] + p[2][0] * hi[2][2]) + r[2][1] * (p[0][1] * hi[0][2] + p[1][1] * hi[1][2] + p[2][1] * hi[2][2]) + r[2][2] * (p[0][2] * hi[0][2] + p[1][2] * hi[1][2] + p[2][2] * hi[2][2]), p[0][0] * hj[0][0] + p[1][0] * hj[1][0] + p[2][0] * hj[2][0], p[0][0] * hj[0][1] + p[1][0] * hj[1][1] + p[2][0] * hj[2][1], p[0][0] * hj[0][2] + p[1][0] * hj[1][2] + p[2][0] * hj[2][2], p[0][1] * hj[0][0] + p[1][1] * hj[1][0] + p[2][1] * hj[2][0], p[0][1] * hj[0][1] + p[1][1] * hj[1][1] + p[2][1] * hj[2][1], p[0][1] * hj[0][2] + p[1][1] * hj[1][2] + p[2][1] * hj[2][2], p[0][2] * hj[0][0] + p[1][2] * hj[1][0] + p[2][2] * hj[2][0], p[0][2] * hj[0][1] + p[1][2] * hj[1][1] + p[2][2] * hj[2][1], p[0][2] * hj[0][2] + p[1][2] * hj[1][2] + p[2][2] * hj[2][2], eps)


@lemma(reveal=["related"], ensures=["iff(related(r, p, hi, hj, eps), same_lattice(r[0][0] * (p[0][0] * hi[0][0] + p[1][0] * hi[1][0] + p[2][0] * hi[2][0]) + r[0][1] * (p[0][1] * hi[0][0] + p[1][1] * hi[1][0] + p[2][1] * hi[2][0]) + r[0][2] * (p[0][2] * hi[0][0] + p[1][2] * hi[1][0] + p[2][2] * hi[2][0]), r[0][0] * (p[0][0] * hi[0][1] + p[1][0] * hi[1][1] + p[2][0] * hi[2][1]) + r[0][1] * (p[0][1] * hi[0][1] + p[1][1] * hi[1][1] + p[2][1] * hi[2][1]) + r[0][2] * (p[0][2] * hi[0][1] + p[1][2] * hi[1][1] + p[2][2] * hi[2][1]), r[0][0] * (p[0][0] * hi[0][2] + p[1][0] * hi[1][2] + p[2][0] * hi[2][2]) + r[0][1] * (p[0][1] * hi[0][2] + p[1][1] * hi[1][2] + p[2][1] * hi[2][2]) + r[0][2] * (p[0][2] * hi[0][2] + p[1][2] * hi[1][2] + p[2][2] * hi[2][2]), r[1][0] * (p[0][0] * hi[0][0] + p[1][0] * hi[1][0] + p[2][0] * hi[2][0]) + r[1][1] * (p[0][1] * hi[0][0] + p[1][1] * hi[1][0] + p[2][1] * hi[2][0]) + r[1][2] * (p[0][2] * hi[0][0] + p[1][2] * hi[1][0] + p[2][2] * hi[2][0]), r[1][0] * (p[0][0] * hi[0][1] + p[1][0] * hi[1][1] + p[2][0] * hi[2][1]) + r[1][1] * (p[0][1] * hi[0][1] + p[1][1] * hi[1][1] + p[2][1] * hi[2][1]) + r[1][2] * (p[0][2] * hi[0][1] + p[1][2] * hi[1][1] + p[2][2] * hi[2][1]), r[1][0] * (p[0][0] * hi[0][2] + p[1][0] * hi[1][2] + p[2][0] * hi[2][2]) + r[1][1] * (p[0][1] * hi[0][2] + p[1][1] * hi[1][2] + p[2][1] * hi[2][2]) + r[1][2] * (p[0][2] * hi[0][2] + p[1][2] * hi[1][2] + p[2][2] * hi[2][2]), r[2][0] * (p[0][0] * hi[0][0] + p[1][0] * hi[1][0] + p[2][0] * hi[2][0]) + r[2][1] * (p[0][1] * hi[0][0] + p[1][1] * hi[1][0] + p[2][1] * hi[2][0]) + r[2][2] * (p[0][2] * hi[0][0] + p[1][2] * hi[1][0] + p[2][2] * hi[2][0]), r[2][0] * (p[0][0] * hi[0][1] + p[1][0] * hi[1][1] + p[2][0] * hi[2][1]) + r[2][1] * (p[0][1] * hi[0][1] + p[1][1] * hi[1][1] + p[2][1] * hi[2][1]) + r[2][2] * (p[0][2] * hi[0][1] + p[1][2] * hi[1][1] + p[2][2] * hi[2][1]), r[2][0] * (p[0][0] * hi[0][2] + p[1][0] * hi[1][2] + p[2][0] * hi[2][2]) + r[2][1] * (p[0][1] * hi[0][2] + p[1][1] * hi[1][2] + p[2][1] * hi[2][2]) + r[2][2] * (p[0][2] * hi[0][2] + p[1][2] * hi[1][2] + p[2][2] * hi[2][2]), p[0][0] * hj[0][0] + p[1][0] * hj[1][0] + p[2][0] * hj[2][0], p[0][0] * hj[0][1] + p[1][0] * hj[1][1] + p[2][0] * hj[2][1], p[0][0] * hj[0][2] + p[1][0] * hj[1][2] + p[2][0] * hj[2][2], p[0][1] * hj[0][0] + p[1][1] * hj[1][0] + p[2][1] * hj[2][0], p[0][1] * hj[0][1] + p[1][1] * hj[1][1] + p[2][1] * hj[2][1], p[0][1] * hj[0][2] + p[1][1] * hj[1][2] + p[2][1] * hj[2][2], p[0][2] * hj[0][0] + p[1][2] * hj[1][0] + p[2][2] * hj[2][0], p[0][2] * hj[0][1] + p[1][2] * hj[1][1] + p[2][2] * hj[2][1], p[0][2] * hj[0][2] + p[1][2] * hj[1][2] + p[2][2] * hj[2][2], eps))"])
def related_def(r: "L(L(real))", p: "L(L(real))", hi: "L(L(int))", hj: "L(L(int))", eps: real):
    pass


@lemma(ensures=["poly9((a00 * b00 + a01 * b10 + a02 * b20), (a00 * b01 + a01 * b11 + a02 * b21), (a00 * b02 + a01 * b12 + a02 * b22), (a10 * b00 + a11 * b10 + a12 * b20), (a10 * b01 + a11 * b11 + a12 * b21), (a10 * b02 + a11 * b12 + a12 * b22), (a20 * b00 + a21 * b10 + a22 * b20), (a20 * b01 + a21 * b11 + a22 * b21), (a20 * b02 + a21 * b12 + a22 * b22)) == poly9(a00, a01, a02, a10, a11, a12, a20, a21, a22) * poly9(b00, b01, b02, b10, b11, b12, b20, b21, b22)"])
def poly_product(a00: real, a01: real, a02: real, a10: real, a11: real, a12: real, a20: real, a21: real, a22: real, b00: real, b01: real, b02: real, b10: real, b11: real, b12: real, b20: real, b21: real, b22: real):
    pass


@lemma(reveal=["det9"], ensures=["det9((a00 * b00 + a01 * b10 + a02 * b20), (a00 * b01 + a01 * b11 + a02 * b21), (a00 * b02 + a01 * b12 + a02 * b22), (a10 * b00 + a11 * b10 + a12 * b20), (a10 * b01 + a11 * b11 + a12 * b21), (a10 * b02 + a11 * b12 + a12 * b22), (a20 * b00 + a21 * b10 + a22 * b20), (a20 * b01 + a21 * b11 + a22 * b21), (a20 * b02 + a21 * b12 + a22 * b22)) == det9(a00, a01, a02, a10, a11, a12, a20, a21, a22) * det9(b00, b01, b02, b10, b11, b12, b20, b21, b22)"])
def det_product(a00: real, a01: real, a02: real, a10: real, a11: real, a12: real, a20: real, a21: real, a22: real, b00: real, b01: real, b02: real, b10: real, b11: real, b12: real, b20: real, b21: real, b22: real):
    poly_product(a00, a01, a02, a10, a11, a12, a20, a21, a22, b00, b01, b02, b10, b11, b12, b20, b21, b22)


@lemma(reveal=["det9"], ensures=["det9(a00, a01, a02, a10, a11, a12, a20, a21, a22) == det9(a00, a10, a20, a01, a11, a21, a02, a12, a22)"])
def det_transpose(a00: real, a01: real, a02: real, a10: real, a11: real, a12: real, a20: real, a21: real, a22: real):
    pass


@lemma(requires=["det9(r[0][0], r[0][1], r[0][2], r[1][0], r[1][1], r[1][2], r[2][0], r[2][1], r[2][2]) != 0", "det9(p[0][0], p[0][1], p[0][2], p[1][0], p[1][1], p[1][2], p[2][0], p[2][1], p[2][2]) != 0", "det9(h[0][0], h[0][1], h[0][2], h[1][0], h[1][1], h[1][2], h[2][0], h[2][1], h[2][2]) != 0"], ensures=["det9(r[0][0] * (p[0][0] * h[0][0] + p[1][0] * h[1][0] + p[2][0] * h[2][0]) + r[0][1] * (p[0][1] * h[0][0] + p[1][1] * h[1][0] + p[2][1] * h[2][0]) + r[0][2] * (p[0][2] * h[0][0] + p[1][2] * h[1][0] + p[2][2] * h[2][0]), r[0][0] * (p[0][0] * h[0][1] + p[1][0] * h[1][1] + p[2][0] * h[2][1]) + r[0][1] * (p[0][1] * h[0][1] + p[1][1] * h[1][1] + p[2][1] * h[2][1]) + r[0][2] * (p[0][2] * h[0][1] + p[1][2] * h[1][1] + p[2][2] * h[2][1]), r[0][0] * (p[0][0] * h[0][2] + p[1][0] * h[1][2] + p[2][0] * h[2][2]) + r[0][1] * (p[0][1] * h[0][2] + p[1][1] * h[1][2] + p[2][1] * h[2][2]) + r[0][2] * (p[0][2] * h[0][2] + p[1][2] * h[1][2] + p[2][2] * h[2][2]), r[1][0] * (p[0][0] * h[0][0] + p[1][0] * h[1][0] + p[2][0] * h[2][0]) + r[1][1] * (p[0][1] * h[0][0] + p[1][1] * h[1][0] + p[2][1] * h[2][0]) + r[1][2] * (p[0][2] * h[0][0] + p[1][2] * h[1][0] + p[2][2] * h[2][0]), r[1][0] * (p[0][0] * h[0][1] + p[1][0] * h[1][1] + p[2][0] * h[2][1]) + r[1][1] * (p[0][1] * h[0][1] + p[1][1] * h[1][1] + p[2][1] * h[2][1]) + r[1][2] * (p[0][2] * h[0][1] + p[1][2] * h[1][1] + p[2][2] * h[2][1]), r[1][0] * (p[0][0] * h[0][2] + p[1][0] * h[1][2] + p[2][0] * h[2][2]) + r[1][1] * (p[0][1] * h[0][2] + p[1][1] * h[1][2] + p[2][1] * h[2][2]) + r[1][2] * (p[0][2] * h[0][2] + p[1][2] * h[1][2] + p[2][2] * h[2][2]), r[2][0] * (p[0][0] * h[0][0] + p[1][0] * h[1][0] + p[2][0] * h[2][0]) + r[2][1] * (p[0][1] * h[0][0] + p[1][1] * h[1][0] + p[2][1] * h[2][0]) + r[2][2] * (p[0][2] * h[0][0] + p[1][2] * h[1][0] + p[2][2] * h[2][0]), r[2][0] * (p[0][0] * h[0][1] + p[1][0] * h[1][1] + p[2][0] * h[2][1]) + r[2][1] * (p[0][1] * h[0][1] + p[1][1] * h[1][1] + p[2][1] * h[2][1]) + r[2][2] * (p[0][2] * h[0][1] + p[1][2] * h[1][1] + p[2][2] * h[2][1]), r[2][0] * (p[0][0] * h[0][2] + p[1][0] * h[1][2] + p[2][0] * h[2][2]) + r[2][1] * (p[0][1] * h[0][2] + p[1][1] * h[1][2] + p[2][1] * h[2][2]) + r[2][2] * (p[0][2] * h[0][2] + p[1][2] * h[1][2] + p[2][2] * h[2][2])) != 0", "det9(p[0][0] * h[0][0] + p[1][0] * h[1][0] + p[2][0] * h[2][0], p[0][0] * h[0][1] + p[1][0] * h[1][1] + p[2][0] * h[2][1], p[0][0] * h[0][2] + p[1][0] * h[1][2] + p[2][0] * h[2][2], p[0][1] * h[0][0] + p[1][1] * h[1][0] + p[2][1] * h[2][0], p[0][1] * h[0][1] + p[1][1] * h[1][1] + p[2][1] * h[2][1], p[0][1] * h[0][2] + p[1][1] * h[1][2] + p[2][1] * h[2][2], p[0][2] * h[0][0] + p[1][2] * h[1][0] + p[2][2] * h[2][0], p[0][2] * h[0][1] + p[1][2] * h[1][1] + p[2][2] * h[2][1], p[0][2] * h[0][2] + p[1][2] * h[1][2] + p[2][2] * h[2][2]) != 0"])
def product(r: "L(L(real))", p: "L(L(real))", h: "L(L(int))"):
    det_transpose(p[0][0], p[0][1], p[0][2], p[1][0], p[1][1], p[1][2], p[2][0], p[2][1], p[2][2])
    det_product(p[0][0], p[1][0], p[2][0], p[0][1], p[1][1], p[2][1], p[0][2], p[1][2], p[2][2], h[0][0], h[0][1], h[0][2], h[1][0], h[1][1], h[1][2], h[2][0], h[2][1], h[2][2])
    det_product(r[0][0], r[0][1], r[0][2], r[1][0], r[1][1], r[1][2], r[2][0], r[2][1], r[2][2], p[0][0] * h[0][0] + p[1][0] * h[1][0] + p[2][0] * h[2][0], p[0][0] * h[0][1] + p[1][0] * h[1][1] + p[2][0] * h[2][1], p[0][0] * h[0][2] + p[1][0] * h[1][2] + p[2][0] * h[2][2], p[0][1] * h[0][0] + p[1][1] * h[1][0] + p[2][1] * h[2][0], p[0][1] * h[0][1] + p[1][1] * h[1][1] + p[2][1] * h[2][1], p[0][1] * h[0][2] + p[1][1] * h[1][2] + p[2][1] * h[2][2], p[0][2] * h[0][0] + p[1][2] * h[1][0] + p[2][2] * h[2][0], p[0][2] * h[0][1] + p[1][2] * h[1][1] + p[2][2] * h[2][1], p[0][2] * h[0][2] + p[1][2] * h[1][2] + p[2][2] * h[2][2])


@spec
def group_order(p: "L(L(real))", b: "L(L(real))", eps: real) -> int:
    """The number of operations the space group search finds (no definition: the same for the same crystal)."""
    pass
