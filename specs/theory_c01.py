# Lists of rows: membership, used for the completeness of the shape lists.


@spec(decreases="k", frame=("l", "0", "k"))
def mem3(l: "A(L(int))", k: int, a: int, b: int, c: int) -> bool:
    return False if k <= 0 else (mem3(l, k - 1, a, b, c) or (l[k - 1][0] == a and l[k - 1][1] == b and l[k - 1][2] == c))


@lemma(requires=["a >= 1", "b >= 1", "c >= 1", "a * b * c == n"],
       ensures=["n % a == 0", "(n // a) % b == 0", "(n // a) // b == c", "a <= n", "b <= n // a"])
def triple_divides(n: int, a: int, b: int, c: int):
    div_exact(n, a, b * c)
    div_exact(b * c, b, c)
    assert b * c >= 1
    assert (b * c - 1) * a >= 0
    assert (c - 1) * b >= 0


@lemma(requires=["a >= 1", "n >= 1", "n % a == 0"], ensures=["a * (n // a) == n", "n // a >= 1"])
def div_back(n: int, a: int):
    pass


@spec
def hnfrow(r: "L(L(int))", a: int, b: int, c: int, d: int, e: int, f: int) -> bool:
    return (len(r) == 3 and len(r[0]) == 3 and len(r[1]) == 3 and len(r[2]) == 3 and r[0][0] == a and r[0][1] == 0 and r[0][2] == 0
            and r[1][0] == b and r[1][1] == c and r[1][2] == 0 and r[2][0] == d and r[2][1] == e and r[2][2] == f)


@spec(decreases="k", frame=("l", "0", "k"))
def mem6(l: "A(L(L(int)))", k: int, a: int, b: int, c: int, d: int, e: int, f: int) -> bool:
    return False if k <= 0 else (mem6(l, k - 1, a, b, c, d, e, f) or hnfrow(l[k - 1], a, b, c, d, e, f))


@spec
def hlex(x: "L(L(int))", y: "L(L(int))") -> bool:
    """Strictly earlier in the order (a, c, b, d, e)."""
    return (x[0][0] < y[0][0] or (x[0][0] == y[0][0] and (x[1][1] < y[1][1] or (x[1][1] == y[1][1] and (x[1][0] < y[1][0] or (
        x[1][0] == y[1][0] and (x[2][0] < y[2][0] or (x[2][0] == y[2][0] and x[2][1] < y[2][1]))))))))


@lemma(requires=["0 <= i", "i < j", "forall(lambda k: implies(i <= k and k < j, hlex(l[k], l[k + 1])))"], ensures=["hlex(l[i], l[j])"], decreases="j - i")
def hlex_chain(l: "A(L(L(int)))", i: int, j: int):
    if i < j - 1:
        hlex_chain(l, i, j - 1)


@lemma(requires=["0 <= i", "i < j", "forall(lambda k: implies(i <= k and k < j, hlex(l[k], l[k + 1])))"],
       ensures=["l[i][0][0] != l[j][0][0] or l[i][1][1] != l[j][1][1] or l[i][1][0] != l[j][1][0] or l[i][2][0] != l[j][2][0] or l[i][2][1] != l[j][2][1]"])
def hnfs_distinct(l: "A(L(L(int)))", i: int, j: int):
    hlex_chain(l, i, j)


@lemma(requires=["n >= 1", "a >= 1", "c >= 1", "f >= 1", "a * c * f == n", "0 <= b", "b < c", "0 <= d", "d < f", "0 <= e", "e < f",
                 "forall(lambda x, y: implies(x >= 1 and y >= 1 and n % x == 0 and (n // x) % y == 0, mem3(di, kd, x, y, (n // x) // y)))",
                 "forall(lambda x, y, z, u, v, w: implies(mem3(di, kd, x, y, z) and 0 <= u and u < y and 0 <= v and v < z and 0 <= w and w < z,"
                 " mem6(l, k, x, u, y, v, w, z)))"],
       ensures=["mem6(l, k, a, b, c, d, e, f)"])
def hnfs_complete(n: int, di: "A(L(int))", kd: int, l: "A(L(L(int)))", k: int, a: int, b: int, c: int, d: int, e: int, f: int):
    triple_divides(n, a, c, f)


@spec
def hbefore(x: "L(L(int))", a: int, c: int, b: int, d: int, e: int) -> bool:
    """Row strictly earlier than the position (a, c, b, d, e)."""
    return (x[0][0] < a or (x[0][0] == a and (x[1][1] < c or (x[1][1] == c and (x[1][0] < b or (
        x[1][0] == b and (x[2][0] < d or (x[2][0] == d and x[2][1] < e))))))))


@lemma(requires=["mem3(l, k, a, b, c)"], ensures=["exists(lambda i: 0 <= i and i < k and l[i][0] == a and l[i][1] == b and l[i][2] == c)"], decreases="k")
def mem3_at(l: "A(L(int))", k: int, a: int, b: int, c: int):
    if k > 0 and not (l[k - 1][0] == a and l[k - 1][1] == b and l[k - 1][2] == c):
        mem3_at(l, k - 1, a, b, c)
