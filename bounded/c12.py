"""C12: reduction of bases, wrapping into the cell."""
import itertools, math
import numpy as np
from phenum import vector_utils, symmetry
import crystal as X

LIMIT = 30
EPS = 1e-7


def same(Bold, Bnew, tol=1e-5):
    """Do the rows span the same lattice?"""
    T = np.array(Bnew, float) @ np.linalg.pinv(np.array(Bold, float))
    return np.allclose(T, np.rint(T), atol=tol) and abs(abs(np.linalg.det(T)) - 1) < tol and np.allclose(np.rint(T) @ np.array(Bold, float), Bnew, atol=1e-6)


def minkowski(B):
    B = [list(map(float, v)) for v in B]
    arg = [list(v) for v in B]
    got = vector_utils._minkowski_reduce_basis(arg, EPS)
    if arg != B:
        return "the input is changed"
    G = np.array([list(map(float, v)) for v in got])
    if not same(B, G):
        return "%s -> %s: another lattice" % (B, G.tolist())
    if np.linalg.det(G) <= 0:
        return "%s -> %s: not right-handed" % (B, G.tolist())
    v = sorted(G.tolist(), key=np.linalg.norm)
    v = [np.array(x) for x in v]
    l = [np.linalg.norm(x) for x in v]
    for c in itertools.product((-1, 0, 1), repeat=2):
        if c != (0, 0) and np.linalg.norm(v[2] + c[0] * v[0] + c[1] * v[1]) < l[2] - 1e-5:
            return "%s -> %s: third vector can be made shorter" % (B, G.tolist())
    for c in (-1, 1):
        if np.linalg.norm(v[1] + c * v[0]) < l[1] - 1e-5:
            return "%s -> %s: second vector can be made shorter" % (B, G.tolist())
    if not vector_utils._minkowski_conditions_check(v, 1e-5):
        return "%s -> %s: conditions" % (B, G.tolist())


def judge(B):
    """The test of the conditions itself."""
    v = [np.array(x, float) for x in B]
    l = [np.linalg.norm(x) for x in v]
    gap = [l[1] - l[0], l[2] - l[1], np.linalg.norm(v[1] + v[0]) - l[1], np.linalg.norm(v[1] - v[0]) - l[1]]
    gap += [np.linalg.norm(v[2] + a * v[0] + b * v[1]) - l[2] for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)]
    if abs(min(gap)) < 1e-5:
        return None
    want = min(gap) > 0
    if bool(vector_utils._minkowski_conditions_check([list(x) for x in v], EPS)) != want:
        return "%s: conditions are %sfulfilled" % (B, "" if want else "not ")


def dependent(B):
    try:
        got = vector_utils._minkowski_reduce_basis([list(map(float, v)) for v in B], EPS)
    except ValueError:
        return None
    return "dependent vectors %s are accepted" % B


def two(U, V):
    u, v = vector_utils._gaussian_reduce_two_vectors(list(U), list(V), EPS)
    u, v = np.array(u, float), np.array(v, float)
    if not same([U, V], [u, v]):
        return "%s %s -> %s %s: another lattice" % (U, V, u, v)
    if np.linalg.norm(u) > np.linalg.norm(v) + 1e-5:
        return "%s %s -> %s %s: not sorted" % (U, V, u, v)
    if abs(u @ v) > u @ u / 2 + 1e-5:
        return "%s %s -> %s %s: not reduced" % (U, V, u, v)


def third(A, B, C):
    a, b, c = vector_utils._reduce_C_in_ABC(list(A), list(B), list(C), EPS)
    G = [list(map(float, x)) for x in (a, b, c)]
    if not same([A, B, C], G):
        return "%s %s %s -> %s: another lattice" % (A, B, C, G)
    a, b, c = map(np.array, G)
    for i, j in itertools.product((-1, 0, 1), repeat=2):
        if np.linalg.norm(c + i * a + j * b) < np.linalg.norm(c) - 1e-5:
            return "%s %s %s -> %s: third vector can be made shorter" % (A, B, C, G)


def wrapped(x, y, tol):
    """Direct coordinates y: those of x up to whole numbers, inside the cell."""
    for p, q in zip(x, y):
        if abs((q - p) - round(q - p)) > 1e-6:
            return "%s moved to %s" % (list(x), list(y))
        if q < -tol - 1e-9 or q >= 1 - tol + 1e-9:
            return "%s lies outside at %s" % (list(x), list(y))


def cell(A, coords, eps):
    """A: rows; coords: lattice coordinates of the point."""
    M = np.array(A, float).T
    p = (M @ np.array(coords, float)).tolist()
    got = symmetry.bring_into_cell(p, np.linalg.inv(M), M, eps)
    y = np.linalg.inv(M) @ np.array(got, float)
    return wrapped(coords, y, eps)


def direct(A, many, eps):
    S = np.array(A, float)
    pts = [(np.array(c, float) @ S).tolist() for c in many]
    got = vector_utils.cartesian2direct(S.tolist(), pts, eps)
    if len(got) != len(many):
        return "%d points become %d" % (len(many), len(got))
    for c, y in zip(many, got):
        m = wrapped(c, [float(x) for x in y], eps)
        if m:
            return m


CHECKS = {"minkowski": minkowski, "judge": judge, "dependent": dependent, "two": two, "third": third, "cell": cell, "direct": direct}


def coords(r):
    out = []
    for _ in range(3):
        x = r.choice([0, .5, .25, 1 / 3., r.random(), r.random()])
        out.append(x + r.choice([0, 0, 0, 1, -1, 2, -2, 5, -7, 13]) + r.choice([0, 0, 0, 1e-9, -1e-9]))
    return out


def cases(ctx):
    for name in X.LATTICES:
        for n in (1, 2, 3, 4, 6):
            hs = X.all_hnf(n)
            for H in hs[::max(1, len(hs) // 6)]:
                S = (np.array(X.shape(name)).T @ np.array(H)).T.tolist()
                yield "minkowski", [S]
    yield "dependent", [[[1, 0, 0], [2, 0, 0], [0, 1, 0]]]
    yield "dependent", [[[1, 2, 3], [4, 5, 6], [5, 7, 9]]]
    for c in ([1, 1, 1], [0, 0, 0], [-1, -1, -1], [.5, 1.5, -.5], [3, -4, 2.25], [1 - 1e-12, -1e-12, 0], [10.3, -9.7, 0]):
        yield "cell", [X.shape("fcc"), c, 1e-7]
        yield "direct", [X.shape("mono"), [c, c[::-1]], 1e-7]
    ctx.random_part = True
    r = ctx.rng
    names = list(X.LATTICES)
    while True:
        A = np.array(X.shape(r.choice(names))) * r.choice([1, 1, 1, 3.6, .4])
        n = r.choice([1, 2, 3, 5, 8, 12, 20, 36, 60])
        a = r.choice([x for x in range(1, n + 1) if n % x == 0])
        c = r.choice([x for x in range(1, n // a + 1) if (n // a) % x == 0])
        f = n // a // c
        H = np.array([[a, 0, 0], [r.randint(0, c - 1), c, 0], [r.randint(0, f - 1), r.randint(0, f - 1), f]])
        S = (A.T @ H).T
        if r.random() < .3:
            S = S[r.sample(range(3), 3)]
        if r.random() < .3:
            S = S * np.array([[r.choice([-1, 1])] for _ in range(3)])
        if r.random() < .3:
            S = S + np.array([[r.uniform(-.2, .2) for _ in range(3)] for _ in range(3)])
            if abs(np.linalg.det(S)) < .05:
                continue
        S = S.tolist()
        yield "minkowski", [S]
        yield "two", [S[0], S[1]]
        yield "third", S
        yield "judge", [[[r.choice([-2, -1, 0, 1, 2, r.uniform(-2, 2)]) for _ in range(3)] for _ in range(3)]]
        yield "judge", [S]
        eps = r.choice([1e-10, 1e-7, 1e-5])
        yield "cell", [S, coords(r), eps]
        yield "direct", [S, [coords(r) for _ in range(r.randint(1, 6))], eps]
        v = [[r.randint(-5, 5) for _ in range(3)] for _ in range(2)]
        yield "dependent", [v + [[v[0][i] * 2 - v[1][i] for i in range(3)]]]
