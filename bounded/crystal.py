"""Crystals, their symmetry and supercells, computed independently of /repo."""
import itertools
import numpy as np

S3 = 3 ** 0.5

# parent cells (rows are vectors) and one or more bases in lattice coordinates
LATTICES = {
    "sc": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "fcc": [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]],
    "bcc": [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]],
    "bct": [[-.5, .5, .7], [.5, -.5, .7], [.5, .5, -.7]],
    "tet": [[1, 0, 0], [0, 1, 0], [0, 0, 1.3]],
    "ortho": [[1, 0, 0], [0, 1.2, 0], [0, 0, 1.7]],
    "bco": [[.5, .6, 0], [-.5, .6, 0], [0, 0, 1.5]],
    "fco": [[0, .6, .8], [.5, 0, .8], [.5, .6, 0]],
    "ico": [[-.5, .6, .85], [.5, -.6, .85], [.5, .6, -.85]],
    "hex": [[1, 0, 0], [.5, S3 / 2, 0], [0, 0, 1.6]],
    "hex2": [[1, 0, 0], [-.5, S3 / 2, 0], [0, 0, .9]],
    "rho": [[.8, .3, .3], [.3, .8, .3], [.3, .3, .8]],
    "mono": [[1, 0, 0], [0, 1.3, 0], [.3, 0, 1.1]],
    "monoc": [[.6, .8, 0], [-.6, .8, 0], [.25, 0, 1.1]],
    "tri": [[1, 0, 0], [.2, 1.1, 0], [.3, .15, 1.4]],
}
# those whose rotations permute the six directions +-x, +-y, +-z
AXIAL = ["sc", "fcc", "bcc", "bct", "tet", "ortho", "bco", "fco", "ico", "mono"]

BASES = [
    [[0, 0, 0]],
    [[0, 0, 0], [.5, .5, .5]],
    [[0, 0, 0], [.25, .25, .25]],
    [[0, 0, 0], [.5, 0, 0]],
    [[0, 0, 0], [.5, .5, 0]],
    [[0, 0, 0], [0, 0, .5]],
    [[0, 0, 0], [.3, .3, 0]],
    [[0, 0, 0], [1 / 3, 1 / 3, .5]],
    [[0, 0, 0], [1 / 3, 2 / 3, .5]],
    [[0, 0, 0], [.1, .2, .35]],
    [[0, 0, 0], [.5, .5, 0], [.5, 0, .5]],
    [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]],
    [[0, 0, 0], [.25, .25, .25], [.75, .75, .75]],
    [[.1, .1, .1], [.9, .9, .9]],
    [[.25, .25, .25]],
    [[.2, .7, .4]],
]


def cart(A, b):
    return [[float(x) for x in np.dot(v, np.array(A, float))] for v in b]


def point_group(A):
    """Integer matrices W (columns: lattice coordinates of the images of the basis vectors)."""
    A = np.array(A, float)
    G = A @ A.T
    Gi = np.linalg.inv(G)
    mx = max(np.diag(G))
    r = [int(np.floor((mx * Gi[i, i]) ** .5 + 1e-6)) for i in range(3)]
    vs = [[], [], []]
    for x in itertools.product(*[range(-k, k + 1) for k in r]):
        q = np.dot(x, G @ np.array(x))
        for i in range(3):
            if abs(q - G[i, i]) < 1e-7:
                vs[i].append(np.array(x))
    out = []
    for u in vs[0]:
        for v in vs[1]:
            if abs(u @ G @ v - G[0, 1]) > 1e-7:
                continue
            for w in vs[2]:
                if abs(u @ G @ w - G[0, 2]) < 1e-7 and abs(v @ G @ w - G[1, 2]) < 1e-7:
                    out.append(np.array([u, v, w]).T)
    return out


def space_group(A, basis):
    """[(W, t, perm)] with basis in lattice coordinates: W b + t = b[perm] modulo the lattice."""
    b = np.array(basis, float)
    ops = []
    for W in point_group(A):
        seen = []
        for j in range(len(b)):
            t = b[j] - W @ b[0]
            perm = []
            for x in b:
                y = W @ x + t
                d = y - b
                hit = [k for k in range(len(b)) if np.all(np.abs(d[k] - np.round(d[k])) < 1e-6)]
                if len(hit) != 1:
                    break
                perm.append(hit[0])
            else:
                if sorted(perm) == list(range(len(b))):
                    ops.append((W, t, perm))
    return ops


def inv_int(H):
    """Inverse times determinant, exact."""
    H = [[int(x) for x in r] for r in H]
    (a, b, c), (d, e, f), (g, h, i) = H
    adj = np.array([[e * i - f * h, c * h - b * i, b * f - c * e], [f * g - d * i, a * i - c * g, c * d - a * f], [d * h - e * g, b * g - a * h, a * e - b * d]], dtype=object)
    det = a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
    return adj, det


def same_super(H1, M):
    """Is M Z^3 contained in H1 Z^3 (equal volumes: the same lattice)?"""
    adj, det = inv_int(H1)
    X = adj @ np.array([[int(x) for x in r] for r in M], dtype=object)
    return all(x % det == 0 for x in X.flatten())


def all_hnf(n):
    out = []
    for a in range(1, n + 1):
        if n % a:
            continue
        for c in range(1, n // a + 1):
            if (n // a) % c:
                continue
            f = n // a // c
            out += [[[a, 0, 0], [b, c, 0], [d, e, f]] for b in range(c) for d in range(f) for e in range(f)]
    return out


def directions(A, W):
    """Permutation of +x,-x,+y,-y,+z,-z by the rotation, or None."""
    A = np.array(A, float)
    R = A.T @ W @ np.linalg.inv(A.T)
    dirs = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
    p = []
    for v in dirs:
        w = R @ np.array(v)
        hit = [k for k, u in enumerate(dirs) if np.allclose(w, u, atol=1e-6)]
        if not hit:
            return None
        p.append(hit[0])
    return p


def supercell_group(A, basis, H, L, D, arrows):
    """The set of (site permutation, direction permutation) of the supercell,
    acting as new[i] = direction[old[site[i]]]; and the set of translations.
    Sites are numbered d * n + member, members (g0, g1, g2) with g2 fastest."""
    n = abs(inv_int(H)[1])
    b = np.array(basis, float)
    nd = len(b)
    Li, det = inv_int(L)
    Li = Li * det               # the determinant is +-1
    members = list(itertools.product(range(D[0]), range(D[1]), range(D[2])))
    number = {m: i for i, m in enumerate(members)}
    Lo = np.array([[int(x) for x in r] for r in L], dtype=object)
    pts = [[int(x) for x in Li @ np.array(m, dtype=object)] for m in members]

    def member(x):
        y = Lo @ np.array([int(v) for v in x], dtype=object)
        return number[tuple(int(v % d) for v, d in zip(y, D))]
    trans = set()
    for t in pts:
        s = [0] * (n * nd)
        for d in range(nd):
            for i, x in enumerate(pts):
                s[d * n + member([a + c for a, c in zip(x, t)])] = d * n + i
        trans.add(tuple(s))
    out = set()
    for W, t, perm in space_group(A, basis):
        if not same_super(H, W @ np.array(H)):
            continue
        dp = directions(A, W) if arrows else list(range(6))
        if dp is None:
            return None, None
        shift = []
        for d in range(nd):
            y = W @ b[d] + t - b[perm[d]]
            shift.append([int(v) for v in np.round(y)])
        base = [0] * (n * nd)
        for d in range(nd):
            for i, x in enumerate(pts):
                y = W @ np.array(x) + np.array(shift[d])
                base[perm[d] * n + member(y)] = d * n + i      # the atom at (perm d, y) comes from (d, x)
        for s in trans:
            out.add((tuple(base[k] for k in s), tuple(dp)))
    return out, trans


def shape(name, ratio=None):
    A = [list(map(float, r)) for r in LATTICES[name]]
    return A


def skew(rng, A, B):
    """Another cell of the same lattice (rows), basis B in lattice coordinates kept at its places."""
    A = np.array(A, float)
    U = np.eye(3, dtype=int)
    for _ in range(rng.randint(0, 2)):
        i, j = rng.sample(range(3), 2)
        U[i] += rng.choice([-1, 1]) * U[j]
    if rng.random() < .3:
        U[[0, 1]] = U[[1, 0]]
    C = np.array(B, float) @ np.linalg.inv(U)
    return (U @ A).tolist(), C.tolist(), U
