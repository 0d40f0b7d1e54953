"""Running the enumeration of one supercell and comparing with orbits found by brute force."""
import random
from collections import Counter
import numpy as np
from phenum import phonons
import combin as K
import crystal as X


def lower(H):
    return [H[0][0], H[1][0], H[1][1], H[2][0], H[2][1], H[2][2]]


def wanted_arrows(concs, fracs):
    return [int(c * f) for c, f in zip(concs, fracs)]


def run(A, basis, H, concs, fracs, num, supers, seed=0):
    """Structures returned for one supercell and composition, as tuples of (direction or -1, species)."""
    params = {"lat_vecs": [list(map(float, v)) for v in A], "basis_vecs": [list(map(float, b)) for b in X.cart(A, basis)]}
    random.seed(seed)
    np.random.seed(seed)
    got = phonons.enum_sys(None, list(concs), list(fracs), num, lower(H), params, supers)
    return [tuple((int(a), int(s)) for a, s in c) for c in got]


def setup(A, basis, H, concs, fracs):
    arr = wanted_arrows(concs, fracs)
    ops, n = K.crystal_group(None, A, basis, H, sum(fracs) > 0)
    types = [(c - a, False) for c, a in zip(concs, arr) if c - a] + [(a, True) for a in arr if a]
    return arr, ops, n, types


def periodic(s, ops, n):
    """Mapped to itself by a lattice translation other than the identity."""
    return any(K.act(o, s) == s for o in ops[1:n])


def member(s, concs, arr, dim=6):
    """Sentence if s has not the requested composition, arrows and directions."""
    if len(s) != sum(concs):
        return "%d sites instead of %d" % (len(s), sum(concs))
    got = Counter(x[1] for x in s)
    want = {i + 1: c for i, c in enumerate(concs) if c}
    if dict(got) != want:
        return "species counts %s instead of %s" % (dict(got), want)
    garr = Counter(x[1] for x in s if x[0] >= 0)
    warr = {i + 1: a for i, a in enumerate(arr) if a}
    if dict(garr) != warr:
        return "arrow counts %s instead of %s" % (dict(garr), warr)
    for a, _ in s:
        if not -1 <= a < dim:
            return "direction %d" % a


def sites(H, basis):
    return abs(X.inv_int(H)[1]) * len(basis)
