"""C16: predicted lattice parameter."""
import numpy as np
from phenum import element_data
import crystal as X

LIMIT = 20
# cubic angstrom per atom
TABLE = {"H": 37.2958, "He": 32.1789, "Li": 21.2543, "Be": 8.49323, "B": 7.24205, "C": 5.68741, "N": 46.6002, "O": 22.2802, "F": 17.0258, "Ne": 21.7346,
         "Na": 23.2596, "Mg": 23.3928, "Al": 16.6075, "Si": 7.8511, "P": 9.1459, "S": 17.1672, "Cl": 35.2074, "Ar": 36.3829, "K": 71.5278, "Ca": 43.4353,
         "Sc": 25.6478, "Ti": 18.1565, "V": 13.7718, "Cr": 11.9439, "Mn": 19.3207, "Fe": 11.82, "Co": 11.1838, "Ni": 10.9036, "Cu": 11.7615, "Zn": 13.311,
         "Ga": 18.4496, "Ge": 19.3638, "As": 20.427, "Se": 58.6173, "Br": 33.317, "Kr": 46.7873, "Rb": 87.3384, "Sr": 56.1889, "Y": 33.0792, "Zr": 23.8327,
         "Nb": 17.9685, "Mo": 15.6279, "Tc": 14.5458, "Ru": 13.9206, "Rh": 13.718, "Pd": 14.716, "Ag": 17.1045, "Cd": 18.7161, "In": 26.6861, "Sn": 29.3238,
         "Sb": 27.1733, "Te": 62.3227, "I": 24.3807, "Xe": 59.582, "Cs": 110.723, "Ba": 63.253, "Hf": 23.1748, "Ta": 18.1323, "W": 15.7772, "Re": 14.8694,
         "Os": 14.5485, "Ir": 14.1558, "Pt": 15.0591, "Au": 16.9793, "Hg": 27.6914, "Tl": 29.2949, "Pb": 30.3218, "Bi": 31.2849}


def volume(A, nb):
    A = np.array(A, float)
    return abs(float(np.dot(A[0], np.cross(A[1], A[2])))) / nb


def one(A, nb, elem):
    got = float(element_data.get_lat_param_element(A, nb, elem))
    want = (TABLE[elem] / volume(A, nb)) ** (1 / 3.)
    if abs(got - want) > 1e-9 * want:
        return "%s: %r instead of %r" % (elem, got, want)


def mean(A, nb, elems, counts, default, drop):
    ec, cc = list(elems), list(counts)
    got = element_data.get_lattice_parameter(ec, cc, A, nb, default, remove_zeros=drop)
    a, title = float(got[0]), got[1]
    if ec != list(elems) or cc != list(counts):
        return "the arguments are changed"
    vals = [(TABLE[e] / volume(A, nb)) ** (1 / 3.) for e in elems]
    want = sum(v * c for v, c in zip(vals, counts)) / sum(counts)
    if abs(a - want) > 1e-9 * want:
        return "%s %s: %r instead of %r" % (elems, counts, a, want)
    used = [v for v, c in zip(vals, counts) if c]
    if a < min(used) - 1e-9 or a > max(used) + 1e-9:
        return "%s %s: %r is outside the element values" % (elems, counts, a)
    names = [e for e, c in zip(elems, counts) if c or not drop]
    rest = default.strip()
    if not title.rstrip("\n").endswith(rest):
        return "title %r does not end with %r" % (title, rest)
    head = title.rstrip("\n")
    head = head[:len(head) - len(rest)] if rest else head
    if head.split() != names:
        return "title %r names %s instead of %s" % (title, head.split(), names)


def none(counts, A, nb, default):
    a, title = element_data.get_lattice_parameter(None, list(counts), A, nb, default)
    if a != 1 or title != default:
        return "no elements: %r %r" % (a, title)


def wrong(A, nb, elems, counts):
    try:
        got = element_data.get_lattice_parameter(list(elems), list(counts), A, nb, "t")
    except ValueError:
        return None
    return "%d names for %d species are accepted: %s" % (len(elems), len(counts), got)


def table():
    for e, v in TABLE.items():
        if element_data.element_volume.get(e) != v:
            return "volume of %s is %s, not %s" % (e, element_data.element_volume.get(e), v)


CHECKS = {"one": one, "mean": mean, "none": none, "wrong": wrong, "table": table}


def cases(ctx):
    yield "table", []
    for e in sorted(TABLE):
        yield "one", [X.shape("fcc"), 1, e]
    sc = X.shape("sc")
    for c in ([1, 3], [0, 4], [4, 0], [2, 2]):
        for d in (True, False):
            yield "mean", [sc, 1, ["Al", "Cu"], c, "title str #: 1\n", d]
    yield "wrong", [sc, 1, ["Al"], [1, 3]]
    yield "wrong", [sc, 1, ["Al", "Cu", "Ni"], [1, 3]]
    yield "wrong", [sc, 1, ["Al", "Cu", "Ni"], [1, 3, 0, 2]]
    yield "wrong", [sc, 1, [], [1, 3]]
    ctx.random_part = True
    r = ctx.rng
    names = sorted(TABLE)
    while True:
        A = np.array(X.shape(r.choice(list(X.LATTICES)))) * r.choice([1, .5, 2, 3.6])
        if r.random() < .5:
            A = A[::-1]
        A = A.tolist()
        nb, k = r.randint(1, 5), r.randint(1, 6)
        el = [r.choice(names) for _ in range(k)] if r.random() < .1 else r.sample(names, k)
        c = [r.choice([0, 1, 2, 3, r.randint(0, 60)]) for _ in range(k)]
        t = r.choice(["title str #: 1\n", "", "Random structure\n", " x "])
        if sum(c):
            yield "mean", [A, nb, el, c, t, r.random() < .5]
            yield "none", [c, A, nb, t]
        m = r.randint(0, 6)
        if m != k and sum(c):
            yield "wrong", [A, nb, r.sample(names, m), c]
        yield "one", [A, nb, r.choice(names)]
