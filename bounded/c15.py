"""C15: the enumeration file and the structure files made from it."""
import os, random, shutil, tempfile
from collections import Counter
import numpy as np
import combin as K
import crystal as X
import enumsys as E
import c08

LIMIT = 100
KNOWN = c08.KNOWN
DIRS = [[0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]


class Folder:
    def __enter__(self):
        self.back = os.getcwd()
        self.path = tempfile.mkdtemp(dir=self.back)
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.back)
        shutil.rmtree(self.path)


def lattice_in(A, basis, k, sizes, fracs):
    with open("lattice.in", "w") as f:
        f.write("%d %d\nbulk\n" % tuple(sizes))
        for v in A:
            f.write("%r %r %r\n" % tuple(map(float, v)))
        f.write("%d\n%d\n" % (k, len(basis)))
        for v in X.cart(A, basis):
            f.write("%r %r %r\n" % tuple(map(float, v)))
        if any(fracs):
            f.write("T\nT\n" + "".join("0 1 1 %r\n" % x for x in fracs))
        else:
            f.write("F\n")


def make(A, basis, k, sizes, fracs, systems, supers, seed=1):
    """enum.out of the given systems [[supercell, counts, number]]."""
    from phenum import enumeration
    lattice_in(A, basis, k, sizes, fracs)
    with open("enum.in", "w") as f:
        f.write("# {0: <28}  {1: <10}  {2}\n".format("HNF", "Conc.", "Number"))
        for H, c, num in systems:
            f.write("  {0: <28}  {1: <10}  {2:d}\n".format(" ".join(map(str, E.lower(H))), " ".join(map(str, c)), num))
    enumeration._enum_out({"lattice": "lattice.in", "input": "enum.in", "outfile": "enum.out", "seed": seed, "super": supers,
                           "acceptrate": None, "distribution": None, "sizes": None})


def expected(A, basis, fracs, systems, supers):
    from phenum import grouptheory
    import copy
    out = []
    for H, c, num in systems:
        M, L, R = grouptheory.SmithNormalForm(copy.deepcopy(H))
        for s in E.run(A, basis, H, c, fracs, num, supers):
            out.append((E.lower(H), [M[0][0], M[1][1], M[2][2]], [[int(x) for x in r] for r in L],
                        "".join(str(x[1] - 1) for x in s), "".join(str(x[0] + 1) for x in s)))
    return out


def ask(structures):
    return {"input": "enum.out", "structures": structures}


def enum_file(A, basis, k, fracs, systems, supers):
    """Everything enumerated is read back (full enumerations: nothing random)."""
    from phenum import io_utils
    with Folder():
        n = [abs(X.inv_int(H)[1]) for H, _, _ in systems]
        make(A, basis, k, [min(n), max(n)], fracs, systems, supers)
        want = expected(A, basis, fracs, systems, supers)
        system, data = io_utils.read_enum_out(ask(None))
        if not np.allclose(np.array(system["plattice"]).T, A, atol=1e-6) or not np.allclose(system["dvecs"], X.cart(A, basis), atol=1e-6):
            return "parent lattice read as %s %s" % (np.array(system["plattice"]).T.tolist(), system["dvecs"])
        if system["nD"] != len(basis) or system["k"] != k or not system["bulksurf"].startswith("bulk"):
            return "header read as %s" % system
        got = [(E.lower(d["HNF"]), d["diag"], d["L"], d["labeling"], d["directions"]) for d in data]
        key = lambda t: repr(t)
        if sorted(got, key=key) != sorted(want, key=key):
            extra = [g for g in got if g not in want][:1]
            miss = [w for w in want if w not in got][:1]
            return "%d structures read, %d enumerated; wrong %s missing %s" % (len(got), len(want), extra, miss)
        if [d["strN"] for d in data] != list(range(1, len(want) + 1)):
            return "structure numbers %s" % [d["strN"] for d in data]
        for d in data:
            if d["n"] != d["HNF"][0][0] * d["HNF"][1][1] * d["HNF"][2][2]:
                return "size %d of %s" % (d["n"], d["HNF"])
        some = sorted(random.Random(1).sample(range(1, len(want) + 1), min(3, len(want))))
        _, part = io_utils.read_enum_out(ask(some))
        if [d["strN"] for d in part] != some or any(p != data[p["strN"] - 1] for p in part):
            return "asked for structures %s, got %s" % (some, [d["strN"] for d in part])


def handmade(A, basis, k, H, label, arrows, displace, rattle, mink, config, species, drop, seed, mapping=None):
    """Structure file of one given structure."""
    from phenum import io_utils, phenumStr, grouptheory
    import copy
    M, L, R = grouptheory.SmithNormalForm(copy.deepcopy(H))
    D = [int(M[i][i]) for i in range(3)]
    L = [[int(x) for x in r] for r in L]
    n = D[0] * D[1] * D[2]
    N = n * len(basis)
    bc = X.cart(A, basis)
    with Folder():
        params = {"bulk": True, "lat_vecs": A, "basis_vecs": bc, "nspecies": k, "sizes": [1, n], "is_crestricted": False}
        io_utils.write_enum(params, outfile="enum.out")
        with open("enum.out", "a") as f:
            h = E.lower(H)
            f.write(" ".join(map(str, [1, 1, 1, 1, 1, 1, n, 1] + D + h + sum(L, []) + [label, arrows])) + "\n")
        system, _ = io_utils.read_enum_out(ask(None))
        random.seed(seed)
        np.random.seed(seed)
        args = {"input": "enum.out", "structures": [1], "outfile": "cfg" if config == "t" else "vasp.{}", "species": list(species) if species else None,
                "remove_zeros": drop, "rattle": rattle, "displace": displace, "mink": mink, "config": config,
                "mapping": {int(a): b for a, b in mapping.items()} if mapping else None}
        phenumStr._make_structures(args)
        counts = [label.count(str(i)) for i in range(k)]
        scale = 1.0
        if species:
            from c16 import TABLE, volume
            sp = species if not mapping or len(species) == len(mapping) else [species[b] for b in mapping.values()]
            scale = sum(c * (TABLE[e] / volume(A, len(basis))) ** (1 / 3.) for e, c in zip(sp, counts)) / N
        P = np.array(system["plattice"], float)
        Hm = np.array(H, float)
        # every site: where, which species, which direction
        sites = []
        for b in range(len(basis)):
            seen = set()
            for z in np.ndindex(*(3 * (n,))) if n <= 12 else box(H):
                q = [sum(L[i][j] * int(z[j]) for j in range(3)) % D[i] for i in range(3)]
                idx = b * n + q[0] * D[1] * D[2] + q[1] * D[2] + q[2]
                if idx in seen:
                    continue
                seen.add(idx)
                sites.append((P @ np.array(z, float) + np.array(bc[b], float), label[idx], int(arrows[idx])))
        if config == "t":
            cell, atoms, err = read_config(scale)
        else:
            cell, atoms, err = read_poscar(scale, counts, drop and species, k)
        if err:
            return err
        if len(atoms) != N:
            return "%d atoms instead of %d" % (len(atoms), N)
        T = np.linalg.inv(P @ Hm) @ np.array(cell).T
        if not np.allclose(T, np.rint(T), atol=1e-3) or abs(abs(np.linalg.det(T)) - 1) > 1e-3:
            return "cell %s is not the supercell" % cell
        left = list(sites)
        inv = np.linalg.inv(P @ Hm)
        for pos, typ in atoms:
            ok = None
            for s in left:
                if (s[1] if not mapping else str({int(a): b for a, b in mapping.items()}[int(s[1])])) != typ:
                    continue
                d = inv @ (np.array(pos) - s[0])
                move = inv @ (displace * np.array(DIRS[s[2]], float))
                # allowed: d = lattice + move*(1+t), |t| <= rattle
                for t in (0.,) if not rattle or not s[2] or not displace else np.linspace(-abs(rattle), abs(rattle), 41):
                    e = d - move * (1 + t)
                    if np.allclose(e, np.rint(e), atol=2e-4 if not (rattle and s[2]) else 2e-4 + float(np.abs(move).max()) * abs(rattle) / 38):
                        ok = s
                        break
                if ok is not None:
                    break
            if ok is None:
                return "atom of species %s at %s belongs to no site (displacement %s, rattle %s)" % (typ, list(pos), displace, rattle)
            left = [s for s in left if s is not ok]


def box(H):
    a, c, f = H[0][0], H[1][1], H[2][2]
    return [(x, y, z) for x in range(a) for y in range(c) for z in range(f)]


def read_poscar(scale, counts, drop, k):
    w = open("vasp.1").read().split("\n")
    if abs(float(w[1]) - scale) > .00501:
        return None, None, "scale %s instead of %s" % (w[1], scale)
    cell = [list(map(float, w[2 + i].split())) for i in range(3)]
    c = list(map(int, w[5].split()))
    if c != [x for x in counts if x or not drop]:
        return None, None, "counts %s instead of %s" % (c, counts)
    if w[6].strip() != "D":
        return None, None, "coordinates are %s" % w[6]
    lines = [l for l in w[7:] if l.strip()]
    if len(lines) != sum(counts):
        return None, None, "%d atoms instead of %d" % (len(lines), sum(counts))
    kinds = [str(i) for i, x in enumerate(counts) for _ in range(x)]
    return cell, [(np.array(list(map(float, l.split()))) @ np.array(cell), t) for l, t in zip(lines, kinds)], None


def read_config(scale):
    w = open("cfg").read().split("\n")
    if w[0].strip() != "BEGIN_CFG":
        return None, None, "file begins with %s" % w[0]
    n = int(w[2])
    cell = [np.array(list(map(float, w[4 + i].split()))) / scale for i in range(3)]
    atoms = []
    for i in range(n):
        p = w[8 + i].split()
        if int(p[0]) != i + 1:
            return None, None, "atom number %s" % p[0]
        atoms.append((np.array(list(map(float, p[2:]))) / scale, p[1]))
    if not w[8 + n].strip().startswith("Feature") or w[9 + n].strip() != "END_CFG":
        return None, None, "after the atoms: %s" % w[8 + n:10 + n]
    return cell, atoms, None


CHECKS = {"enum_file": enum_file, "handmade": handmade}
ELEMENTS = ["Al", "Cu", "Ni", "Fe", "Pt", "W", "Zn", "Ag", "Au", "Ti"]


def one(r, small=False):
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
    a = r.choice([x for x in range(1, n + 1) if n % x == 0])
    c = r.choice([x for x in range(1, n // a + 1) if (n // a) % x == 0])
    f = n // a // c
    H = [[a, 0, 0], [r.randint(0, c - 1), c, 0], [r.randint(0, f - 1), r.randint(0, f - 1), f]]
    b = r.choice(X.BASES)
    k = r.randint(1, 10) if r.random() < .2 else r.randint(1, 4)
    N = n * len(b)
    label = "".join(str(r.randint(0, k - 1)) for _ in range(N))
    arrows = "".join(str(r.choice([0, 0, 1, 2, 3, 4, 5, 6])) for _ in range(N)) if r.random() < .8 else "0" * N
    config = r.choice("fft")
    species = r.sample(ELEMENTS, k) if r.random() < .5 or config == "t" else None
    mapping = None
    if config == "t" and k < 10 and r.random() < .4:
        tot = r.randint(k, min(10, k + 2))
        mapping = {str(i): j for i, j in enumerate(r.sample(range(tot), k))}
        species = r.sample(ELEMENTS, tot)
        if tot == k:
            species = r.sample(ELEMENTS, k)
    rattle = r.choice([0, 0, 0, .1, .25])
    return [X.shape(r.choice(list(X.LATTICES))), b, k, H, label, arrows, r.choice([0, .1, .0731, .25]), rattle, r.random() < .5, config, species,
            r.random() < .5, r.randint(0, 999), mapping]


def cases(ctx):
    fix = random.Random(11)
    for _ in range(60):
        yield "handmade", one(fix)
    tet, sc, fcc = X.shape("tet"), X.shape("sc"), X.shape("fcc")
    b1 = X.BASES[0]
    box3 = lambda a, b, c: [[a, 0, 0], [0, b, 0], [0, 0, c]]
    yield "enum_file", [fcc, b1, 2, [0, 0], [[box3(1, 1, 2), [1, 1], 9], [box3(1, 1, 4), [2, 2], 99], [[[1, 0, 0], [0, 1, 0], [1, 2, 4]], [1, 3], 99]], False]
    yield "enum_file", [tet, b1, 2, [.5, 0], [[box3(1, 1, 2), [1, 1], 99], [box3(1, 2, 2), [2, 2], 9999]], True]
    yield "enum_file", [fcc, b1, 2, [0, 0], [[box3(1, 1, 11), [1, 10], 99], [[[1, 0, 0], [0, 1, 0], [10, 9, 13]], [1, 12], 99]], False]
    ctx.random_part = True
    r = ctx.rng
    while True:
        for _ in range(8):
            yield "handmade", one(r)
        arrows = r.random() < .4
        A = X.shape(r.choice(X.AXIAL if arrows else list(X.LATTICES)))
        b = r.choice(X.BASES)
        k = r.randint(1, 4)
        fr = [r.choice([0, .5, 1]) if arrows else 0 for _ in range(k)]
        systems = []
        for _ in range(r.randint(1, 3)):
            n = r.choice([1, 2, 3, 4, 5, 6])
            if n * len(b) > 8:
                continue
            c = K.random_counts(r, n * len(b), k)
            if K.how_many(c, E.wanted_arrows(c, fr), 6) > 3000:
                continue
            systems.append([r.choice(X.all_hnf(n)), c, 10 ** 6])
        if systems:
            yield "enum_file", [A, b, k, fr, systems, r.random() < .5]
