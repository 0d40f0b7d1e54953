"""C13: distributions of a requested number of structures."""
import os, random, shutil, tempfile
import numpy as np
from phenum import structures
import combin as K
import crystal as X

LIMIT = 60


def table(folder, size, hnfs, concs, counts):
    """A prediction file of one cell size: counts[i][j] structures for shape i and concentration j."""
    with open(os.path.join(folder, "polya.out.%d" % size), "w") as f:
        f.write("{0: <28}".format("# HNF"))
        for c in concs:
            f.write("{0: <50}".format(":".join(map(str, c))))
        f.write("{0: <50}\n".format("Total"))
        for h, row in zip(hnfs, counts):
            f.write("  {0: <26}".format(" ".join(map(str, h))))
            for v in row:
                f.write("{0: <50d}".format(v))
            f.write("{0: <10d}\n".format(sum(row)))
        f.write("# " + "-" * 40 + "\n")
        f.write("{0: <28}".format("  0 0 0 0 0 0"))
        for j in range(len(concs)):
            f.write("{0: <50d}".format(sum(r[j] for r in counts)))
        f.write("{0: <50d}\n".format(sum(map(sum, counts))))


def limits(tables, kind, shapes, wanted):
    """What exists of every entry of the distribution."""
    out = {}
    for size, hnfs, concs, counts in tables:
        for h, row in zip(hnfs, counts):
            for c, v in zip(concs, row):
                if shapes is not None and tuple(h) not in shapes or wanted is not None and tuple(c) not in wanted:
                    continue
                k = {"all": (size, tuple(h), tuple(c)), "shape": (size, tuple(h), None), "conc": (size, None, tuple(c)), "size": (size, None, None)}[kind]
                out[k] = out.get(k, 0) + v
    return out


def plain(k):
    return (int(k[0]), None if k[1] is None else tuple(int(x) for x in k[1]), None if k[2] is None else tuple(int(x) for x in k[2]))


def judge(got, lim, number, what):
    exist = sum(lim.values())
    for k, v in got.items():
        if k not in lim:
            return what + "%s is not allowed" % (k,)
        if int(v) != v or v < 1:
            return what + "%s has %r structures" % (k, v)
        if v > lim[k]:
            return what + "%s has %d structures but only %d exist" % (k, v, lim[k])
    want = exist if number is None else min(number, exist)
    if sum(got.values()) != want:
        return what + "%d structures instead of %d" % (sum(got.values()), want)
    if want == exist and {k: int(v) for k, v in got.items()} != {k: v for k, v in lim.items() if v}:
        return what + "everything was requested, but the counts differ"


def parse(path, kind, tables):
    got = {}
    size_of = {tuple(h): s for s, hs, _, _ in tables for h in hs}
    for line in open(path):
        if line.startswith("#"):
            continue
        w = [int(x) for x in line.split()]
        if kind == "all":
            k = (size_of[tuple(w[:6])], tuple(w[:6]), tuple(w[6:-1]))
        elif kind == "shape":
            k = (size_of[tuple(w[:6])], tuple(w[:6]), None)
        elif kind == "conc":
            k = (w[0], None, tuple(w[1:-1]))
        else:
            k = (w[0], None, None)
        if k in got:
            return "entry %s occurs twice" % (k,)
        got[k] = w[-1]
    return got


def split(tables, kind, number, seed, restrict=None):
    """restrict: None or [shape or conc, list of values]."""
    folder = tempfile.mkdtemp(dir=os.getcwd())
    back = os.getcwd()
    try:
        for t in tables:
            table(folder, *t)
        shapes = [tuple(x) for x in restrict[1]] if restrict and restrict[0] == "shape" else None
        wanted = [tuple(x) for x in restrict[1]] if restrict and restrict[0] == "conc" else None
        lim = limits(tables, kind, shapes, wanted)
        if sum(lim.values()) == 0:
            return None
        os.chdir(folder)
        sizes = [t[0] for t in tables]
        what = "%s over %s%s: " % (number, kind, "" if not restrict else " restricted to %s" % (restrict,))
        kw = {}
        if restrict:
            kw = {"res_type": restrict[0], "res_values": [tuple(x) for x in restrict[1]]}
        got = structures._distribute("polya.out", sizes, kind, n=number, seed=seed, **kw)
        m = judge({plain(k): v for k, v in got.items()}, lim, number, what)
        if m:
            return m
        if restrict:
            with open("filter", "w") as f:
                f.write("# values\n")
                for x in restrict[1]:
                    f.write((" ".join(map(str, x)) if restrict[0] == "shape" else " ".join(map(str, [0] + list(x)))) + "\n")
        structures.make_enum_in("polya.out", kind, "enum.in", number=number, sizes=sizes if seed is None or seed % 2 else None,
                                save=True, seed=seed, restrict=[restrict[0], "filter"] if restrict else None)
        got = parse("enum.in", kind, tables)
        if isinstance(got, str):
            return what + got
        return judge(got, lim, number, what + "file: ")
    finally:
        os.chdir(back)
        shutil.rmtree(folder)


def predicted(A, basis, k, sizes, limits_):
    """The table written for a crystal, and a distribution of everything in it."""
    from phenum import enumeration
    folder = tempfile.mkdtemp(dir=os.getcwd())
    back = os.getcwd()
    try:
        os.chdir(folder)
        with open("lattice.in", "w") as f:
            f.write("%d %d\nbulk\n" % tuple(sizes))
            for v in A:
                f.write("%r %r %r\n" % tuple(map(float, v)))
            f.write("%d\n%d\n" % (k, len(basis)))
            for v in X.cart(A, basis):
                f.write("%r %r %r\n" % tuple(map(float, v)))
            if limits_ is None:
                f.write("F\n")
            else:
                f.write("T\n%s\n" % ("T" if len(limits_[0]) == 4 else "F"))
                for l in limits_:
                    f.write(" ".join(map(str, l)) + "\n")
        enumeration._polya_out({"lattice": "lattice.in", "outfile": "polya.out"})
        tot = 0
        for s in range(sizes[0], sizes[1] + 1):
            lines = open("polya.out.%d" % s).read().split("\n")
            concs = [tuple(map(int, c.split(":"))) for c in lines[0].split()[2:-1]]
            rows = [list(map(int, l.split())) for l in lines[1:] if l.strip() and not l.startswith("#")]
            colsum = [0] * len(concs)
            for r in rows[:-1]:
                h = r[:6]
                H = [[h[0], 0, 0], [h[1], h[2], 0], [h[3], h[4], h[5]]]
                fr = [l[3] if len(l) == 4 else 0 for l in limits_] if limits_ else [0] * k
                ops, n = K.crystal_group(None, A, basis, H, sum(fr) > 0)
                if ops is None:
                    return None
                want = []
                for c in concs:
                    ar = [int(a * b) for a, b in zip(c, fr)]
                    want.append(K.burnside([(a - b, False) for a, b in zip(c, ar) if a - b] + [(b, True) for b in ar if b], ops, 6))
                if r[6:-1] != want or r[-1] != sum(want):
                    return "shape %s: counts %s instead of %s, total %d" % (h, r[6:-1], want, r[-1])
                colsum = [a + b for a, b in zip(colsum, want)]
            if rows[-1] != [0] * 6 + colsum + [sum(colsum)]:
                return "totals %s instead of %s" % (rows[-1], colsum)
            tot += sum(colsum)
        structures.make_enum_in("polya.out", "all", "enum.in")
        got = sum(int(l.split()[-1]) for l in open("enum.in") if not l.startswith("#"))
        if got != tot:
            return "%d structures requested in total, %d predicted" % (got, tot)
    finally:
        os.chdir(back)
        shutil.rmtree(folder)


CHECKS = {"split": split, "predicted": predicted}


def random_tables(r, k):
    out = []
    for size in sorted(r.sample(range(1, 13), r.randint(1, 3))):
        pool = [[h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], h[2][2]] for h in X.all_hnf(size)]
        hn = r.sample(pool, min(len(pool), r.randint(1, 5)))
        cs = [list(c) for c in dict.fromkeys(tuple(K.random_counts(r, size * 2, k)) for _ in range(r.randint(1, 5)))]
        top = r.choice([1, 3, 10, 200, 10 ** 5, 10 ** 9])
        out.append([size, hn, cs, [[r.choice([0, 1, top, r.randint(0, top)]) for _ in cs] for _ in hn]])
    return out


def cases(ctx):
    base = [[2, [[1, 0, 1, 0, 0, 2], [1, 0, 1, 0, 1, 2]], [[1, 1], [0, 2], [2, 0]], [[1, 0, 0], [2, 3, 1]]],
            [3, [[1, 0, 1, 0, 0, 3], [1, 0, 1, 0, 1, 3], [1, 0, 1, 1, 1, 3]], [[1, 2], [2, 1]], [[1, 1], [1, 1], [7, 2]]]]
    for kind in ("all", "shape", "conc", "size"):
        for number in list(range(1, 23)) + [None, 19, 50]:
            for seed in (1, 2):
                yield "split", [base, kind, number, seed, None]
        for number in (1, 3, 5, None):
            yield "split", [base, kind, number, 3, ["conc", [[1, 2], [1, 1]]]]
            yield "split", [base, kind, number, 4, ["shape", [[1, 0, 1, 0, 1, 2], [1, 0, 1, 1, 1, 3]]]]
    yield "predicted", [X.shape("fcc"), X.BASES[0], 2, [1, 4], None]
    yield "predicted", [X.shape("sc"), X.BASES[0], 2, [2, 3], [[0, 1, 1, .5], [0, 1, 1, 0]]]
    yield "predicted", [X.shape("hex"), X.BASES[1], 2, [1, 2], [[1, 3, 4], [1, 3, 4]]]
    ctx.random_part = True
    r = ctx.rng
    while True:
        for _ in range(25):
            k = r.choice([2, 2, 2, 3])
            t = random_tables(r, k)
            total = sum(sum(map(sum, x[3])) for x in t)
            if not total:
                continue
            number = r.choice([None, 1, 2, r.randint(1, total), r.randint(1, total), max(1, total - 1), total, total + 5, r.randint(1, min(total, 30))])
            res = None
            q = r.random()
            if q < .25:
                hs = [h for x in t for h in x[1]]
                res = ["shape", r.sample(hs, r.randint(1, len(hs)))]
            elif q < .5 and k == 2:
                cs = [list(c) for c in dict.fromkeys(tuple(c) for x in t for c in x[2])]
                res = ["conc", r.sample(cs, r.randint(1, len(cs)))]
            yield "split", [t, r.choice(["all", "shape", "conc", "size"]), number, r.choice([None, r.randint(0, 999)]), res]
        k = r.choice([1, 2, 2, 3])
        s = r.randint(1, 4)
        lim = None
        if r.random() < .5:
            lim = [[0, 1, 1] for _ in range(k)]
            lim[r.randrange(k)] = [0, r.randint(1, 4), 4]
            if r.random() < .5:
                lim = [l + [r.choice([0, .5, 1])] for l in lim]
        A = X.shape(r.choice(X.AXIAL if lim and len(lim[0]) == 4 else list(X.LATTICES)))
        yield "predicted", [A, r.choice(X.BASES[:3]), k, [s, s], lim]
