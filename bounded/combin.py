"""Orbits of arrangements under permutation groups, by brute force."""
import itertools, math
import numpy as np
import crystal as X


def act(op, conf):
    """conf: tuple of (arrow, species); new[i] = direction applied to old[perm[i]]."""
    p, a = op[0], op[1]
    return tuple(((a[conf[j][0]] if conf[j][0] >= 0 else -1), conf[j][1]) for j in p)


def sequences(counts):
    """All arrangements of a multiset {item: count}."""
    items = [k for k in counts if counts[k]]

    def rec(left, n):
        if n == 0:
            yield ()
            return
        for k in items:
            if left[k]:
                left[k] -= 1
                for r in rec(left, n - 1):
                    yield (k,) + r
                left[k] += 1
    yield from rec(dict(counts), sum(counts.values()))


def arrangements(concs, arrows, dim):
    """All decorated arrangements: concs[i] sites of species i+1, arrows[i] of them carry an arrow."""
    counts = {}
    for i, (c, a) in enumerate(zip(concs, arrows)):
        if c - a:
            counts[(-1, i + 1)] = c - a
        if a:
            counts[(1, i + 1)] = a
    for s in sequences(counts):
        pos = [i for i, x in enumerate(s) if x[0] >= 0]
        for d in itertools.product(range(dim), repeat=len(pos)):
            t = list(s)
            for i, v in zip(pos, d):
                t[i] = (v, s[i][1])
            yield tuple(t)


def how_many(concs, arrows, dim):
    n, r = sum(concs), 1
    for c, a in zip(concs, arrows):
        for x in (c - a, a):
            r *= math.comb(n, x)
            n -= x
    return r * dim ** sum(arrows)


def orbits(concs, arrows, dim, ops):
    """{arrangement: number of its orbit}."""
    num, k = {}, 0
    for s in arrangements(concs, arrows, dim):
        if s not in num:
            for o in ops:
                num[act(o, s)] = k
            k += 1
    return num, k


def canon(s, ops):
    return min(act(o, s) for o in ops)


def burnside(types, ops, dim):
    """types: [(count, has arrows)]; number of orbits by counting fixed arrangements."""
    tot = 0
    for op in ops:
        p, a = op[0], op[1]
        seen, cyc = set(), []
        for i in range(len(p)):
            if i in seen:
                continue
            l, j = 0, i
            while j not in seen:
                seen.add(j)
                j = p[j]
                l += 1
            cyc.append(l)
        fixed = {}
        for l in set(cyc):
            q = list(range(dim))
            for _ in range(l):
                q = [a[x] for x in q]
            fixed[l] = sum(1 for i, x in enumerate(q) if i == x)
        poly = {tuple(c for c, _ in types): 1}
        for l in cyc:
            new = {}
            for k, v in poly.items():
                for t, (c, arr) in enumerate(types):
                    if k[t] >= l:
                        kk = k[:t] + (k[t] - l,) + k[t + 1:]
                        new[kk] = new.get(kk, 0) + v * (fixed[l] if arr else 1)
            poly = new
        tot += poly.get(tuple(0 for _ in types), 0)
    assert tot % len(ops) == 0
    return tot // len(ops)


def closure(gens, N, dim, limit=400):
    """Group generated by pairs (site perm, direction perm), or None if larger than limit."""
    ident = (tuple(range(N)), tuple(range(dim)))
    gens = [(tuple(p), tuple(a)) for p, a in gens]
    out, todo = {ident}, [ident]
    while todo:
        p, a = todo.pop()
        for q, b in gens:
            c = (tuple(p[i] for i in q), tuple(b[x] for x in a))
            if c not in out:
                out.add(c)
                todo.append(c)
                if len(out) > limit:
                    return None
    return [ident] + sorted(out - {ident})


def crystal_group(rng_name, A, basis, H, arrows):
    """Operations of a supercell, translations first (identity leading)."""
    from phenum import grouptheory
    import copy
    M, L, R = grouptheory.SmithNormalForm(copy.deepcopy(H))
    D = [int(M[i][i]) for i in range(3)]
    ops, trans = X.supercell_group(A, basis, H, L, D, arrows)
    if ops is None:
        return None, None
    n = len(trans)
    ident = tuple(range(n * len(basis)))
    six = tuple(range(6))
    t = [(ident, six)] + sorted((p, six) for p in trans if p != ident)
    rest = sorted(ops - set(t))
    return t + rest, n


def as_lists(ops):
    return [[list(p), list(a)] for p, a in ops]


def random_group(r, arrows, maxn=9):
    """A group of a random crystal supercell, or None."""
    name = r.choice(X.AXIAL if arrows else list(X.LATTICES))
    A = X.shape(name)
    b = r.choice([X.BASES[0], X.BASES[0], X.BASES[0]] + X.BASES)
    n = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 6, 7, 8, 9])
    while n * len(b) > maxn and n > 1:
        n -= 1
    if n * len(b) > maxn:
        b = X.BASES[0]
    H = r.choice(X.all_hnf(n))
    return crystal_group(name, A, b, H, arrows)


def random_counts(r, N, k):
    """k counts adding up to N."""
    cuts = sorted(r.randint(0, N) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [N])]
