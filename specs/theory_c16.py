# Lattice parameters of elements and alloys.


@spec(unfold=False)
def volume(e: str) -> real:
    """Atomic volume in cubic angstrom."""
    if e == "H":
        return 37.2958
    if e == "He":
        return 32.1789
    if e == "Li":
        return 21.2543
    if e == "Be":
        return 8.49323
    if e == "B":
        return 7.24205
    if e == "C":
        return 5.68741
    if e == "N":
        return 46.6002
    if e == "O":
        return 22.2802
    if e == "F":
        return 17.0258
    if e == "Ne":
        return 21.7346
    if e == "Na":
        return 23.2596
    if e == "Mg":
        return 23.3928
    if e == "Al":
        return 16.6075
    if e == "Si":
        return 7.8511
    if e == "P":
        return 9.1459
    if e == "S":
        return 17.1672
    if e == "Cl":
        return 35.2074
    if e == "Ar":
        return 36.3829
    if e == "K":
        return 71.5278
    if e == "Ca":
        return 43.4353
    if e == "Sc":
        return 25.6478
    if e == "Ti":
        return 18.1565
    if e == "V":
        return 13.7718
    if e == "Cr":
        return 11.9439
    if e == "Mn":
        return 19.3207
    if e == "Fe":
        return 11.82
    if e == "Co":
        return 11.1838
    if e == "Ni":
        return 10.9036
    if e == "Cu":
        return 11.7615
    if e == "Zn":
        return 13.311
    if e == "Ga":
        return 18.4496
    if e == "Ge":
        return 19.3638
    if e == "As":
        return 20.427
    if e == "Se":
        return 58.6173
    if e == "Br":
        return 33.317
    if e == "Kr":
        return 46.7873
    if e == "Rb":
        return 87.3384
    if e == "Sr":
        return 56.1889
    if e == "Y":
        return 33.0792
    if e == "Zr":
        return 23.8327
    if e == "Nb":
        return 17.9685
    if e == "Mo":
        return 15.6279
    if e == "Tc":
        return 14.5458
    if e == "Ru":
        return 13.9206
    if e == "Rh":
        return 13.718
    if e == "Pd":
        return 14.716
    if e == "Ag":
        return 17.1045
    if e == "Cd":
        return 18.7161
    if e == "In":
        return 26.6861
    if e == "Sn":
        return 29.3238
    if e == "Sb":
        return 27.1733
    if e == "Te":
        return 62.3227
    if e == "I":
        return 24.3807
    if e == "Xe":
        return 59.582
    if e == "Cs":
        return 110.723
    if e == "Ba":
        return 63.253
    if e == "Hf":
        return 23.1748
    if e == "Ta":
        return 18.1323
    if e == "W":
        return 15.7772
    if e == "Re":
        return 14.8694
    if e == "Os":
        return 14.5485
    if e == "Ir":
        return 14.1558
    if e == "Pt":
        return 15.0591
    if e == "Au":
        return 16.9793
    if e == "Hg":
        return 27.6914
    if e == "Tl":
        return 29.2949
    if e == "Pb":
        return 30.3218
    if e == "Bi":
        return 31.2849
    return 1.0


@spec(unfold=False)
def known(e: str) -> bool:
    """The element has an atomic volume."""
    return e == "H" or e == "He" or e == "Li" or e == "Be" or e == "B" or e == "C" or e == "N" or e == "O" or e == "F" or e == "Ne" or e == "Na" or e == "Mg" or e == "Al" or e == "Si" or e == "P" or e == "S" or e == "Cl" or e == "Ar" or e == "K" or e == "Ca" or e == "Sc" or e == "Ti" or e == "V" or e == "Cr" or e == "Mn" or e == "Fe" or e == "Co" or e == "Ni" or e == "Cu" or e == "Zn" or e == "Ga" or e == "Ge" or e == "As" or e == "Se" or e == "Br" or e == "Kr" or e == "Rb" or e == "Sr" or e == "Y" or e == "Zr" or e == "Nb" or e == "Mo" or e == "Tc" or e == "Ru" or e == "Rh" or e == "Pd" or e == "Ag" or e == "Cd" or e == "In" or e == "Sn" or e == "Sb" or e == "Te" or e == "I" or e == "Xe" or e == "Cs" or e == "Ba" or e == "Hf" or e == "Ta" or e == "W" or e == "Re" or e == "Os" or e == "Ir" or e == "Pt" or e == "Au" or e == "Hg" or e == "Tl" or e == "Pb" or e == "Bi"


@spec(unfold=False)
def cell(m: "CL(3,CL(3,real))") -> real:
    """Volume of the parent cell, up to sign."""
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])


@spec
def lp(e: str, v: real) -> real:
    """Lattice parameter of an element in a parent cell with volume v per atom."""
    return (volume(e) / v) ** (1.0 / 3.0)


@spec(decreases="k")
def weighted(e: "A(str)", c: "A(int)", v: real, k: int) -> real:
    return 0.0 if k <= 0 else weighted(e, c, v, k - 1) + c[k - 1] * lp(e[k - 1], v)


@spec(decreases="k")
def names(e: "A(str)", c: "A(int)", drop: bool, k: int) -> str:
    if k <= 0:
        return ""
    if c[k - 1] > 0 or not drop:
        return names(e, c, drop, k - 1) + " " + e[k - 1] + " "
    return names(e, c, drop, k - 1)


@lemma(requires=["k >= 0", "forall(lambda i: implies(0 <= i and i < k, c[i] >= 0 and implies(c[i] > 0, lo <= lp(e[i], v) and lp(e[i], v) <= hi)))"],
       ensures=["lo * suml(c, k) <= weighted(e, c, v, k)", "weighted(e, c, v, k) <= hi * suml(c, k)"], decreases="k")
def mean_between(e: "A(str)", c: "A(int)", v: real, lo: real, hi: real, k: int):
    if k > 0:
        mean_between(e, c, v, lo, hi, k - 1)
        assert lo * c[k - 1] <= c[k - 1] * lp(e[k - 1], v)
        assert c[k - 1] * lp(e[k - 1], v) <= hi * c[k - 1]
