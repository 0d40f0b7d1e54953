_binom = dict(
    params={"n": "int", "k": "int"}, returns="int",
    requires=["n >= 0"],
    ensures=["result == C(n, k)"],
    loops={0: dict(inv=["t == C(n, IT)"], begin=["absorb(n, IT)", "div_exact(C(n, IT) * (n - IT), IT + 1, C(n, IT + 1))"]),
           1: dict(inv=["t == C(n, IT)"], begin=["absorb(n, IT)", "div_exact(C(n, IT) * (n - IT), IT + 1, C(n, IT + 1))"],
                   exit=["C_sym(n, k)"])},
)

CONTRACTS = {
    "phenum/numerics.py:factorial": dict(
        params={"num": "int"}, returns="int",
        requires=["num >= 0"],
        ensures=["result == fact(num)"],
        loops={0: dict(inv=["fact == fact(IT)"])},
    ),
    "phenum/numerics.py:binomial_coefficient": _binom,
    "phenum/polyaburnside.py:Multinomial.nchoosek": _binom,
    "phenum/numerics.py:multinomial": dict(
        params={"n": "L(int)"}, returns="int",
        requires=["len(n) >= 1", "all(x >= 0 for x in n)"],
        ensures=["result * prodfact(n, len(n)) == fact(suml(n, len(n)))"],
        loops={0: dict(types={"binomials": "L(L(int))"},
                       inv=["len(binomials) == IT + 1",
                            "all(len(binomials[j]) == 2 for j in range(len(binomials)))",
                            "all(binomials[j][0] == suml(old(n), len(old(n))) - suml(old(n), j) for j in range(len(binomials)))",
                            "all(binomials[j][1] == old(n)[j] for j in range(len(binomials)))"]),
               1: dict(inv=["result * prodfact(old(n), IT) * fact(suml(old(n), len(old(n))) - suml(old(n), IT)) == fact(suml(old(n), len(old(n))))"],
                       begin=["suml_mono(old(n), IT, len(old(n)))", "multi_step(old(n), IT, len(old(n)), result)"])},
    ),
    "phenum/polyaburnside.py:Multinomial.nchoosekm": dict(
        params={"self": "D(_cls='Multinomial', power=int, coeff=int, arrowings=L(bool), exponent=int)", "sequence": "L(int)"}, returns="int",
        requires=["self.power >= 1", "all(x >= 0 for x in sequence)", "len(self.arrowings) == len(sequence)", "self.coeff >= 0"],
        ensures=["implies(any(x % self.power != 0 for x in sequence), result == 0)",
                 "implies(all(x % self.power == 0 for x in sequence), result * prodfactd(sequence, self.power, len(sequence)) =="
                 " fact(sumd(sequence, self.power, len(sequence))) * cpow(self.arrowings, sequence, self.power, self.coeff, len(sequence)))"],
        loops={0: dict(inv=["prod * prodfactd(sequence, self.power, IT) == fact(sumd(sequence, self.power, IT))"],
                       begin=["sumd_suml(normseq, sequence, self.power, IT + 1)", "sumd_mono(sequence, self.power, IT)",
                              "C_fact(sumd(sequence, self.power, IT + 1), sequence[IT] // self.power)",
                              "mul4(C(sumd(sequence, self.power, IT + 1), sequence[IT] // self.power), fact(sequence[IT] // self.power),"
                              " fact(sumd(sequence, self.power, IT)), fact(sumd(sequence, self.power, IT + 1)), prod, prodfactd(sequence, self.power, IT), prodfactd(sequence, self.power, IT + 1))"]),
               1: dict(inv=["pcoeff == cpow(self.arrowings, sequence, self.power, self.coeff, IT)"])},
    ),
}
