import importlib.util, os
_sp = importlib.util.spec_from_file_location("contracts_c03", os.path.dirname(os.path.abspath(__file__)) + "/contracts_c03.py")
_m = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(_m)
_c3 = _m.CONTRACTS
_nckm = _c3["phenum/polyaburnside.py:Multinomial.nchoosekm"]
_mn = "D(_cls='Multinomial', power=int, coeff=int, arrowings=L(bool), exponent=int)"
_one = ["self.multinoms[0].power >= 1", "all(x >= 0 for x in self.targets)", "len(self.multinoms[0].arrowings) == len(self.targets)", "self.multinoms[0].coeff >= 0", "any(x >= 1 for x in self.targets)"]

CONTRACTS = {
    # counts that do not add up to the number of sites are rejected, whatever else is asked
    "phenum/polyaburnside.py:polya#mismatch": dict(
        params={"concentrations": "L(int)", "group": "L(L(L(int)))", "arrowings": "none", "debug": "bool"}, never_returns=True,
        requires=["len(group) >= 1", "len(group[0]) == 2", "suml(concentrations, len(concentrations)) != len(group[0][0])"],
        ensures=["False"], raises={"ValueError": "True"}),
    # one kind of cycles only: the coefficient of the wanted term, times how often this product occurs
    "phenum/polyaburnside.py:Product.coeff#single": dict(
        params={"self": "D(_cls='Product', coefficient=int, targets=L(int), multinoms=CL(1, %s))" % _mn}, returns="int",
        requires=_one,
        ensures=["result == mterm(self.targets, self.multinoms[0].power, self.multinoms[0].arrowings, self.multinoms[0].coeff) * self.coefficient"],
        end=["if any(x % self.multinoms[0].power != 0 for x in self.targets): mterm_zero(self.targets, self.multinoms[0].power, self.multinoms[0].arrowings, self.multinoms[0].coeff)"]),
}
CONTRACTS["phenum/polyaburnside.py:Multinomial.nchoosekm"] = dict(_nckm, ensures=_nckm["ensures"] + ["result == mterm(sequence, self.power, self.arrowings, self.coeff)"],
    end=["if any(x % self.power != 0 for x in sequence): mterm_zero(sequence, self.power, self.arrowings, self.coeff)",
         "if all(x % self.power == 0 for x in sequence): mterm_value(sequence, self.power, self.arrowings, self.coeff, result)"])
CONTRACTS["phenum/polyaburnside.py:Multinomial.nchoosek"] = _c3["phenum/polyaburnside.py:Multinomial.nchoosek"]
