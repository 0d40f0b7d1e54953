_v = "(abs(cell(lat_vecs)) / n_basis_atoms)"
_cell = ["cell(lat_vecs) != 0", "n_basis_atoms >= 1"]

CONTRACTS = {
    "phenum/element_data.py:get_lat_param_element": dict(
        params={"lat_vecs": "CL(3,CL(3,real))", "n_basis_atoms": "int", "element": "str"}, returns="real",
        requires=_cell + ["known(element)"], reveal=["cell", "known", "volume"],
        ensures=["result == lp(element, %s)" % _v]),
    "phenum/element_data.py:get_lattice_parameter": dict(
        params={"elements": "L(str)", "concentrations": "L(int)", "lat_vecs": "CL(3,CL(3,real))", "n_basis_atoms": "int", "default_title": "str", "remove_zeros": "bool"},
        returns="Tup(real,str)",
        requires=_cell + ["all(known(e) for e in elements)", "all(c >= 0 for c in concentrations)", "suml(concentrations, len(concentrations)) >= 1"],
        raises={"ValueError": "len(elements) != len(concentrations)"},
        ensures=["len(elements) == len(concentrations)",
                 "result[0] * suml(concentrations, len(concentrations)) == weighted(elements, concentrations, %s, len(elements))" % _v,
                 "result[1] == names(elements, concentrations, remove_zeros, len(elements)) + ' ' + default_title.strip() + '\\n'"],
        loops={0: dict(types={"lat_param": "real", "title": "str"},
                       inv=["lat_param == weighted(elements, concentrations, %s, IT)" % _v, "title == names(elements, concentrations, remove_zeros, IT)"])}),
    "phenum/element_data.py:get_lattice_parameter#none": dict(
        params={"elements": "none", "concentrations": "L(int)", "lat_vecs": "CL(3,CL(3,real))", "n_basis_atoms": "int", "default_title": "str"},
        returns="Tup(real,str)",
        ensures=["result[0] == 1", "result[1] == default_title"]),
}
