"""Which contracts and theories decide which property, and how verifier
counterexamples are replayed on the real code."""

PROPS = {
    "C01": dict(note="Every obligation of the two functions that build the list is discharged for all sizes n; lemmas lift them to completeness and distinctness. Assumes the engine's reading of Python and the solvers.",
                theories=["theory.py", "theory_c01.py"], contracts=["contracts_c01.py"],
                files=["phenum/HNFs.py"],
                replay={"phenum/HNFs.py:_get_HNF_diagonals": ("diagonals", ["n"]), "phenum/HNFs.py:find_all_HNFs": ("hnfs", ["n"])}),
    "C02": dict(note="Proved for all lattices, candidate lists and operation lists: the lattice comparison, the removal of duplicates (kept ones are candidates, pairwise unrelated, every candidate related to a kept one) and the operations reported for a kept shape (exactly those that fix it, with their shifts and basis permutations). Assumed: the parent crystal's space group search returns regular matrices; that it finds all symmetries, and get_HNFs as a whole, are checked by bounded runs only. Floats are read as reals.", theories=["theory.py", "theory_c02.py"], contracts=["contracts_c02.py"], files=["phenum/HNFs.py", "phenum/grouptheory.py"], replay={}),
    "C03": dict(note="Proved for all arguments: factorial, both binomial routines, multinomial and the coefficient of a multinomial. Assumes the engine's reading of Python and the solvers.",
                theories=["theory.py"], contracts=["contracts_c03.py"],
                files=["phenum/numerics.py", "phenum/polyaburnside.py"],
                replay={"phenum/numerics.py:factorial": ("fact", ["num"]), "phenum/numerics.py:binomial_coefficient": ("binom", ["n", "k"]),
                        "phenum/polyaburnside.py:Multinomial.nchoosek": ("nck", ["n", "k"]), "phenum/numerics.py:multinomial": ("multi", ["n"])}),
    "C04": dict(note="Proved for all arguments: index limits, index to arrangement, rank of an arrangement; lemmas give the one-to-one correspondence. Assumes the engine's reading of Python and the solvers.",
                theories=["theory.py", "theory_c04.py"], contracts=["contracts_c03.py#phenum/numerics.py:binomial_coefficient", "contracts_c04.py"],
                files=["phenum/tree.py", "phenum/numerics.py"],
                replay={"phenum/tree.py:_coefficients": ("limits", ["number_of_each_color", "number_of_slots"]), "phenum/tree.py:_hash": ("rank", ["listi"]),
                        "phenum/tree.py:_invhash": ("roundtrip", ["branch", "colors", "n"]), "phenum/numerics.py:binomial_coefficient": ("binom", ["n", "k"])}),
    "C05": dict(note="Proved for all arguments: both conversions and, as lemmas over their contracts, that they are inverse to each other. Assumes the engine's reading of Python and the solvers.",
                theories=["theory.py", "theory_c05.py"], contracts=["contracts_c05.py"],
                files=["phenum/phonons.py"],
                replay={"phenum/phonons.py:_ahash": ("arrangement", ["coloring", "dim"]), "phenum/phonons.py:_ainvhash": ("index", ["anum", "dim", "num_of_arrows"])}),
    "C06": dict(note="Part proof, part bounded. Proved for all inputs: counts that do not add up to the number of sites are rejected, and the coefficient of a single cycle factor is the multinomial coefficient. The group average as a whole is compared with a brute force orbit count on generated groups (bounded, not proved).", level="other", explanation="Contracts of polya (rejection of mismatching counts) and Product.coeff (single factor) with the multinomial routines they rest on are discharged for all inputs; the product over cycle types and the average over the group are run on fixed and random groups and compared with an independent orbit count (bounded).",
                theories=["theory.py", "theory_c06.py"], contracts=["contracts_c03.py", "contracts_c06.py"], files=["phenum/polyaburnside.py"], replay={}),
    "C08": dict(note="Part proof, part bounded. Proved for all inputs: the decoration built from counts and arrow counts (arrow_concs, with the sort taken as a permutation), and the label and arrow text written for a structure. The composition of the structures coming out of the tree search is a bounded check.", level="other", explanation="Contracts of arrow_concs, _col_sort and both variants of create_labeling are discharged for all inputs; the structures returned by enumerations are run on fixed and random systems and their composition and arrows counted (bounded).",
                theories=["theory.py", "theory_c04.py", "theory_c08.py"], contracts=["contracts_c08.py"], files=["phenum/phonons.py", "phenum/tree.py"], replay={}),
    "C10": dict(note="SmithNormalForm and its helpers are proved correct whenever they return a value (partial correctness: the pivot loop ends after 100 rounds with a RuntimeError that the proof does not exclude). Assumes the engine's reading of Python and numpy integers as exact.", budget=25, theories=["theory_c10.py"], contracts=["contracts_c10.py"], files=["phenum/grouptheory.py"],
                replay={}),
    "C09": dict(note="Every obligation of the odometer over the limits, of the unrestricted product and of the arrow counts is discharged for all sizes, species and limits; floats are read as reals.", budget=25, theories=["theory.py", "theory_c09.py"], contracts=["contracts_c09.py"], files=["phenum/symmetry.py"], replay={}),
    "C11": dict(note="Proved for all shapes without the optional basis reduction: label positions are in range, pairwise different, follow the group order, coordinates are lattice point plus basis vector. The Smith form facts are a precondition here and proved under C10; the variant with basis reduction is bounded.", budget=25, theories=["theory.py", "theory_c10.py", "theory_c11.py"], contracts=["contracts_c11.py"], files=["phenum/vector_utils.py"], replay={}),
    "C12": dict(note="Proved for all inputs and all iterations, for calls that return a value: the plane reduction, the step that reduces the third vector, the Minkowski test, the whole reduction (same lattice, right handed, conditions met), bring_into_cell and cartesian2direct. The error exits (iteration limits, singular matrices) end the program and are not excluded. Floats are read as reals.", budget=25, theories=["theory_c12.py"], contracts=["contracts_c12.py"], files=["phenum/vector_utils.py", "phenum/symmetry.py"], replay={}),
    "C14": dict(note="Part proof, part bounded. Proved for all inputs: the member list of the translation group is exactly the mixed radix counting with the identity first, the matching of permuted members and of basis vectors is a permutation whenever it is complete, transposed operations keep rotation and shift together. Closure of the whole list, its translations and its relation to the crystal are a bounded check on generated crystals.", level="other", explanation="Obligations of the helper functions that build the operations are discharged for all inputs; the list of operations as a whole (get_sym_group) is run on fixed and random crystals and supercells and compared with an independent computation (bounded, not proved).", theories=["theory.py", "theory_c14.py"], contracts=["contracts_c14.py"], files=["phenum/grouptheory.py"], replay={}),
    "C16": dict(note="Every obligation of both functions is discharged for all elements and counts; floats are read as reals, so the cube root and the mean are exact real numbers.", budget=20, theories=["theory.py", "theory_c16.py"], contracts=["contracts_c16.py"], files=["phenum/element_data.py"], replay={}),
    "C17": dict(note="Part proof, part bounded. Proved for all inputs and all random choices: the picking without arrows returns arrangements with pairwise different indices, none equivalent under the group to another, at most as many as wanted. Its helpers for reading colours are assumed contracts; the picking with arrows is a bounded check.", level="other", explanation="Contract of guess_and_check_brancher (no arrows) with index conversion and binomials is discharged for all inputs and every sequence of random numbers; picking with arrows and the subsets of full enumerations are run on fixed and random systems (bounded).",
                theories=["theory.py", "theory_c04.py", "theory_c08.py", "theory_c17.py"], contracts=["contracts_c03.py#phenum/numerics.py:binomial_coefficient", "contracts_c04.py", "contracts_c17.py"], files=["phenum/phonons.py", "phenum/tree.py"], replay={}),
    "C07": dict(note="Part proof, part bounded. Proved for all inputs: the conversions between indices and arrangements of colours and of arrows that the tree search runs on (one to one, C04 and C05). That the search keeps exactly one arrangement per orbit is a bounded check against brute force orbits.", level="other", explanation="Contracts of the index conversions the search relies on are discharged for all inputs; the search itself is run on fixed and random groups and compared with orbits found by brute force (bounded).",
                theories=["theory.py", "theory_c04.py", "theory_c05.py"], contracts=["contracts_c03.py#phenum/numerics.py:binomial_coefficient", "contracts_c04.py", "contracts_c05.py"], files=["phenum/tree.py", "phenum/phonons.py"], replay={}),
    "C15": dict(note="Part proof, part bounded. Proved for all inputs: the labels and arrow labels written for a structure, the atoms and label positions recovered from shape and normal form, and the lattice parameter written. The text layout of the file, its parsing and the grouping in the structure files are a bounded round trip check.", level="other", explanation="Contracts of create_labeling, map_enumStr_to_real_space and get_lattice_parameter are discharged for all inputs; writing and reading back whole files is run on fixed and random enumerations (bounded).", budget=25,
                theories=["theory.py", "theory_c08.py", "theory_c10.py", "theory_c11.py"], contracts=["contracts_c08.py#phenum/io_utils.py", "contracts_c11.py"], files=["phenum/io_utils.py", "phenum/phenumStr.py", "phenum/vector_utils.py"], replay={}),
}

NOT_APPLICABLE = {}
