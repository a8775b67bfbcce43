"""Source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "lie_nn/_src/"
I = S + "irreps/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


prop("P01", "Irrep matrices satisfy the Lie algebra of their group",
  "For every label of every tabulated group, the continuous generators are square matrices of the advertised dimension whose commutators close with exactly the structure constants the group advertises, one fixed real antisymmetric tensor satisfying the Jacobi identity, the same for all labels of the group. Discrete generators commute with the continuous ones as the group requires and have finite order. The group elements obtained by exponentiation obey the group law.",
  ["inputs"], "every label of SO3, O3, SU2, SU2Real, SL2C, SO13, SU2_, SU3, SU4, Z2 up to a dimension bound; random elements of the Lie algebra and of the group",
  "The tests check a handful of labels per group; ladder formulas and basis changes contain branches (sign, parity of 2j, zero weights) that only some labels reach.",
  [I + x for x in ("su2.py", "so3_real.py", "o3_real.py", "su2_real.py", "sl2c.py", "so13.py", "sun.py", "z2.py")],
  [("generators of the irreps", I + "*.py continuous_generators, discrete_generators"), ("structure constants", I + "*.py algebra")],
  "property-based testing: exhaustive sweep of labels and random Lie algebra elements against commutator identities",
  "All labels up to dimension 15-27 (quick) / 28-90 (thorough) exhaustively, plus random elements; trusts numpy linear algebra.")

prop("P02", "A label denotes the irrep it promises",
  "The matrices attached to a label have the dimension and the character that representation theory assigns to this label, on every group element. They are unitary where the group is compact and real where the group is advertised as real. Different labels give inequivalent representations.",
  ["inputs"], "every label up to a dimension bound; random group elements",
  "The tests check commutators only: any representation of the right algebra passes, whatever its label says.",
  [I + x for x in ("su2.py", "so3_real.py", "o3_real.py", "su2_real.py", "sl2c.py", "so13.py", "sun.py", "z2.py")],
  [("generators of the irreps", I + "*.py continuous_generators"), ("dimension formulas", I + "*.py dim")],
  "property-based testing against closed character formulas (SU(2) characters, Schur polynomials by Jacobi-Trudi)",
  "Characters at random group elements for all labels up to the bound; complete reducibility of the groups makes the character decisive.")

prop("P03", "Selection rules list exactly the irreps of a product",
  "Multiplying two labels lists, once each, exactly the labels that occur in the tensor product of the two irreps. The rule is symmetric and has the trivial label as unit.",
  ["inputs"], "every pair of labels up to a product-dimension bound; random larger pairs",
  "The tests only use the rule through couplings of small irreps; a missing or extra irrep for larger or asymmetric labels stays unseen.",
  [I + x for x in ("su2.py", "so3_real.py", "o3_real.py", "su2_real.py", "sl2c.py", "so13.py", "sun.py", "z2.py")],
  [("selection rules", I + "*.py __mul__"), ("Littlewood-Richardson by patterns", I + "sun.py mul_rep")],
  "property-based testing against a reference model (Klimyk's formula on weight multisets, triangle rules)",
  "Exhaustive over small pairs, random over larger ones.")

prop("P04", "Clebsch-Gordan coefficients intertwine, one per path",
  "For every triple of labels of a group, the coupling coefficients have one solution per multiplicity of the third irrep in the product of the first two, none if it does not occur. Each solution commutes with the continuous and discrete generators, and the solutions are linearly independent.",
  ["inputs"], "all triples of labels up to a size bound, allowed and forbidden; random larger triples",
  "Existing tests sample a few irreps of each group up to a small index; multiplicities above one and degenerate weights are not reached.",
  [I + x for x in ("su2.py", "so3_real.py", "o3_real.py", "su2_real.py", "sl2c.py", "so13.py", "sun.py", "z2.py")] + [S + "clebsch_gordan.py"],
  [("closed formulas of SU(2)", I + "su2.py clebsch_gordan"), ("basis changes to the real forms", I + "so3_real.py, su2_real.py, sl2c.py, so13.py"), ("highest weight method", I + "sun.py clebsch_gordan_matrix")],
  "property-based testing: equivariance residual and rank against reference multiplicities, exhaustive sweep plus random triples",
  "Residuals at 1e-6 relative or better; multiplicities from an independent formula.")

prop("P05", "All couplings of a pair together are a complete change of basis",
  "For each pair of labels the coefficients of all output irreps, stacked, form an invertible square matrix that block-diagonalises the product representation. For the unitary groups the columns are orthogonal with the documented normalisation.",
  ["inputs"], "all pairs of labels up to a size bound; random larger pairs",
  "Each existing test looks at one triple at a time; that the triples fit together is not tested.",
  [I + x for x in ("su2.py", "so3_real.py", "o3_real.py", "su2_real.py", "sl2c.py", "so13.py", "sun.py", "z2.py")],
  [("normalisation", I + "*.py clebsch_gordan"), ("selection rules", I + "*.py __mul__")],
  "property-based testing: completeness, orthogonality and block-diagonalisation checked on generated pairs",
  "Exhaustive over small pairs and random over larger ones; Gram matrices at 1e-6.")

prop("P06", "Irreps are ordered, hashable values that enumerate completely",
  "The enumeration of a group starts with the trivial irrep, is strictly increasing and reaches every label exactly once. The order is total (also on irreps of product groups), equality and hash agree with the label, irreps of different families are never equal, and labels are immutable; copies (also pickled ones) equal the original, and several enumerations of a group at the same time do not influence each other. The trivial irrep made from any irrep is one-dimensional, acts trivially, and belongs to the same group.",
  ["inputs"], "prefixes of all enumerations; random lists of labels, sorted and compared",
  "Tests enumerate a few elements; totality and agreement of order, equality and hash need arbitrary pairs.",
  [I + x for x in ("su2.py", "so3_real.py", "o3_real.py", "su2_real.py", "sl2c.py", "so13.py", "sun.py", "z2.py")] + [S + "irrep.py"],
  [("enumeration", I + "*.py iterator"), ("order", I + "*.py __lt__"), ("trivial", S + "irrep.py create_trivial")],
  "property-based testing: axioms of a total order and a counting oracle over generated label lists",
  "A few hundred irreps per group and random lists.")

prop("P07", "Text forms of irreps, multiples and sums denote what they say",
  "Reading the text form of a label, of a multiple or of a sum of multiples yields exactly that label, multiplicity and list of terms, in order, however the text is spaced. Printing and re-reading is the identity where both exist.",
  ["inputs"], "all small labels, random larger labels; random sums with random multiplicities and spacing",
  "Tests read a few fixed strings.",
  [S + "reduced_rep.py"] + [I + x for x in ("su2.py", "so3_real.py", "o3_real.py", "sl2c.py", "so13.py", "sun.py", "z2.py")],
  [("parsing", S + "reduced_rep.py from_string"), ("parsing of labels", I + "*.py from_string")],
  "property-based testing: round trip from generated descriptors through text",
  "Exhaustive for small labels, random otherwise.")

prop("P08", "A tensor product has the Kronecker-product matrices, for every kind of operand",
  "Whatever kinds of representation objects are multiplied - tabulated irreps, multiples, sums in a basis, plain matrices, of a continuous, discrete or finite group - the result has the algebra of the operands, acts on Kronecker products of vectors factor by factor, and keeps the order of the factors. Its reduced form lists the irreps with their multiplicities.",
  ["inputs", "configurations"], "all combinations of kinds; random contents, multiplicities and bases",
  "Tests multiply a few irreps; most of the overloads, and multiplicities or bases in both operands at once, are not exercised with distinguishable operands.",
  [S + "tensor_product.py", S + "reduced_rep.py"],
  [("overloads by kind", S + "tensor_product.py tensor_product"), ("basis bookkeeping", S + "tensor_product.py (ReducedRep, ReducedRep)")],
  "property-based testing: differential test against dense Kronecker products, all overload combinations",
  "Dimensions of operands up to about 8 (quick) / 14 (thorough).")

prop("P09", "A tensor power is the repeated tensor product",
  "The n-th power of a representation acts on n factors as the repeated product does, for every n including zero, where it is the trivial representation, and for every kind of representation object.",
  ["inputs"], "random representations of all kinds and all n up to a size bound",
  "Square-and-multiply takes a different path for every binary pattern of n; tests use one or two values.",
  [S + "tensor_product.py"], [("square and multiply", S + "tensor_product.py tensor_power")],
  "property-based testing: differential test against dense iterated Kronecker products",
  "Dimension of the power up to about 100 (quick) / 260 (thorough).")

prop("P10", "Multiples, sums and direct sums are block diagonal",
  "A multiple, a list of multiples of irreps in a basis, and a direct sum act by the block-diagonal matrices of their parts, in order, conjugated by the given basis; dimensions, algebra and discrete generators agree, also for multiplicity zero and for groups without continuous or discrete part. Direct sums are associative and distribute over tensor products.",
  ["inputs", "configurations"], "random contents, multiplicities including zero, bases, and all accepted ways to specify them",
  "Tests build a few sums with small multiplicities and without discrete generators.",
  [S + "reduced_rep.py", S + "direct_sum.py", S + "util.py"],
  [("multiples", S + "reduced_rep.py MulIrrep"), ("sums", S + "reduced_rep.py ReducedRep"), ("direct sum", S + "direct_sum.py")],
  "property-based testing: differential test against dense block matrices",
  "Dimensions up to 14; all groups, finite groups included.")

prop("P11", "A change of basis conjugates every matrix",
  "Changing basis by an invertible matrix conjugates all continuous and discrete generators by it and leaves the algebra; successive changes compose in order, the inverse undoes, and products and sums of changed representations are changed accordingly. The operand and the matrix are left as they were.",
  ["inputs"], "random representations of all kinds, random real and complex matrices",
  "Tests use one matrix on one kind; order of composition is only visible for non-commuting matrices and an already present basis.",
  [S + "change_basis.py", S + "reduced_rep.py"], [("composition of bases", S + "change_basis.py change_basis"), ("application", S + "reduced_rep.py continuous_generators")],
  "property-based testing: differential and metamorphic tests against dense conjugation",
  "Condition number up to about 6, real and complex.")

prop("P12", "Recombined generators and conjugation behave functorially",
  "Changing the basis of the Lie algebra recombines the generators linearly and transforms the structure constants so that they still describe the commutators; changes compose and invert. Conjugation conjugates every matrix, is an involution, commutes with sums and products, and maps every irrep to the irrep with the dual label.",
  ["inputs"], "random representations and random invertible recombinations; every label for duality",
  "Tests recombine by one matrix; transposing or inverting it is invisible for orthogonal matrices.",
  [S + "change_algebra.py", S + "conjugate.py"], [("recombination", S + "change_algebra.py"), ("conjugation", S + "conjugate.py")],
  "property-based testing: differential test against explicit sums, metamorphic composition laws",
  "Condition number up to about 6.")

prop("P13", "Products of groups act factor by factor",
  "The representation of a direct product of groups has the direct sum of the algebras, lets each factor act on its own tensor factor, and represents a tuple of elements by the Kronecker product. Irreps of product groups couple by the products of the couplings of the factors, with multiplied multiplicities, and are values like other irreps.",
  ["inputs", "configurations"], "random pairs and triples of groups, representations of all kinds, all couplings of small irreps",
  "Tests cover one or two pairs of groups.",
  [S + "group_product.py"], [("matrices", S + "group_product.py group_product"), ("couplings", S + "group_product.py TabulatedIrrepProduct")],
  "property-based testing: differential test against dense Kronecker constructions, equivariance residuals",
  "Two or three factors of dimension up to 7.")

prop("P14", "Inferred changes of basis are exactly the intertwiners",
  "The matrices found between two representations intertwine all generators, their number is the dimension of the space of intertwiners, and they are orthogonal to each other with the documented norm. A change of basis applied to an irrep is recovered up to phase.",
  ["inputs"], "random pairs of representations sharing any number of irreps, in random bases; random matrix families",
  "Tests use equal or disjoint irreps; partial overlaps with multiplicities, ill-scaled or rotated bases are not reached.",
  [S + "infer_change_of_basis.py", S + "util.py"], [("linear system", S + "util.py infer_change_of_basis"), ("null space", S + "util.py nullspace"), ("normalisation", S + "infer_change_of_basis.py")],
  "property-based testing against the dimension from character theory and the intertwining identity",
  "Condition number up to about 6; spectra away from the numerical threshold.")

prop("P15", "Couplings of arbitrary representations are complete and equivariant",
  "For any three representations of a group, reducible or not and in any basis, the coupling coefficients are equivariant, independent, and as many as representation theory predicts. For tabulated irreps the generic method and the closed formulas span the same space.",
  ["inputs"], "random triples of representations of all kinds and groups",
  "Tests couple tabulated irreps only.",
  [S + "clebsch_gordan.py", S + "infer_change_of_basis.py"], [("generic method", S + "clebsch_gordan.py"), ("closed formulas", I + "*.py clebsch_gordan")],
  "property-based testing: equivariance, rank and counting oracle; differential test of two implementations",
  "Products of the three dimensions up to about 150 (quick).")

prop("P16", "Reduction finds the irreducible content and the basis",
  "Reducing any completely reducible representation returns irreducible, pairwise inequivalent components with the right multiplicities and a basis in which they reproduce the given matrices. Splitting into irreducibles accounts for every dimension.",
  ["inputs"], "random sums with multiplicities of irreps of all groups and of finite groups, in random bases; tensor products",
  "The algorithm is randomised and tests use multiplicity-free examples.",
  [S + "reduce.py", S + "util.py"], [("splitting", S + "util.py decompose_rep_into_irreps"), ("multiplicities", S + "reduce.py reduce")],
  "property-based testing: reconstruction round trip and content oracle from the generator",
  "Dimension up to 8 (quick) / 12 (thorough); library randomness seeded per case.")

prop("P17", "Predicates about representations tell the truth",
  "The predicates irreducible, unitary, equivalent-to-a-real-form and trivial answer according to the mathematics for every representation in every basis. A representation with a real form is turned into an equivalent one with real matrices; one without is refused.",
  ["inputs"], "random representations, reducible and not, of known reality type, in random real and complex bases",
  "Tests ask about a few irreps in their tabulated basis.",
  [S + "is_irreducible.py", S + "properties.py", S + "real.py", S + "rep.py", S + "util.py"], [("Schur test", S + "util.py is_irreducible"), ("real structure", S + "real.py"), ("unitarity", S + "properties.py")],
  "property-based testing against Frobenius-Schur types and constructed reducibility",
  "Types of all tabulated irreps and of Z3, Z4, S3, Q8, D4.")

prop("P18", "Reduced products of several representations are complete",
  "Reducing a tensor product of any number of representations without symmetry yields an invertible basis indexed by the output irreps, sorted with combined multiplicities, that intertwines all generators; the pieces per irrep and the combined array agree. For two irreps each output spans the same subspace as their coupling coefficients.",
  ["inputs"], "random lists of one to eleven representations of all kinds",
  "Tests cover few lists and one group mostly.",
  [S + "reduced_tensor_product.py"], [("pairwise reduction", S + "reduced_tensor_product.py reduce_basis_product"), ("sorting and merging", S + "reduced_tensor_product.py IrrepsArray")],
  "property-based testing: equivariance, rank and content oracle over generated lists",
  "Product of dimensions up to about 130 (quick) / 400 (thorough).")

prop("P19", "Index symmetries select exactly the symmetric tensors",
  "A reduced tensor product with index symmetries spans exactly the tensors that have all the symmetries generated by the formula, signs included, and is equivariant under the group. Contradictory or malformed requests - different representations on exchanged indices, unknown or missing indices, non-permutations, a sign on the first term - are refused.",
  ["inputs", "programs"], "random formulas (groups of signed permutations) over random representations; random malformed requests",
  "Tests use a few formulas on one group; the subspace is determined by the generated group, which depends on every term.",
  [S + "reduced_tensor_product.py", S + "discrete_groups/perm.py"], [("formula to group", S + "reduced_tensor_product.py germinate_perm_repr"), ("symmetric subspace", S + "reduced_tensor_product.py reduce_permutation_base"), ("intersection", S + "reduced_tensor_product.py constrain_rotation_basis_by_permutation_basis")],
  "property-based testing: generated formula programs against the projector of the generated signed permutation group",
  "Up to five indices, product of dimensions up to a few hundred; formulas without any symmetric tensor are excluded (known limitation).")

prop("P20", "Group elements: exponentials compose, and both backends agree",
  "The group element for given parameters is the ordered product of powers of the discrete generators and the exponential of the continuous ones; it acts on the generators by the adjoint action, is multiplicative over tensor products, block diagonal over sums, and conjugated by changes of basis. The JAX implementation gives the same element for all parameters, negative exponents included.",
  ["inputs"], "random representations and random parameters",
  "Tests evaluate elements for a few irreps; order and signs of discrete factors matter only with several non-commuting discrete generators.",
  [S + "rep.py", S + "jax_utils.py"], [("exponential map", S + "rep.py exp_map"), ("JAX backend", S + "jax_utils.py")],
  "property-based testing: differential test against an independent evaluation, and between the two backends",
  "Parameters up to 1.5 in size, exponents -3..4; JAX in double precision on CPU.")

prop("P21", "Symmetric groups and regular representations are what they claim",
  "The natural, trivial and standard representations of the symmetric group satisfy its relations on every word of generators, with the right characters and irreducibility. The regular representation of any finite group is a homomorphism with the regular character.",
  ["inputs", "histories"], "random words in the generators for n up to 12; random and all named small groups",
  "Tests look at n = 3 or so.",
  [S + "finite.py", S + "util.py"], [("permutation matrices", S + "finite.py"), ("regular representation", S + "util.py regular_representation")],
  "property-based testing: generated words of generators against a permutation model",
  "n up to 12; groups of order up to 24.")

prop("P22", "Linear algebra on bases is exact about spans",
  "Orthogonalisation returns an orthonormal basis of the same span, completion returns a full basis extending it, the null space is exactly the kernel, the stepwise variant agrees with the direct one, and the intersection of two spans is exactly their common span - for real and complex input, dependent rows, and empty input. Arguments are not modified.",
  ["inputs"], "random matrices of prescribed rank, shape, scale, dependence structure",
  "Tests use random full-rank matrices of one size.",
  [S + "util.py"], [("Gram-Schmidt", S + "util.py gram_schmidt"), ("completion", S + "util.py extend_basis"), ("kernel", S + "util.py nullspace, sequential_nullspace"), ("intersection", S + "util.py basis_intersection")],
  "property-based testing against SVD projectors",
  "Prescribed rank gaps keep the numerical threshold away.")

prop("P23", "Rational arithmetic finds the best fraction and the exact root",
  "Bounding the denominator of a fraction yields a closest fraction with such a denominator, ratios approximate their number to the promised accuracy, and rounding to square roots of rationals returns every such number with small denominators exactly, with its sign, for complex arrays entrywise, while keeping other numbers close.",
  ["inputs"], "random rationals, square roots, floats with noise; exhaustive small fractions",
  "Tests check a few numbers; the continued-fraction steps have boundary cases that depend on the denominator.",
  [S + "util.py"], [("limit_denominator", S + "util.py limit_denominator"), ("rounding", S + "util.py round_to_sqrt_rational")],
  "property-based testing against exact arithmetic (fractions, brute force over denominators)",
  "|x| below 4e7.")

prop("P24", "Structure constants from matrices; consistency checks do their job",
  "Given matrices closed under commutators the inferred structure constants reproduce all commutators, and matrices that are not closed are recognised. The consistency checks for representations and couplings accept what is consistent and reject every inconsistent algebra, generator or coefficient.",
  ["inputs"], "random bases of tabulated algebras, random matrix families, random perturbations at every position",
  "Tests feed consistent data only, so a check that accepts everything passes.",
  [S + "util.py", S + "rep.py"], [("inference", S + "util.py infer_algebra_from_generators"), ("checks", S + "util.py check_algebra_vs_generators; " + S + "rep.py check_representation_triplet")],
  "property-based testing with injected faults: generated inconsistencies must be rejected",
  "Perturbations well above the tolerance.")

prop("P25", "Array helpers compute entrywise what they are named after",
  "Block-diagonal and direct sums, Kronecker products of several factors, commutators, mapping over axes, clustering with tolerance, and permutation signs equal their entrywise definitions for all shapes, types (real, complex) and axis choices.",
  ["inputs"], "random arrays, axes, batch shapes, permutations",
  "Tests use square real matrices.",
  [S + "util.py"], [("sums and products", S + "util.py direct_sum, kron, block_diagonal, commutator"), ("mapping", S + "util.py vmap"), ("clusters", S + "util.py unique_with_tol"), ("sign", S + "util.py permutation_sign")],
  "property-based testing: differential tests against loop implementations",
  "Small shapes.")

prop("P26", "Permutations behind index symmetries form groups",
  "Composition, inversion, sign, cycles and numbering of permutations satisfy the group laws and agree with each other; the subgroup generated by any set is exactly the smallest closed one, and the numbering is a bijection. Tuples that are no permutations and sets that are no groups are recognised.",
  ["inputs"], "random permutations and random generating sets",
  "There are no direct tests.",
  [S + "discrete_groups/perm.py"], [("permutations", S + "discrete_groups/perm.py")],
  "property-based testing: group axioms and differential test against a brute-force model",
  "At most 7 elements, subgroups of order at most 120.")

prop("P27", "Root systems of the classical algebras and dimensions from them",
  "For each classical type and rank the simple and positive roots form the root system of that type, closed under reflections, with the right Cartan matrix and diagram, fundamental weights dual to the coroots, half-sum, highest root and Coxeter number. Symplectic and orthogonal labels have the exact dimension of Weyl's formula, and the orthogonal generators are a basis of the matrices preserving the form.",
  ["inputs", "configurations"], "types A, B, C, D up to rank 8 (quick) / 15 (thorough); random labels; rotated root systems",
  "There are no tests of these modules.",
  [S + "lie_algebra_utils.py", I + "son.py", I + "spn.py"], [("roots and weights", S + "lie_algebra_utils.py"), ("dimension", I + "son.py, spn.py dim"), ("so(n) matrices", I + "son.py SON_adjoint")],
  "property-based testing: root system axioms and exact rational Weyl formula as oracle",
  "Exact comparison below 10^12.")

prop("P28", "The pattern calculus of SU(N) is right for every N and every label",
  "For every highest weight of SU(N) the interlacing patterns are enumerated once each, numbered consistently, with the weight multiset of the irrep; raising and lowering matrices satisfy the relations of the algebra with a single highest weight state. The resulting generators have the right character and quadratic Casimir, and products and their multiplicities are those of the group.",
  ["inputs"], "random and all small highest weights for N up to 5 (quick) / 6 (thorough)",
  "Tests cover two or three labels of SU(2), SU(3) and SU(4).",
  [I + "sun.py"], [("patterns", I + "sun.py S_to_Ms, index_to_M, M_to_index"), ("ladders", I + "sun.py upper_ladder_matrices"), ("products", I + "sun.py mul_rep")],
  "property-based testing: invariants (Serre relations, Casimir, Weyl symmetry) and reference enumeration",
  "Dimension up to 90 (quick) / 400 (thorough) for patterns.")

prop("P29", "Any history of operations agrees with the matrices",
  "After any sequence of constructions, sums, products, powers, changes of basis or algebra, conjugations, reductions, group products and evaluations, every representation in play still has the matrices that a plain matrix model predicts. No operation changes its operands, the results do not depend on intermediate observations, and overwriting arrays returned for a label does not affect later results.",
  ["histories"], "random sequences of up to 10 (quick) / 24 (thorough) operations on a growing pool",
  "Tests perform one operation on fresh objects; aliasing, caching and interaction of representation kinds need sequences.",
  [S + "rep.py", S + "reduced_rep.py", S + "tensor_product.py", S + "change_basis.py", S + "reduce.py", S + "direct_sum.py", S + "group_product.py", S + "change_algebra.py"],
  [("representation kinds and overloads", S + "*.py")],
  "model-based stateful property testing: random operation histories against a dense reference model",
  "Dimensions up to 12 (quick) / 20 (thorough).")

prop("P30", "What does not belong together is refused",
  "Combining representations of different Lie algebras or with different numbers of discrete generators is refused by every operation that combines two representations, and representations of the same group are accepted. Invalid labels, malformed text, negative multiplicities and matrices of the wrong size are refused rather than interpreted.",
  ["inputs"], "random pairs of groups and presentations (rescaled, permuted, extended algebras); random labels and texts",
  "Tests only use valid input, so a missing refusal is invisible.",
  [S + "tensor_product.py", S + "direct_sum.py", S + "infer_change_of_basis.py", S + "reduced_rep.py"] + [I + x for x in ("su2.py", "su2_real.py", "sl2c.py", "so13.py", "sun.py", "o3_real.py", "so3_real.py", "z2.py")],
  [("compatibility checks", S + "tensor_product.py, direct_sum.py, infer_change_of_basis.py, reduced_rep.py"), ("label validation", I + "*.py __post_init__"), ("parsing", I + "*.py from_string")],
  "property-based testing: generated valid and invalid combinations, both must be answered correctly",
  "Non-integer labels of SO3 and O3 are not judged.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["pid"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=["public Python API"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="./check --selftest", checks=[
        dict(property=p["pid"], quick_cmd=f"./check {p['pid']} quick", thorough_cmd=f"./check {p['pid']} thorough",
             evidence_file=f"evidence/{p['pid']}.json", technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
        not_applicable=[], notes="No hooks are needed: every property is observed through the API. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
