"""Single source of properties.jsonl and MANIFEST.json (run tools/gen_meta.py)."""
CO = 'triples/core/'
UT = 'triples/utils/'
MC = 'bounded exhaustive enumeration of executions of the real code against a reference model (explicit-state exploration)'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or [], hook_needed=None), _note=note))


TESTS = 'The tests only parse cyclic expressions and run nine doctests; '

prop('C01', 'Structural prover certificates are exact and nonnegative',
     'Whatever the structural prover returns for a polynomial with constraints is identically equal to that polynomial, '
     'and every term of it is nonnegative wherever the declared constraints hold. When the polynomial is negative at a '
     'feasible point the prover returns nothing. It answers with a certificate or nothing and never crashes or returns an undefined value.',
     ['inputs'], 'all polynomials and constraint sets (cyclic, symmetric and acyclic ternary, quaternary, quadratic, homogeneous or not)',
     TESTS + 'no test runs the structural prover, whose several hundred branches are each selected by exact sign conditions on coefficients.',
     [CO + 'structsos/structsos.py', CO + 'structsos/ternary/', CO + 'structsos/quarternary/', CO + 'structsos/sparse.py',
      CO + 'structsos/nvars.py', CO + 'structsos/constrained/', CO + 'structsos/solution.py', CO + 'shared.py'],
     [('StructuralSOS dispatch', CO + 'structsos/structsos.py'), ('branch side conditions on coefficients', CO + 'structsos/ternary/'),
      ('_extract_nonnegative_exprs', CO + 'structsos/solution.py'), ('homogenisation wrapper', CO + 'shared.py')],
     ['StructuralSOS(poly, ineq, eq)'],
     'every polynomial of the enumerated families (coefficient grids of each cyclic/symmetric shape and a frozen corpus of the package\'s own '
     'documented examples under 18 transformations) is run through the real prover; exact identity and nonnegativity of the answer are decided by an independent evaluator')

prop('C02', 'Linear-programming prover certificates are exact and nonnegative',
     'Whatever the linear-programming prover returns is identically equal to the polynomial and a nonnegative combination of '
     'terms that are nonnegative wherever the declared constraints hold, for every choice of multiplier degrees, bases and symmetry options. '
     'When the polynomial is negative at a feasible point it returns nothing.',
     ['inputs', 'configurations'], 'all polynomials, constraint sets, options and symmetry groups',
     TESTS + 'no test runs the linear-programming prover, and its rationalisation depends on which floating-point vertex the LP solver reports.',
     [CO + 'linsos/linsos.py', CO + 'linsos/basis.py', CO + 'linsos/solution.py', CO + 'linsos/correction.py', CO + 'linsos/updegree.py', CO + 'linsos/tangents.py'],
     [('LinearSOS', CO + 'linsos/linsos.py'), ('linear_correction', CO + 'linsos/correction.py'), ('create_linear_sol_from_y_basis', CO + 'linsos/solution.py')],
     ['LinearSOS(poly, ineq, eq, ...)'],
     'every polynomial of small coefficient alphabets x constraint sets x option settings is run through the real prover with the real LP solver; the answer is decided exactly')

prop('C03', 'Semidefinite-programming prover certificates are exact and nonnegative',
     'Whatever the semidefinite-programming prover returns is identically equal to the polynomial and a sum of squares weighted by products of '
     'constraints and nonnegative rationals, for every symmetry setting and any subset of constraints. When the polynomial is negative at a feasible point it returns nothing.',
     ['inputs', 'configurations'], 'all polynomials, constraint sets, roots and symmetry settings',
     TESTS + 'no test runs the semidefinite prover.',
     [CO + 'sdpsos/sdpsos.py', CO + 'sdpsos/manifold.py', CO + 'sdpsos/solution.py'],
     [('SOSPoly.construct/solve', CO + 'sdpsos/sdpsos.py'), ('root subspace facial reduction', CO + 'sdpsos/manifold.py'), ('create_sdp_sol', CO + 'sdpsos/solution.py')],
     ['SDPSOS(poly, ineq, eq, ...)'],
     'every polynomial of small coefficient alphabets x constraint sets x symmetry settings runs through the real prover and SDP backend; answers decided exactly')

prop('C04', 'Symmetric-substitution prover is exact and its substitution is an identity',
     'Rewriting a symmetric polynomial in the substituted coordinates is an identity of rational functions, and whatever the symmetric prover returns is '
     'identically equal to the polynomial with all terms nonnegative on the declared domain. It returns nothing when the polynomial is negative somewhere on that domain.',
     ['inputs', 'configurations'], 'all symmetric polynomials on the nonnegative orthant or on all reals, all substitution variants',
     TESTS + 'no test runs the symmetric prover.',
     [CO + 'symsos/symsos.py', CO + 'symsos/basic.py', CO + 'symsos/symmetric.py', CO + 'symsos/representation.py', CO + 'symsos/solution.py'],
     [('SymmetricSOS', CO + 'symsos/symsos.py'), ('sym_representation / sym_representation_inv', CO + 'symsos/representation.py'), ('SymmetricPositive / SymmetricReal transforms', CO + 'symsos/symmetric.py')],
     ['SymmetricSOS(poly, ineq)', 'sym_representation(poly, ...)'],
     'all symmetric polynomials with small coefficients per degree; identity and nonnegativity decided exactly at points of an independent evaluator')

prop('C05', 'Univariate, interval, bivariate and quadratic provers decide and certify',
     'A certificate returned for a univariate polynomial on the line, half line or an interval, for a bivariate polynomial, or for a quadratic form is identically equal to it, '
     'with nonnegative weights and multipliers nonnegative on the stated domain. No certificate is returned when the polynomial is negative somewhere on the domain, and a strictly positive '
     'univariate polynomial always gets one.',
     ['inputs'], 'all rational polynomials (any degree, repeated and irrational roots, odd degree, zero) and all intervals including infinite ends',
     TESTS + 'the few doctests here evaluate one polynomial each.',
     [CO + 'structsos/pivoting/univariate.py', CO + 'structsos/pivoting/bivariate.py', CO + 'structsos/utils.py', CO + 'structsos/nvars.py'],
     [('prove_univariate / prove_univariate_interval', CO + 'structsos/pivoting/univariate.py'), ('quadratic_weighting', CO + 'structsos/utils.py')],
     ['prove_univariate', 'prove_univariate_interval', 'quadratic_weighting'],
     'all products of factors from a small alphabet and all coefficient vectors of small size, all interval types; certificates decided exactly; completeness decided by Sturm-free exact root counting of the reference')

prop('C06', 'Congruence decomposition is exact and decides positive semidefiniteness',
     'For every symmetric rational matrix the decomposition either reproduces the matrix exactly as a sum of nonnegatively weighted squares, or reports failure, and it reports failure '
     'exactly when the matrix is not positive semidefinite. The result never depends on magnitudes, zero rows or ordering.',
     ['inputs'], 'all symmetric matrices over the rationals (any size, rank, scale)',
     TESTS + 'no test calls the decomposition.',
     ['triples/sdp/utils.py', 'triples/sdp/arithmetic.py'],
     [('congruence', 'triples/sdp/utils.py'), ('congruence_with_perturbation', 'triples/sdp/utils.py')], ['congruence(M)'],
     'all symmetric matrices of small order over small alphabets, decided against principal minors computed exactly')

prop('C07', 'Problem normalisation and restoration preserve the problem and its answer',
     'The way a problem is written (list or mapping of constraints, expressions or polynomials, extra or missing generators, constraint aliases, symbol names, a positive scale, homogeneous or not) changes neither '
     'its validity nor the exactness of the answer in terms of the symbols the caller gave. The caller\'s objects are never modified.',
     ['inputs', 'configurations'], 'all input notations of a problem, all provers',
     TESTS + 'no test calls a prover.',
     [CO + 'shared.py', CO + 'sum_of_squares.py', UT + 'expression/solution.py'],
     [('sanitize_input / sanitize_output / homogenize wrappers', CO + 'shared.py'), ('sum_of_squares', CO + 'sum_of_squares.py')],
     ['sum_of_squares(poly, ineq, eq, ...)', 'StructuralSOS/LinearSOS/SDPSOS/SymmetricSOS'],
     'every notation variant of a fixed problem set (products of variant dimensions) executed on the real provers; answers decided in the caller\'s symbols')

prop('C08', 'Proof driver order, fallback and batches are history independent',
     'The driver tries the requested provers in the requested order, returns the first certificate, and a batch answers every problem exactly once and in place, whatever the other problems were. '
     'No call changes the options or defaults a later call sees, also when provers fail or raise.',
     ['fault_sequences', 'histories', 'configurations'], 'all outcome sequences of the provers (certificate, nothing, exception), all method lists and batch histories',
     TESTS + 'no test runs the driver, let alone with failing provers.',
     [CO + 'sum_of_squares.py', 'triples/gui/sos_manager.py'],
     [('sum_of_squares / sum_of_squares_multiple', CO + 'sum_of_squares.py'), ('DEFAULT_CONFIGS', CO + 'sum_of_squares.py')],
     ['sum_of_squares', 'sum_of_squares_multiple'],
     'all sequences of prover outcomes up to length 4 and all driver call histories up to depth 3 with stub provers under a reference driver model')

prop('C09', 'Cyclic sums and products mean what they expand to',
     'A cyclic/symmetric sum or product under any permutation group evaluates, substitutes, differentiates, expands, factors, compares and prints consistently with its expansion as a plain sum or product over the group. '
     'No construction order, nesting, or simplification changes its value.',
     ['inputs', 'programs'], 'all expressions, groups and operation sequences',
     'The tests check a dozen printed forms; they fix neither groups other than the cyclic and symmetric ones nor operation sequences.',
     [UT + 'expression/cyclic.py'],
     [('CyclicSum / CyclicProduct / CyclicExpr', UT + 'expression/cyclic.py')], ['CyclicSum(...).doit()', 'operations on CyclicExpr'],
     'all bodies x groups x operation sequences up to a depth, each compared at exact points with a plain expansion under an own group closure')

prop('C10', 'Solution transformations preserve the proved value',
     'Expanding, collecting, simplifying, rewriting symmetry, substituting, formatting and evaluating a solution keep it equal to the problem and keep each term\'s nonnegativity. '
     'Equality claims of a solution are true.',
     ['inputs', 'programs'], 'all solutions and transformation sequences',
     TESTS + 'no test builds a solution object.',
     [UT + 'expression/solution.py', CO + 'linsos/solution.py', CO + 'sdpsos/solution.py'],
     [('SolutionBase / SolutionSimple methods', UT + 'expression/solution.py')], ['solution.* methods'],
     'all transformation sequences up to depth 2-3 over a set of solutions, values compared exactly')

prop('C11', 'The text parser reads every formula as mathematics writes it',
     'Polynomial text in the shorthand (cyclic sums and products, implicit powers and products, fractions, decimals) and the full expression grammar parse to the polynomial that the conventional reading denotes, over any generators and permutation group. '
     'Malformed text is rejected or reported, never silently misread.',
     ['inputs'], 'all strings of the grammar, all generators, groups and modes',
     'The tests parse one fixed set of a dozen strings.',
     [UT + 'text_process.py'],
     [('preprocess_text', UT + 'text_process.py'), ('cycle_expansion, degree_of_zero', UT + 'text_process.py')], ['preprocess_text'],
     'all token strings of the grammar up to a length against an independent recursive-descent reference parser')

prop('C12', 'Printed forms round-trip to the same polynomial or solution value',
     'The shorthand text and coefficient-triangle display of a polynomial denote that polynomial when read back, and the text and LaTeX of a solution denote its value.',
     ['inputs', 'configurations'], 'all polynomials with exact coefficients, all generator sets, groups and formatting options',
     'The tests do not read back what is printed.',
     [UT + 'text_process.py', UT + 'expression/solution.py', UT + 'expression/form.py'],
     [('poly_get_standard_form / poly_get_factor_form', UT + 'text_process.py'), ('coefficient_triangle', UT + 'text_process.py')], ['poly_get_standard_form', 'coefficient_triangle', 'latex'],
     'all polynomials over small monomial/coefficient alphabets printed in all formats and read back with an independent reader')

prop('C14', 'Monomial vectorisation is an exact, cache-independent isomorphism',
     'Turning a polynomial into a vector over monomial orbits and back is exact for every degree, variable count, homogeneity and permutation group, with each orbit listed once and indexed consistently. '
     'The result does not depend on which other calls were made before.',
     ['inputs', 'histories'], 'all degrees, variable counts, groups, homogeneity settings and call histories',
     TESTS + 'no test touches it.', [UT + 'monomials.py'],
     [('MonomialManager', UT + 'monomials.py'), ('arraylize / arraylize_sp / invarraylize', UT + 'monomials.py')], ['arraylize_sp', 'invarraylize', 'generate_monoms'],
     'all groups of up to 4 variables (all subgroups) x degrees up to a bound x all orders of first use, against own group closure')

prop('C15', 'Reported symmetries are real',
     'A permutation group reported for a set of polynomials and constraints leaves the whole problem unchanged under every one of its elements, and the predicates that test for cyclic, symmetric or homogeneous form agree with that definition.',
     ['inputs'], 'all polynomials and constraint sets',
     TESTS + 'no test covers symmetry detection.', [UT + 'polytools.py', UT + 'monomials.py', CO + 'shared.py'],
     [('identify_symmetry / identify_symmetry_from_lists', UT + 'monomials.py'), ('verify_hom_cyclic / verify_is_symmetric', UT + 'monomials.py')], ['identify_symmetry_from_lists', 'verify_symmetry'],
     'all polynomials/constraint lists over small monomial sets and coefficients, checked against direct application of every permutation')

prop('C16', 'Exact linear solvers return correct solutions and complete kernels',
     'The exact solvers for (structured) linear systems return a particular solution satisfying the equations and a full basis of the kernel, and report inconsistency exactly when there is none.',
     ['inputs'], 'all rational matrices (any shape, rank, sparsity) and right hand sides',
     TESTS + 'no test calls them.', ['triples/sdp/arithmetic.py'],
     [('solve_undetermined_linear / solve_nullspace / solve_csr_linear / solve_columnwise_linear', 'triples/sdp/arithmetic.py')], ['solve_*'],
     'all small matrices over small alphabets, against own exact Gaussian elimination')

prop('C17', 'Accelerated exact matrix arithmetic agrees with exact arithmetic',
     'Accelerated matrix products and related operations on exact matrices equal the exact result for every entry size and type, including values beyond machine integers and irrational or symbolic entries.',
     ['inputs'], 'all matrices over integers, rationals and symbolic entries; all shapes; all entry magnitudes',
     TESTS + 'no test calls them.', ['triples/sdp/arithmetic.py'],
     [('matmul / matmul_multiple / symmetric_bilinear', 'triples/sdp/arithmetic.py')], ['matmul(A, B)'],
     'all small matrices over an alphabet of boundary magnitudes, against Python big-integer arithmetic')

prop('C18', 'SDP transformations keep parent and child problems consistent',
     'Through any sequence of transformations of a semidefinite problem, a solution of the derived problem maps to a solution of the original one, and every solution of the original one that meets the imposed restrictions comes from a solution of the derived one. '
     'The transformation graph never loses, duplicates or confuses nodes.',
     ['programs', 'histories'], 'all sequences of transformations on all small problems',
     TESTS + 'no test builds a semidefinite problem.', ['triples/sdp/transform.py', 'triples/sdp/abstract.py', 'triples/sdp/dual.py', 'triples/sdp/primal.py'],
     [('SDPTransformation and subclasses', 'triples/sdp/transform.py'), ('TransformMixin', 'triples/sdp/transform.py')], ['SDPProblem.constrain_*', 'propagate_to_parent/child'],
     'all operation sequences up to a depth over a set of small problems, against an own affine model')

prop('C19', 'SDP results are exact feasible points whatever the numeric backend answers',
     'An exact solution reported for a semidefinite problem satisfies all of its equations exactly with exactly positive semidefinite matrices and an exact decomposition, for any sequence of numeric answers (good, inaccurate, failed, absurd) of the backend. '
     'Otherwise no solution is reported, and an accurate answer to a problem with interior solutions is turned into one.',
     ['fault_sequences', 'inputs'], 'all backend answer sequences and small problems',
     TESTS + 'no test solves a semidefinite problem; backends never fail in them.', ['triples/sdp/dual.py', 'triples/sdp/primal.py', 'triples/sdp/rationalize.py', 'triples/sdp/abstract.py'],
     [('SDPProblem.solve / rationalize', 'triples/sdp/dual.py'), ('rationalize_and_decompose', 'triples/sdp/rationalize.py')], ['SDPProblem.solve', 'problem.y, S, decompositions'],
     'a scripted backend replays every answer sequence over an alphabet up to a length; results decided by exact arithmetic')

prop('C20', 'Numeric SDP interface encodes and decodes problems faithfully',
     'The conversion of objectives, constraints and matrices to numeric arrays and back is faithful: the arrays represent the same affine functions, and solutions are mapped to the right variables and blocks.',
     ['inputs'], 'all affine expressions, constraint senses, block structures',
     TESTS + 'no test covers it.', ['triples/sdp/utils.py', 'triples/sdp/backend/', 'triples/sdp/abstract.py'],
     [('exprs_to_arrays / align_iters / decompose_matrix / S_from_y', 'triples/sdp/utils.py')], ['S_from_y', 'solve with constraints/objectives'],
     'all small affine expressions and block structures against own linear algebra')

prop('C21', 'Rational approximation helpers honour their contracts',
     'Rational approximations lie within the requested tolerance and on the requested side, isolating intervals contain the roots they claim, and searches that return a value return one satisfying the requested conditions.',
     ['inputs'], 'all numbers, polynomials, tolerances and directions',
     TESTS + 'a doctest rationalises a couple of numbers.', [UT + 'roots/rationalize.py', CO + 'structsos/utils.py', CO + 'structsos/ternary/utils.py'],
     [('rationalize / rationalize_bound / univariate_intervals / square_perturbation / cancel_denominator', UT + 'roots/rationalize.py')], ['rationalize*'],
     'all values of an alphabet (integers, fractions, near-integers, huge/tiny, irrationals) x all option settings')

prop('C22', 'Exact root objects and root finding are truthful',
     'A root reported for a polynomial is a zero of it to the stated precision, algebraic root objects evaluate, permute and approximate consistently with their exact coordinates, and the tangents derived from a root vanish there.',
     ['inputs', 'programs'], 'all polynomials and roots (rational, quadratic, algebraic)',
     TESTS + 'no test covers roots.', [UT + 'roots/roots.py', UT + 'roots/findroot.py', UT + 'roots/tangents.py', UT + 'roots/rootsinfo.py'],
     [('Root / RootRational / RootAlgebraic', UT + 'roots/roots.py'), ('findroot', UT + 'roots/findroot.py')], ['Root*', 'findroot', 'RootsInfo'],
     'all points over a small algebraic alphabet x all monomials/operations; all small polynomials through root finding, decided exactly')

prop('C23', 'The web service answers each request of each client completely and separately',
     'Every request gets exactly the responses its protocol promises, in order, addressed to the client that asked, with contents belonging to that request, under any interleaving of requests and any failing stage. '
     'Process-wide settings are the same after a request as before.',
     ['schedules', 'fault_sequences'], 'all interleavings of requests of two clients and all failing stages',
     TESTS + 'the web server is not tested.', ['web_main.py', 'triples/gui/sos_manager.py'],
     [('sos/findroot/rank/heatmap handlers', 'web_main.py'), ('SOS_Manager', 'triples/gui/sos_manager.py')], ['socket events, HTTP endpoints'],
     'all schedules of two clients\' handler steps at controlled switch points and all stage failures')

prop('C24', 'Documented solvable classes are solved',
     'The structural prover proves every homogeneous cyclic inequality of degree at most four in three nonnegative variables with rational coefficients that is true, every true quadratic inequality in three nonnegative variables, and every positive semidefinite quadratic form, wherever equality holds. For an inequality that is false it returns nothing.',
     ['inputs'], 'all cyclic ternary polynomials of degree at most 4',
     TESTS + 'no test runs a prover.', [CO + 'structsos/ternary/cubic.py', CO + 'structsos/ternary/quartic.py', CO + 'structsos/ternary/quadratic.py'],
     [('cubic/quartic solvers', CO + 'structsos/ternary/')], ['StructuralSOS'],
     'all coefficient vectors of boxes (each polynomial is proved or has an exactly checked negative point) and all members of families that are nonnegative by construction')

prop('C25', 'Elementary symmetric coordinate conversions are exact inverses',
     'Converting a cyclic or symmetric ternary polynomial to elementary symmetric coordinates and substituting them back gives the same polynomial, for every degree and both with and without the antisymmetric part.',
     ['inputs'], 'all symmetric and cyclic ternary polynomials',
     TESTS + 'no test covers it.', [UT + 'expression/pqr.py'],
     [('pqr_sym / pqr_cyc / pqr_pqrt / pqr_ker', UT + 'expression/pqr.py')], ['pqr_*'],
     'all cyclic/symmetric polynomials over a basis of orbits with small coefficients per degree up to a bound')

prop('C26', 'Grid evaluation and global bounds agree with the polynomial',
     'Values shown on the triangular grid are the polynomial\'s values at those grid points, heat maps colour them by sign and size, grid minima are exactly the strict local minima, and the minima reported by global optimisation are attained at feasible points and true within the tolerance once the search says it converged, whatever order the search takes.',
     ['inputs', 'schedules'], 'all polynomials, grid sizes and choices of the search',
     TESTS + 'no test covers it.', [UT + 'roots/grid.py', UT + 'roots/monotonic_opt.py', 'triples/gui/visualize.py'],
     [('GridPoly / GridRender', UT + 'roots/grid.py'), ('rpa_polyopt', UT + 'roots/monotonic_opt.py')], ['GridRender.render', 'rpa_polyopt'],
     'all polynomials of an alphabet x grid sizes x methods, every pixel and interior point; every choice sequence of the randomised search up to a depth')

prop('C28', 'Fast construction of nonnegative bases matches their definitions',
     'The vectors and matrices built by the fast paths for families of nonnegative basis terms equal the coefficient vectors of those terms as expressions, for every degree, permutation group and call history. Degree multipliers are the multipliers they are listed as.',
     ['inputs', 'histories'], 'all bases, degrees, groups, call orders',
     TESTS + 'no test covers it.', [CO + 'linsos/basis.py', CO + 'linsos/updegree.py', CO + 'linsos/tangents.py'],
     [('LinearBasis.get_matrix / generate / LinearBasisTangent', CO + 'linsos/basis.py'), ('lift_degree', CO + 'linsos/updegree.py')], ['LinearBasis subclasses'],
     'all basis families x degrees x groups, compared column by column with the expanded expression')

prop('C29', 'Semidefinite programs represent exactly the sum-of-squares certificates',
     'The semidefinite program constructed for a polynomial with inequality and equality constraints and a symmetry group contains every sum-of-squares certificate of that shape as a feasible point: reducing it by known roots, zero diagonals or symmetry never excludes one. Conversely every feasible positive semidefinite point gives a certificate that equals the polynomial, and other points are refused.',
     ['inputs'], 'all polynomials with a certificate, constraint lists, symmetry groups, and all points of the program',
     TESTS + 'no test constructs a semidefinite program.',
     [CO + 'sdpsos/sdpsos.py', CO + 'sdpsos/manifold.py', CO + 'sdpsos/solution.py'],
     [('SOSProblem.construct / _form_sdp / _get_equal_entries / _constrain_nullspace', CO + 'sdpsos/sdpsos.py'), ('RootSubspace.nullspace', CO + 'sdpsos/manifold.py'), ('SolutionSDP.from_decompositions', CO + 'sdpsos/solution.py')],
     ['SOSProblem.construct', 'SOSProblem.as_solution'],
     'all certificates with one or two squares of small forms per constraint shape and group are looked up exactly in the constructed program; all points of a lattice of unknowns are turned into certificates or refused')
