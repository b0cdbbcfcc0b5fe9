"""The text of the properties; `python3 tools/specs.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id_, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id_, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None),
                  _technique=technique, _note=note))


M, F, G, GR, ME, SL, DE, UG = ("bfit/model.py", "bfit/fit.py", "bfit/greedy.py", "bfit/grid.py", "bfit/measure.py",
                               "bfit/_slater.py", "bfit/density.py", "bfit/parse_ugbs.py")

prop("C01", "Value of the atomic Gaussian density model at every point",
     "For all points (radii or 3D positions), centre, numbers of s-type and p-type functions, coefficients and "
     "positive exponents, evaluating the one-centre model gives sum c exp(-a r^2) over the s-type functions plus "
     "sum c r^2 exp(-a r^2) over the p-type functions, each multiplied by (a/pi)^1.5 or 2 a^2.5/(3 pi^1.5) when "
     "normalised. Basis functions are ordered s-type first, radii are the distances of the points from the centre "
     "(the origin by default). Evaluating neither changes the arguments nor depends on array layout or dtype.",
     ["inputs"], "all grids of 1 to hundreds of points, any centre, any s/p counts, coefficients of any sign and zero, "
     "exponents over twelve decades, float/long double and strided/read-only arrays",
     "The tests compare a few hand-written parameter sets with one or two functions; they never sample mixed s/p "
     "counts, extreme exponents, 3D points with a displaced centre, or array layouts.",
     [M], [("AtomicGaussianDensity.evaluate", M), ("_eval_s, _eval_p", M), ("prefactor", M)],
     "property-based testing (Hypothesis): long double reference model with a derived rounding bound",
     "Generated search against an independent long double reference; the tolerance follows from the condition of the "
     "sum. No proof of absence.", ["bfit.AtomicGaussianDensity(...).evaluate"])
prop("C02", "Derivatives of the models are the exact derivatives of their values",
     "With deriv=True the one-centre and the molecular model return, next to the same values, the matrix of partial "
     "derivatives of the density at each point with respect to every coefficient and every exponent: first all "
     "coefficient derivatives (the normalised basis functions themselves), then all exponent derivatives in the same "
     "basis order, including the dependence of the normalisation on the exponent.",
     ["inputs"], "all point sets, s/p counts, centres, normalised or not, coefficients of any sign, exponents over twelve decades",
     "Tests compare finite differences for a handful of exponents and one point set; column order for mixed s/p bases "
     "on several centres and cancellation at large exponents are not sampled.",
     [M], [("_eval_s / _eval_p derivative branches", M), ("MolecularGaussianDensity.evaluate column assembly", M)],
     "property-based testing (Hypothesis): analytic long double reference for value and every derivative column",
     "Generated search against closed-form derivatives in long double.", ["evaluate(..., deriv=True)"])
prop("C03", "Molecular model is the superposition of its atoms, whatever their order or pose",
     "The molecular model equals the sum of one-centre models at its coordinates, where centre after centre takes its "
     "s-type and then its p-type parameters from the flat coefficient and exponent arrays, and each basis index is "
     "assigned to the centre which owns it (indices out of range are refused). Translating or rotating points and "
     "coordinates together, or permuting the centres along with their parameters, changes no value.",
     ["inputs", "configurations"], "any number of centres, any per-centre s/p counts (also zero of one kind), any geometry, any parameters",
     "Tests use two centres with one or two functions each; the flat-parameter layout for uneven s/p counts and the "
     "symmetries are never exercised.",
     [M], [("MolecularGaussianDensity.evaluate", M), ("assign_basis_to_center", M)],
     "property-based testing (Hypothesis): reference superposition plus metamorphic rigid motions and permutations",
     "Generated search; metamorphic relations are compared within a derived rounding bound.")
prop("C04", "Normalised Gaussians integrate to one; plain ones to their closed form",
     "Integrated over space, the model gives the sum of its coefficients when normalised, and sum c (pi/a)^1.5 for "
     "s-type plus sum 3/2 c pi^1.5 / a^2.5 for p-type functions otherwise, both on radial grids (with 4 pi r^2) and on "
     "cubic grids which resolve and enclose the density.",
     ["inputs"], "any s/p counts, coefficients and exponents, normalised or not, on grids adapted to the exponents",
     "Tests integrate a few fixed exponents on fixed grids.",
     [M, GR], [("prefactor", M), ("integrate", GR), ("_BaseFit.integrate spherical factor", F)],
     "property-based testing (Hypothesis): closed-form integrals as the oracle",
     "Generated search; tolerance from the quadrature error of the adapted grid.")
prop("C05", "Changing the basis size of a model behaves like building it anew",
     "After any history of size changes, evaluations and rejected calls, the one-centre model reports exactly the "
     "numbers of s-type and p-type functions last set and evaluates like a model freshly built with them. Parameter "
     "arrays of the wrong size and invalid counts are refused, and a refused call changes nothing.",
     ["histories"], "sequences of set/evaluate/invalid calls with random sizes and parameters",
     "The one test changes the size once; stale state after several changes, or after a refused change, is not reached.",
     [M], [("change_numb_s_and_numb_p", M), ("evaluate argument checks", M)],
     "stateful property-based testing (Hypothesis): model-based histories against a freshly built model",
     "Generated histories with invariants after each step.",
     state=[dict(name="num_s, num_p", meaning="current basis size", where=M)])
prop("C06", "Squared difference measure and its derivative",
     "The squared difference measure returns (f - g)^2 at every point, never negative and zero exactly where density "
     "and model agree, and as derivative 2 (g - f), for every density and model array. The arguments are not changed.",
     ["inputs"], "all finite density and model vectors, including zeros, tiny values, float64, long double, strided arrays",
     "Tests use one or two small arrays.",
     [ME], [("SquaredDifference.evaluate", ME)],
     "property-based testing (Hypothesis): pointwise long double reference",
     "Generated search against the definition.")
prop("C07", "Kullback-Leibler integrand: definition, masking, penalty, Gibbs inequality",
     "The Kullback-Leibler measure returns f ln(f/g) and the derivative -f/g at every point, zero where the density is "
     "zero; where the model is not above the mask value the ratio f/g counts as one, and any negative model value turns "
     "the whole result into the penalty value. Pointwise f ln(f/g) >= f - g, so that the divergence of two densities with the "
     "same integral is never negative; a model which is undefined (nan) gives an undefined divergence, never a finite "
     "or zero one.",
     ["inputs"], "all density and model vectors (zeros, below the mask, negative, nan), mask values and penalty values",
     "Tests check a few vectors; combinations of zeros, masked points and negative models are not sampled, nor is the "
     "inequality.",
     [ME], [("KLDivergence.evaluate mask and negative_val", ME)],
     "property-based testing (Hypothesis): pointwise long double reference and the Gibbs inequality",
     "Generated search; the inequality is checked with a rounding bound.")
prop("C08", "Tsallis integrand: definition, masking, ordering and the Kullback-Leibler limit",
     "The Tsallis measure returns f ((f/g)^(alpha-1) - 1)/(alpha - 1) and its derivative -(f/g)^alpha with respect to "
     "the model, where the power of the ratio counts as zero if the density is zero or the model is not above the mask value. "
     "Its integrand bounds the Kullback-Leibler integrand from above for alpha > 1 and from below for alpha < 1, and "
     "tends to it as alpha tends to one; an undefined (nan) model gives an undefined result at its points only.",
     ["inputs"], "all density and model vectors, alpha in (0, 1) and above 1, mask values",
     "Tests use alpha = 2 or 1.001 on few vectors.",
     [ME], [("TsallisDivergence.evaluate", ME)],
     "property-based testing (Hypothesis): pointwise reference, ordering and limit relations",
     "Generated search against the definition and metamorphic relations in alpha.")
prop("C09", "Radial grids place their points as documented",
     "The uniform grid has the requested number of equally spaced points from the first to the last radius included, "
     "and the Clenshaw grid consists of the documented core and diffuse cosine points scaled by the atomic number, with "
     "the origin exactly when asked for and the extra points, sorted. Radii are never negative and have the requested "
     "precision.",
     ["inputs", "configurations"], "all sizes, bounds, atomic numbers, extra points, origin flags, dtypes",
     "Tests check a few sizes.",
     [GR], [("UniformRadialGrid", GR), ("ClenshawRadialGrid._get_points", GR)],
     "property-based testing (Hypothesis): formula reference in long double",
     "Generated search against the documented formulas.")
prop("C10", "Radial integration is the trapezoid rule over the grid points",
     "Integrating on any radial grid gives the trapezoid rule for the values at its points: exact for linear "
     "functions, additive, homogeneous, and of the sign of the integrand. Integrands which do not have one value per "
     "point are refused, and the integrand is not changed.",
     ["inputs"], "all radial grids (uniform, Clenshaw, extra and repeated points) and value vectors",
     "Tests integrate a few analytic functions on fine grids with loose tolerances.",
     [GR], [("_BaseRadialGrid.integrate", GR)],
     "property-based testing (Hypothesis): reference quadrature plus linearity and exactness relations",
     "Generated search.")
prop("C11", "Cubic grids: lattice order and Riemann-sum integration with volume weights",
     "A cubic grid lists the points origin + i a1 + j a2 + k a3 with the last index running fastest, also for skewed "
     "axes and uneven shapes. Integration is the Riemann sum of the values times the volume of the parallelepiped "
     "of the axes, whatever their handedness; integrands of the wrong shape are refused and the arguments unchanged.",
     ["inputs", "configurations"], "all origins, non-singular axes (skewed, left-handed, tiny) and shapes",
     "Tests use one or two axis-aligned grids of equal sides, on which permuted axes or indices look the same.",
     [GR], [("CubicGrid points", GR), ("_calculate_volume, _choose_weight_scheme", GR), ("integrate", GR)],
     "property-based testing (Hypothesis): reference lattice and weights",
     "Generated search.")
prop("C12", "Molecular boxes enclose all nuclei with the requested margin and spacing",
     "The grid built from a molecule is a right-angled lattice with the requested spacing whose cells, one "
     "per point, cover every nucleus with at least the requested extension on each side, and cover at most one spacing more. With "
     "rotation its axes are the principal axes of the nuclear charge distribution, without it the Cartesian ones.",
     ["inputs"], "all molecules (one nucleus, collinear, planar, asymmetric, degenerate), charges, spacings, extensions",
     "Tests check one or two molecules whose symmetry hides a transposed axis matrix or a shifted box.",
     [GR], [("CubicGrid.from_molecule", GR)],
     "property-based testing (Hypothesis): enclosure, spacing and inertia-eigenvector invariants",
     "Generated search; invariants, not one expected answer.")
prop("C13", "Goodness-of-fit report equals the integrals it names",
     "The report for any parameters lists, in this order, the integral of the model, the L1 distance, the maximum "
     "absolute deviation, the integrated squared deviation and the Kullback-Leibler divergence of density and model, "
     "with 4 pi r^2 for spherical problems on radial grids and plain on cubic grids or non-spherical problems.",
     ["inputs", "configurations"], "all grids, densities, atomic and molecular models, measures and parameters",
     "Tests evaluate it on a few problems with one function.",
     [F], [("_BaseFit.goodness_of_fit", F), ("_BaseFit.integrate", F)],
     "property-based testing (Hypothesis): independent long double quadrature of all five numbers",
     "Generated search.")
prop("C14", "Each fixed-point step applies the self-consistent KL equations",
     "One iteration of the fixed-point method multiplies every coefficient by the density-weighted ratio of its basis "
     "function over the model (divided by the Lagrange multiplier, the integral of the density over the requested "
     "number of particles) and sets every exponent to its s-type or p-type self-consistent value, coefficients first, "
     "exponents from the updated model. Switched-off parameters stay exactly as given, coefficients stay non-negative, "
     "exponents positive, and the coefficients of a normalised model sum to the requested number of particles.",
     ["inputs", "configurations"], "all grids, densities, s/p bases, one or several centres, normalised or not, all switches, several steps",
     "Tests check one or two one-function updates with hand-derived numbers.",
     [F], [("KLDivergenceFPI._update_params", F), ("lagrange_multiplier", F)],
     "property-based testing (Hypothesis): reference implementation of the iteration in long double, differential per step",
     "Generated search; error bounds follow the conditioning of each update.")
prop("C15", "The fixed-point method never increases the Kullback-Leibler divergence",
     "With a normalised model whose particle number is that of the density, the objective reported along a "
     "fixed-point run never increases, whether coefficients, exponents or both are optimised, on any grid whatever its "
     "resolution.",
     ["inputs", "histories"], "all problems with non-negative quadrature weights, starting from any positive parameters",
     "Tests look at the end of two runs; monotonicity along all runs is a theorem about the algorithm that a sample of "
     "end points does not check.",
     [F], [("KLDivergenceFPI._update_params", F), ("run", F)],
     "property-based testing (Hypothesis): descent invariant over the iteration history",
     "Generated search. Majorisation-minimisation theory supports the invariant for this discrete objective.")
prop("C16", "Fixed-point fits follow scaling of the density and of space, and relabelling",
     "Multiplying density, particle number and starting coefficients by a constant multiplies the resulting "
     "coefficients by it, scaling all lengths by s divides the exponents by s^2, and permuting basis functions or centres permutes the result; nothing else changes.",
     ["inputs"], "all problems, scale factors and permutations",
     "Tests never relate two runs to each other.",
     [F, M], [("KLDivergenceFPI.run", F), ("MolecularGaussianDensity.evaluate", M)],
     "metamorphic property-based testing (Hypothesis): equivariance of runs",
     "Generated search.")
prop("C17", "Fixed-point run reports tell what happened",
     "A fixed-point run performs at most the allowed number of iterations, stops as soon as the changes fall below the "
     "thresholds and not before, and reports one row of performance and one objective per iteration, the last of which "
     "belong to the returned parameters. It claims success only if it converged with finite parameters, gives the same "
     "result when run again, leaves the starting parameters alone and prints only if asked to; invalid arguments are "
     "refused and leave the object usable.",
     ["inputs", "histories"], "all problems, thresholds, iteration limits (also 1), switches, repeated runs, invalid calls",
     "Tests read some fields of a few converged runs; off-by-one rows, premature stops and success flags at the limit "
     "are not sampled.",
     [F], [("KLDivergenceFPI.run loop and results", F)],
     "property-based testing (Hypothesis): invariants of the report, re-evaluated from the returned parameters",
     "Generated search.", ["KLDivergenceFPI.run result"])
prop("C18", "A density which is a Gaussian model is a fixed point of its own fit",
     "If the density is exactly a non-negative Gaussian model, the fixed-point method started at its parameters stays "
     "there with zero divergence and one-function fits recover the function; the grid only has to resolve the "
     "functions.",
     ["inputs"], "all s/p models on grids resolving them",
     "Tests try one Gaussian.",
     [F], [("KLDivergenceFPI._update_params", F)],
     "property-based testing (Hypothesis): known-answer generation (plant the answer, recover it)",
     "Generated search.")
prop("C19", "Objective, gradient and constraint given to the scipy optimisers are exact",
     "For every measure, grid, model, weights and combination of optimised and fixed parameters, the objective is the "
     "(weighted) integral of the measure at the full parameter vector, the gradient is its exact gradient in the "
     "optimised parameters, and the constraint is the integral of the model minus the requested number of particles "
     "together with its gradient.",
     ["inputs", "configurations"], "all measures, models, grids, weights, both optimisation switches, any parameters",
     "Tests compare one or two gradients with finite differences for one measure.",
     [F], [("ScipyFit.func", F), ("const_norm", F), ("evaluate_model", F)],
     "property-based testing (Hypothesis): analytic long double reference for value and gradient",
     "Generated search.")
prop("C20", "Scipy fits respect bounds, constraint, fixed parameters and report honestly",
     "A run with either optimiser returns finite parameters within the bounds, with switched-off parameters exactly as "
     "given, not worse than the start when feasible, fulfilling the particle-number constraint when it reports success with the "
     "constraint on. The reported objective, gradient and performance are those of the returned parameters, a failure "
     "is reported both by the flag and a warning, the starting parameters are left alone and nothing is printed unless asked.",
     ["inputs", "configurations"], "all measures, methods, switches, iteration limits and problems",
     "Tests run a few easy fits with SLSQP.",
     [F], [("ScipyFit.run", F)],
     "property-based testing (Hypothesis): contract of the result re-evaluated independently",
     "Generated search; only what the contract promises is asserted, not optimality of a nonlinear search.")
prop("C21", "Convex fits of coefficients reach the global optimum",
     "With fixed exponents, a converged fit of the coefficients is optimal among all feasible coefficients within the "
     "convergence tolerance: no feasible direction improves the objective noticeably, "
     "for the scipy optimiser with any convex measure. After k steps from any positive coefficients the fixed-point "
     "method is within D(c* || c0)/k of the objective of every other set of coefficients c* of the same sum.",
     ["inputs"], "all problems with well-conditioned bases",
     "Tests compare a few fits to known answers.",
     [F], [("KLDivergenceFPI.run", F), ("ScipyFit.run", F)],
     "property-based testing (Hypothesis): duality gap / non-negative least squares certificate of optimality",
     "Generated search; the certificate bounds the distance to the optimum.")
prop("C22", "Greedy candidate generation and removal of redundant functions",
     "The generators of next guesses produce exactly the documented guesses: the new exponent below the first (divided "
     "by the factor), midway between neighbours, or above the last (times the factor), with the given coefficient, once "
     "for pick-one, twice in succession for pick-two, and after losing one function for pick-two-lose-one. Removing "
     "redundancies merges functions whose exponents differ by less than the threshold, keeps the sum of the "
     "coefficients, the order and all separate functions, and leaves no two exponents close.",
     ["inputs"], "all sorted parameter sets, factors, thresholds, chains of close exponents",
     "Tests list the guesses of one or two parameter sets.",
     [G], [("get_next_choices", G), ("get_two_next_choices", G), ("pick_two_lose_one", G), ("remove_redundancies", G)],
     "property-based testing (Hypothesis): reference enumeration of guesses, merge invariants",
     "Generated search.")
prop("C23", "One-function starting solutions of the greedy methods are optimal",
     "The first function of the greedy Kullback-Leibler method has the particle number as its coefficient and the exponent "
     "3 N / (2 * integral of r^2 f), and that of the greedy least-squares method is the best "
     "of the three log-linear least-squares fits with weights 1, f and f^2; both for radial, spherical and cubic problems, normalised or not.",
     ["inputs", "configurations"], "all positive or partly zero densities on all kinds of grids",
     "Tests use one Gaussian density on one grid.",
     [G], [("get_best_one_function_solution", G), ("_solve_one_function_weight", G)],
     "property-based testing (Hypothesis): closed-form references",
     "Generated search.")
prop("C24", "Greedy runs improve step by step, within limits, and report what they did",
     "A greedy run adds one function (two for pick-two) per iteration, never more than the maximum, tries every "
     "documented s-type and p-type guess in each, refines the best one, both with the documented thresholds (least-squares: from "
     "the non-negative least-squares coefficients), and keeps the result unless it is redundant or "
     "worse than before; then the factor is doubled until a step is accepted, and five refused steps in a row end the run. The "
     "returned parameters are finite, non-negative, not redundant, agree with the reported numbers of s-type and p-type "
     "functions, objective and history, and keep the particle number (Kullback-Leibler). It ends for the reason it "
     "states, with success unless it gives up or runs out of room, and a second run gives the same result. This holds for any "
     "optimisation a subclass of GreedyStrategy brings, also where that returns worse, redundant or impossible parameters.",
     ["inputs", "histories"], "both greedy methods, all three choices, all grids, densities, limits, factors, repeated runs",
     "Tests run few greedy fits and look at one or two numbers.",
     [G], [("GreedyStrategy.run", G), ("_find_best_lparams", G), ("store_errors", G)],
     "property-based testing (Hypothesis): invariants over the recorded search history, re-evaluated independently",
     "Generated search. One documented argument (extra choices) has a known finding.")
prop("C25", "Slater wave-function files are read faithfully or refused",
     "For every file in the documented format, neutral or ionic, the object holds exactly what the file says: energies, "
     "orbitals in order, occupations from the configuration, basis names, numbers, exponents, coefficients per orbital, orbital energies "
     "and cusps. Unknown elements, missing ions and contradictory requests are refused.",
     ["inputs"], "all shipped files (complete enumeration) and generated files in the format",
     "Tests compare some numbers of a few elements; column shifts for orbitals with continued rows or unusual "
     "configurations are not reached.",
     [SL, DE], [("load_slater_wfn", SL), ("SlaterAtoms.__init__", DE)],
     "property-based testing (Hypothesis) with generated files plus enumeration of shipped files against an independent reader",
     "Enumeration of shipped data, generated search for the format. One corrupt shipped file is a known finding.")
prop("C26", "Slater functions and densities follow their formulas at all radii",
     "Radial Slater functions, their derivatives, orbital matrices, total, core and valence densities, the derivative "
     "of the density and the positive-definite kinetic energy density follow their formulas at every radius (also zero), for any atom. "
     "Core and valence add up to the total, all densities are non-negative, and the kinetic energy density is not "
     "below the von Weizsaecker bound.",
     ["inputs"], "all shipped atoms and ions, all radii, all exponents and quantum numbers",
     "Tests evaluate a few atoms at a few radii.",
     [DE], [("radial_slater_orbital", DE), ("phi_matrix", DE), ("atomic_density", DE),
            ("derivative_radial_slater_type_orbital", DE), ("positive_definite_kinetic_energy", DE),
            ("derivative_density", DE)],
     "property-based testing (Hypothesis): long double reference and pointwise inequalities",
     "Generated search.")
prop("C27", "Shipped atoms obey physics: electrons, virial, orthonormality, cusp",
     "For every shipped atom and ion the density integrates to its number of electrons, the kinetic energy density to "
     "the tabulated kinetic energy, E = T + V and V/T = -2, its orbitals are orthonormal, the density has the nuclear "
     "cusp, and the valence density contains at least the highest orbital. E is half the sum of the orbital and "
     "one-electron energies of the electrons, and the cusp of every orbital is the one tabulated.",
     ["inputs"], "all shipped atoms and ions (complete enumeration)",
     "Tests integrate some atoms.",
     [DE, SL, "bfit/data"], [("atomic_density", DE), ("load_slater_wfn", SL)],
     "exhaustive enumeration of the shipped atoms with physical invariants as the oracle (finite input domain)",
     "Every shipped atom is enumerated; quadrature error bounds are stated.")
prop("C28", "Universal Gaussian basis exponents per element",
     "For every element in the shipped universal basis the exponents returned are those of its S, P, D and F blocks, "
     "complete, in order and positive (a stretch of one geometric sequence), and each call returns fresh lists.",
     ["inputs"], "all elements (complete enumeration), any capitalisation",
     "Tests check few elements.",
     [UG], [("get_ugbs_exponents", UG)],
     "exhaustive enumeration of elements against an independent reader (finite input domain)",
     "Every element is enumerated.")
prop("C29", "Published Gaussian models describe the densities of their atoms",
     "For each published result (H to Xe, both methods) the stored parameters, used with the library's model, have "
     "non-negative coefficients which sum to the atomic number, agree between the file formats, integrate to Z, are "
     "close to the Slater density and (almost) stationary under the library's fixed-point iteration.",
     ["inputs"], "all published models (complete enumeration)",
     "Tests do not read these files.",
     ["bfit/data", M, F], [("result files", "bfit/data"), ("AtomicGaussianDensity", M), ("KLDivergenceFPI.run", F)],
     "exhaustive enumeration of published models against the library's own measures and physical bounds",
     "Every published model is enumerated.")

prop("C30", "Invalid arguments are refused, their valid neighbours accepted",
     "Constructors and methods of grids, models, measures, fits, greedy searches and atoms refuse arguments of the wrong "
     "type, shape, sign or size, mismatched lengths, unknown names and contradictory options with the exception they "
     "document (TypeError, ValueError or AttributeError) instead of computing with them. The similar valid call is "
     "accepted before and after the refused one.",
     ["inputs"], "all documented kinds of invalid arguments with generated sizes and values, each with its valid neighbour",
     "Tests try one fixed value per error; sizes off by one, transposed shapes or broadcastable arrays are not tried.",
     [M, GR, ME, F, G, DE], [("argument checks", M), ("argument checks", GR), ("argument checks", ME),
                             ("_BaseFit.__init__, ScipyFit.__init__", F), ("GreedyStrategy.run", G)],
     "property-based testing (Hypothesis): generated invalid calls paired with valid ones",
     "Generated search over the documented refusals.")
prop("C31", "Results depend only on arguments and basis size, never on what ran before",
     "When one grid, one density, models and measures are shared by several fitting and greedy objects, every operation "
     "gives the same result as on freshly built objects, whatever operations (also failing ones, runs and size changes) came before "
     "and whatever the caller did to earlier results; the data of an atom (wave functions, densities, universal basis) are those of its file, "
     "whatever was asked or changed in earlier results. No operation changes its arguments, the density, the coordinates, the grid points, "
     "the basis size of a model it does not own, or settings of the process (error handling and printing of numpy, working directory). "
     "Copies of objects behave as the objects, and operations on separate objects which run at the same time in threads do not disturb each other.",
     ["histories", "schedules"], "random histories of integrations, evaluations, measures, goodness reports, fixed-point, SLSQP and greedy "
     "runs, candidate generation, size changes and refused calls on shared objects",
     "Tests build fresh objects for each assertion; caches, aliased buffers and shared defaults show only in histories.",
     [M, F, G, GR, ME, DE, SL, UG], [("objects without hidden state", F), ("load_slater_wfn", SL), ("change_numb_s_and_numb_p", M), ("greedy state reset", G)],
     "stateful property-based testing (Hypothesis): differential against freshly built objects after every step",
     "Generated histories; results are compared exactly, up to rounding of vectorised code.")
prop("C32", "Fitting an atom end to end obeys the information-theoretic laws",
     "Fitting the Slater density (total, core or valence) of any shipped atom or ion on a Clenshaw grid with exponents of "
     "its universal basis, the fixed-point method never increases the divergence, keeps the number of electrons, and "
     "reports the true integral, distances and divergence, which obey the inequalities of Gibbs and Pinsker on the grid. "
     "A scipy refinement of the coefficients starts from there and reports its own objective and constraint truly.",
     ["inputs", "configurations"], "all shipped atoms and ions, densities, grids, subsets of the universal exponents, switches",
     "Tests fit one or two atoms with fixed settings.",
     [DE, GR, M, F, UG], [("SlaterAtoms.atomic_density", DE), ("ClenshawRadialGrid", GR), ("KLDivergenceFPI.run", F),
                          ("get_ugbs_exponents", UG)],
     "property-based testing (Hypothesis): inequalities and independent quadrature over generated end-to-end fits",
     "Generated search through all parts together.")
prop("C33", "Tables of progress show the true numbers",
     "With disp=True the row of each iteration shows, under its heading, the integral, the L1, L-infinity and least-squares "
     "distances and the Kullback-Leibler divergence of that iteration's parameters, rounded to the digits shown: in the "
     "fixed-point method, in both scipy methods and in the greedy method. The iteration numbers, numbers of s-type and "
     "p-type functions, changes of coefficients, exponents and objective, and the success, coefficients, exponents, "
     "objective and exit information after the table are those of the run and of the returned result. The display "
     "changes no result, and nothing is shown when it is off.",
     ["inputs", "configurations"], "methods, switches, thresholds, grids, densities and basis sets, every row of the table",
     "Tests only look whether the display runs; a wrong column or a stale row shows nowhere.",
     [F, G, ME], [("KLDivergenceFPI.run", F), ("ScipyFit.run", F), ("greedy display", G)],
     "property-based testing (Hypothesis): parsed output against an extended-precision reference of every row",
     "Generated search; the parameters of scipy's iterations are those it hands to the display.")
prop("C34", "Any grid and any measure of the user are used as they are",
     "An object which only has points (in 1 to 4 dimensions, or radial) and integrate can be the grid of every "
     "method, with unevenly spaced or repeated points, weights of any size (reports and objectives: also negative) and its own quadrature rule; any subclass of "
     "Measure with evaluate can be the objective of a scipy fit. Reports, fixed-point iterations, objectives, gradients, "
     "constraints, whole fits and greedy searches are then those of the written formulas with that quadrature and that "
     "measure; nothing depends on the classes of the library.",
     ["inputs", "configurations"], "quadratures of any dimension, order and weights, measures with derivatives, all methods",
     "Tests use the grids and measures of the library only.",
     [F, G, M, ME, GR], [("_BaseFit", F), ("KLDivergenceFPI", F), ("ScipyFit", F), ("GreedyStrategy", G)],
     "property-based testing (Hypothesis): extended-precision reference over user-defined grids and measures",
     "Generated search.")
prop("C35", "Equivalent formulations of a problem give the same answers",
     "The same fitting problem can be written in several ways: an atomic model or a molecular one with one centre; the "
     "functions of one centre split over two centres at the same place, the centres in another order; a function split into twins with the same exponent, "
     "or one more function without weight; the quadrature with points added that have no weight, with points taken twice, "
     "in another order or with the weights of the sphere in the rule; in extended precision; with the number of electrons "
     "given or integrated. The model, objective, gradient, constraint, report and fixed-point iteration are the same, the "
     "shares of twins in proportion.",
     ["inputs", "configurations"], "all eleven reformulations of generated problems, measures, switches, numbers of iterations",
     "Tests never compare two formulations of one problem.",
     [F, M, ME, GR], [("KLDivergenceFPI.run", F), ("ScipyFit.func", F), ("MolecularGaussianDensity", M)],
     "property-based testing (Hypothesis): metamorphic relation between formulations of one problem",
     "Generated search, up to rounding bounds.")

prop("C36", "Arguments mean the same by position, by name or at their default",
     "Every public constructor, method and function takes its arguments by position in the documented order or by name, "
     "and leaving out an optional argument is the same as giving its documented default: grids (radii 0 to 100, extended "
     "precision; origin included; spacing 0.2, extension 5, rotated), measures (masks 1e-12, negative value 1e5, alpha "
     "1.001, no derivative), models (origin, one s-type function, not normalised), Slater atoms (neutral, all orbitals), "
     "fits (particle number of the density, no sphere, both kinds of parameters, documented thresholds, iterations, "
     "measure, method, constraint), greedy searches and their helpers. The results are identical, also what is displayed.",
     ["inputs", "configurations"], "all public callables with optional arguments, any subset of them left out, named in any order or positional, any values",
     "Tests call every function in one or two fixed ways.",
     [F, M, ME, GR, G, DE], [("signatures", F), ("signatures", G), ("signatures", GR), ("signatures", M)],
     "property-based testing (Hypothesis): differential between ways of calling",
     "Generated search over calls, values and ways of calling; results must be identical.")

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf8") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick",
                       "thorough_cmd": f"./check {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["_technique"],
                       "level": "exploration", "level_note": p["_note"]} for p in P],
           "not_applicable": NOT_APPLICABLE,
           "notes": "No hooks in /repo. Known findings: known_findings.txt. See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


if __name__ == "__main__":
    main()
