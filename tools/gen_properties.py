#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

T = "maxlike/tensor/tensor.py"; FB = "maxlike/func/func_base.py"; FO = "maxlike/func/func_op.py"
F = "maxlike/func/func.py"; FP = "maxlike/func/func_proba.py"; M = "maxlike/func/matrix.py"
TE = "maxlike/func/tennis.py"; CO = "maxlike/func/copula.py"; SG = "maxlike/func/sigmoid.py"
MB = "maxlike/maxlike_base.py"; ML = "maxlike/maxlike.py"; SK = "maxlike/skellam.py"; PR = "maxlike/preprocessing.py"

p("C01", "Tensor arithmetic equals the arithmetic of the dense arrays it stands for",
  "Adding, subtracting, multiplying, dividing, negating or raising to a power tensors (with parameter axes, diagonally compressed or not, value axes and extra axes), sums of differently compressed tensors, numbers and numpy arrays, in either operand order, gives a tensor whose dense form equals the same operation on the dense forms, broadcasting over axis groups an operand lacks. Elementwise numpy functions applied to tensors act on the dense values, and combinations that are not supported are refused with an exception, never answered wrongly.",
  ["inputs", "programs"], "all pairs/chains of compatible tensors, axis counts and sizes, diagonal mappings, scalars incl. 0 and 1, arrays, operand orders",
  "tests/tensor_test.py samples a handful of fixed 3x3 tensors whose axes all have the same length, so swapped axes, unequal sizes, three or more features and differing mappings are never exercised",
  [T], [("bin_op of both tensor classes", T), ("diagonal expansion helpers", T), ("__array_ufunc__", T)],
  ["toarray() of the result vs numpy on toarray() of the operands"],
  [("x_map/y_map", "which value axis each compressed parameter axis is tied to", T)])

p("C02", "Tensor reductions and axis manipulations equal those of the dense array",
  "Summing over all, some or no value axes and/or the extra axes, expanding into a larger feature or extra space, flipping, transposing the two parameter groups and merging the extra axes into the value axes give a tensor whose dense form and axis-group sizes equal the same operation on the dense form, for compressed, uncompressed and summed (heterogeneous) tensors alike. Flips along an axis tied to a compressed parameter axis may be refused with an exception but never answered wrongly.",
  ["inputs"], "all tensors (axis counts, sizes, mappings incl. partial and shared ones), all axis selections and target positions",
  "the tests sum whole 3x3 tensors and flip two of them; partial sums, unequal sizes, transposition of unequal groups and expansions are only hit through a few fixed models",
  [T], [("sum / expand / flip / transpose / drop_dim of both tensor classes", T)],
  ["toarray() and x_dim, y_dim, n, dim of the result"])

p("C03", "Tensor contractions equal the dense contraction (the chain-rule products)",
  "Contracting a tensor's parameter axes with another tensor's value axes (dot, left and right products) yields a tensor whose dense form is the Einstein sum of the dense forms, with the resulting parameter, value and extra axes in the documented order, for every combination of compressed, partially compressed, dense and summed operands.",
  ["inputs"], "all contractible pairs: axis counts and sizes, complete/partial/absent/shared diagonal mappings, extra axes on either or both sides, heterogeneous sums",
  "tests contract five fixed 3x3 tensors; index mix-ups that preserve shape at equal sizes are invisible there",
  [T], [("dot, dot_left, dot_right", T), ("compose_mappings / axis swapping helpers", T)],
  ["toarray() of the product vs numpy.einsum"])

p("C04", "No computation alters its operands, the caller's data or stored parameters",
  "Tensors and parameters are immutable: attributes cannot be assigned and stored values cannot be written. No tensor operation, function evaluation, likelihood evaluation, fit, root search or data preparation changes the content (or, for arrays handed to add_param or fit, the writability) of any object passed in, and changing the caller's arrays afterwards does not change a tensor, a stored parameter or the data of a fit.",
  ["histories", "inputs"], "all sequences of API calls sharing operands and arrays",
  "the tests never look at an operand again after using it",
  [T, MB, ML, FB, FO, F, FP, M, TE, CO, SK, PR],
  [("read-only value buffers, blocked attribute assignment", T), ("Param", MB)],
  ["operand digests before/after every call", "flags of caller arrays"])

p("C05", "Function expressions evaluate to the mathematical expression they denote",
  "Any expression built from the library's functions (identity, constants, scalar, vector, linear, quadratic, exp, log, logistic, arctan sigmoid) with +, -, *, / by numbers, unary minus, composition, weighted sums and products placed on chosen parameters, features and extra dimensions, and collapses, evaluates at any parameter point to the value of the denoted formula at every cell, independently of how sums, products and affine parts are nested or flattened, of the order or repetition of the chosen parameters, and of the placement order of features.",
  ["programs", "inputs"], "all expression trees over the combinators, all parameter/feature/extra-dimension placements, all parameter values in the domain",
  "tests evaluate about fifteen fixed expressions and mostly compare the library with itself",
  [FB, FO, F, SG], [("Affine/Compose", FB), ("FuncWrap/Sum/Product/Collapse", FO), ("leaf functions", F)],
  ["dense value of the called expression"])

p("C06", "Gradients are the exact derivatives of the function value",
  "For every function and expression of the library (leaf, probability, Markov, collapse and composed ones) and every parameter index, the dense form of the gradient equals the partial derivatives of the called value with respect to every entry of that parameter, being zero for parameters it does not depend on, wherever the function is differentiable.",
  ["programs", "inputs"], "all library functions and expression trees, parameter shapes and values, parameter placements incl. permuted, shared and unused parameters",
  "func_test.py only compares eval with grad; nothing compares a gradient with a derivative",
  [FB, FO, F, FP, M, SG, TE], [("grad methods and chain/product rules", FB + ", " + FO)],
  ["grad(params, i).toarray() vs differences of the called value"])

p("C07", "Hessians are the exact, symmetric second derivatives",
  "For every function and expression of the library and every parameter pair (first index not smaller than the second), the dense form of the Hessian block equals the second partial derivatives of the called value with respect to the entries of the two parameters, including cross blocks between parameters of different shapes and between parameters sharing features; diagonal blocks are symmetric.",
  ["programs", "inputs"], "all library functions and expression trees, parameter shapes and values, placements incl. permuted, shared and unused parameters",
  "func_test.py only compares eval with hess on trivial functions; no test compares a Hessian with a second derivative",
  [FB, FO, F, FP, M, SG, TE], [("hess methods and second-order chain/product rules", FB + ", " + FO)],
  ["hess(params, i, j).toarray() vs differences of the gradient"])

p("C08", "One-pass evaluation agrees with separate value, gradient and Hessian calls",
  "For every function and expression, evaluating value, gradient and Hessian in one pass returns exactly the structures (one gradient per parameter, a lower-triangular array of Hessian blocks) and, up to rounding, the dense values that the separate value, gradient and Hessian calls return at the same parameters, whether parameters are given as a list, a tuple, a single array or stored model parameters.",
  ["programs", "inputs"], "all library functions and expression trees, all parameter points and parameter containers",
  "func_test.py samples about fifteen expressions at two points, none with additive constants inside sums, permuted parameters or nested sums",
  [FB, FO, F, FP, M, SG, TE], [("eval methods / generated eval", FB + ", " + FO)],
  ["eval(params) vs __call__, grad, hess"])

p("C09", "Count-distribution functions reproduce their probability mass functions",
  "The Poisson function's entries divided by exp(rate) equal Poisson probabilities, the log-negative-binomial and negative-binomial functions equal the (log-)probabilities of the negative binomial with the given mean and size parameter, for every rate array shape, count range and size parameter; the extra axis indexes the count 0..size-1 and feature axes stay in place.",
  ["inputs"], "all positive rates, rate array shapes (0-3 axes), sizes, dispersion parameters",
  "tests only compare eval with itself and fit one data set at size 8 and dispersion 1",
  [FP, F], [("Poisson, LogNegativeBinomial, NegativeBinomial", FP)], ["dense value vs scipy.stats pmf"])

p("C10", "Markov score models conserve probability and match the step-by-step chain",
  "The Markov matrix (joint score) and Markov vector (score difference) functions return non-negative probabilities that sum to one for every pair of valid rates, equal the distribution obtained by running the stated chain (at each of the steps at most one side moves up by one with probability rate/steps times its skew factor, absorbed at the last index), cell by cell for arrays of rates, with gradients and Hessians that sum to zero over outcomes; the difference distribution of the matrix model equals the vector model when no truncation occurs.",
  ["inputs", "configurations"], "all valid rate arrays, sizes, step counts and skew tables",
  "tests fit two fixed data sets with size 8 and 18 steps and no skew; no test looks at the probabilities",
  [M], [("MarkovMatrix, MarkovVector", M)], ["dense value, grad and hess of the functions"])

p("C11", "Tennis functions give the probabilities of the tennis scoring rules",
  "Game, TieBreak and Set return, at every point (or game/tiebreak) winning probability strictly between 0 and 1, the probability of winning with each listed score under tennis rules (deuce by two points, tiebreak to seven by two, set to six by two with tiebreak at six all); their totals for a probability and its complement add up to one, and gradients and Hessians are the derivatives of these probabilities, with feature axes staying in place.",
  ["inputs"], "all probabilities in (0,1), scalar and array arguments",
  "one test fits one data set; the score probabilities and the derivative polynomials are never checked",
  [TE], [("Game, TieBreak, Set", TE)], ["dense values vs simulation-free enumeration of the scoring chain"])

p("C12", "Outcome collapse sums exactly the cells satisfying each condition",
  "Collapsing a joint score table to outcomes returns, for each condition (a, b, c, s) and each feature cell, the sum of the table entries (i, j) whose a*i + b*j + c has sign s, for the default win/draw/loss conditions and for user-given conditions, any number of feature axes and non-square tables; it is linear, so its gradient selects exactly those entries and its Hessian is zero.",
  ["inputs", "configurations"], "all tables (feature axes, square or not), all condition lists",
  "tests use only the default conditions on square tables with two equal feature axes, through a fit",
  [M], [("CollapseMatrix", M)], ["dense value and gradient"])

p("C13", "Copulas return a valid joint distribution with the given margins",
  "For every pair of non-negative marginal vectors (or arrays of them, normalised or not, integer or float) and every parameter in the documented open range, each copula returns a non-negative joint table per cell that sums to one, whose row and column sums are the normalised margins, whose cumulative table is the named copula formula (Gaussian, Clayton, Gumbel, Frank, Ali-Mikhail-Haq) of the marginal cdfs, and which reduces to the product of the margins at the independence parameter.",
  ["inputs", "configurations"], "all margins (zero entries, lengths, unequal lengths, unnormalised, batched), all admissible dependence parameters",
  "tests use one pair of 7-point margins and six parameter values",
  [CO], [("copulaWrap and copula formulas", CO)], ["joint table, its margins and cumulative sums"])

p("C14", "Poisson and Skellam probabilities and their derivatives are correct",
  "The Poisson vector, cdf and mid-cdf equal the Poisson distribution and their derivatives in the rate; the Skellam cdf (either direction) and cdf pair equal the probabilities of the difference second-minus-first of two independent Poisson variables being at most / at least / below / above n, with the partial derivatives in both rates, up to the truncation error allowed by the window implied by the requested tolerance.",
  ["inputs"], "rates in (0, 40], n of any sign, tolerances, both directions",
  "tests evaluate the functions at five points",
  [SK], [("poisson_vector, poisson_cdf, poisson_mid_cdf, skellam_frame, skellam_cdf, skellam_cdf_pair", SK)],
  ["returned value/derivative pairs vs scipy.stats"])

p("C15", "Root finders solve their equation or signal failure; they never hang",
  "Whatever the Poisson, Skellam and conditional Skellam root finders return are positive, finite parameters at which the corresponding cdf function reproduces the target(s) within the requested tolerance, and they do return for attainable targets that are not extremely close to 0 or 1. For targets outside the open probability simplex or not attainable they raise an error, and for extreme ones they may, always after a bounded amount of work and memory.",
  ["inputs"], "all targets (feasible, boundary, infeasible), n, tolerances",
  "tests try one feasible target per function; error and non-convergence paths are never executed",
  [SK, MB], [("poisson_cdf_root, skellam_cdf_root, conditional_skellam_cdf_root", SK), ("ConvergenceError", MB)],
  ["returned parameters substituted back; raised exceptions"])

p("C16", "Each model's objective is the mean log-likelihood of its distribution",
  "For Poisson, zero-inflated Poisson, logistic, negative-binomial, finite and normalised-finite models, the objective at any parameter point equals, up to a constant that does not depend on the parameters (and exactly, for single observations), the log-likelihood of the aggregated data under that distribution minus the regularisation terms, divided by the total number of observations.",
  ["inputs", "configurations"], "all data sets (counts, empty cells), parameter points, model hyper-parameters, regularisers",
  "tests only compare end-of-fit estimates with stored numbers",
  [ML, MB], [("like of each model", ML), ("g", MB)], ["objective differences vs scipy.stats log-pmfs"])

p("C17", "Score and information matrix are derivatives of the penalised objective",
  "For every model class, expression, data set, fixed-parameter mask, constraint and regulariser, the assembled gradient equals the derivative of the penalised log-likelihood with respect to the free parameter entries followed by the constraint values, and the assembled Hessian equals the symmetric matrix of its second derivatives bordered by the constraint gradients, in the order of the stored parameters.",
  ["programs", "inputs", "configurations"], "all model classes x expressions x masks x constraint/regulariser placements (any parameter order) x points",
  "tests/numeric.py exists but no test uses it; only end-of-fit numbers of a dozen fixed models are checked",
  [MB, ML], [("grad_like/hess_like", ML), ("flat_grad/flat_hess/_reshape_array", MB)],
  ["assembled gradient and Hessian vs differences of the objective"])

p("C18", "A successful fit is a stationary constrained maximum, constraints satisfied",
  "When a fit reports success (either method), the free parameters are, within the precision implied by the tolerance, a stationary point of the penalised likelihood on the constraint set, no feasible nearby point has a higher objective, every constraint holds, and with the Newton method from a feasible start the objective is not lower than at the start. For well-posed concave problems started near their maximum the Newton method does succeed, and finds the unique maximiser that an independent optimiser finds.",
  ["inputs", "configurations", "histories"], "all well-posed models, data sets, starting points, constraints, regularisers and both methods",
  "tests compare about a dozen fits with stored numbers from the same code",
  [MB, ML], [("fit, newton_step", MB)], ["get_params() after fit vs an independent optimiser and independently computed scores"])

p("C19", "Fixed parameters stay fixed and parameters keep their order, shape and masks",
  "Entries marked fixed keep bit-for-bit their initial values through any fit while every free entry is optimised, and parameters, standard errors and error/information blocks are reported in the order, shape and mask with which the parameters were added, whatever mixture of scalars, vectors, matrices, masked and unmasked, integer or float, array, list or pandas values is used.",
  ["inputs", "configurations"], "all parameter lists, shapes and masks (none, some, nearly all fixed), value containers",
  "tests fix one entry in two vectors of equal length",
  [MB], [("Param, _reshape_array, _reshape_params, _reshape_matrix, add_param, get_params", MB)],
  ["get_params(), std_error(), error_matrix(), fisher_matrix()"])

p("C20", "A failing fit raises and leaves the model as it was; verbosity is inert",
  "If a fit does not converge within the allowed steps, cannot improve the objective or is asked for an unknown method, it raises the documented exception instead of returning success, and the stored parameters and previously computed error estimates are the ones held before the call, so that a later fit can succeed. A fit whose steps keep improving the objective may use all the steps allowed. Printing progress never changes the outcome of a fit.",
  ["fault_sequences", "histories"], "all failure causes (step limit, singular or degenerate data, errors raised inside the model at any evaluation), methods, verbosity levels, subsequent calls",
  "no test makes a fit fail or enables verbosity",
  [MB], [("fit, ConvergenceError", MB)], ["exception type, parameters and error estimates before/after"])

p("C21", "Reported errors are the inverse of the observed information",
  "After a successful Newton fit the error matrix blocks equal the parameter blocks of the inverse of the negative (constraint-bordered) Hessian of the penalised log-likelihood at the fitted point, and the standard errors are the square roots of their diagonals, with fixed entries carrying no error, with or without constraints and for any parameter shapes.",
  ["inputs", "configurations"], "all well-posed models, constraints, masks, parameter shapes",
  "tests compare vectors of one layout (two vectors and a scalar, one constraint) with stored numbers",
  [MB], [("std_error, error_matrix, fisher_matrix", MB)], ["std_error(), error_matrix() vs numerically differentiated objective"])

p("C22", "Information criteria follow their definitions",
  "The reported Akaike and Bayesian criteria equal 2k/(n-k-1) - 2l and k ln(n)/n - 2l, where l is the objective at the fitted parameters, n the total number of observations and k the number of free parameter entries minus the number of constraints plus the stated number of extra parameters.",
  ["inputs", "configurations"], "all models, masks, constraints, extra-parameter counts and data sizes",
  "tests pin three numbers",
  [MB], [("akaine_information_criterion, bayesian_information_criterion", MB)], ["returned criteria"])

p("C23", "Estimates depend on the data, not on its labelling, grouping or the method used",
  "Relabelling (permuting) feature levels, reordering parameters or features, splitting or merging cells with the same mean structure, rescaling all counts and exposures by a factor, shifting the starting point, and choosing Newton or Broyden lead to the same estimates up to the corresponding permutation (and to standard errors scaled by the square root of the factor), up to convergence tolerance.",
  ["inputs", "configurations"], "all permutations, groupings, factors, starts and methods on well-posed problems",
  "tests run each model on one labelling, one grouping and one start",
  [MB, ML, FO, T], [("fit", MB), ("index placement", FO)], ["get_params()/std_error() of transformed problems"])

p("C24", "Series preparation aggregates exactly the observations of each label combination",
  "For any labelled series (single or multiple index levels, labels of any sortable type, repeated and missing combinations, unused levels, extra axis labels) preparation returns sorted axes that contain every observed and requested label once, and arrays whose cell for a label combination is the transformation of exactly the observations with these labels and zero where there are none, independent of row order.",
  ["inputs"], "all indexed series, transformation sets and extra axes",
  "used by the fits on three data files with complete label sets in one layout",
  [PR], [("prepare_series", PR)], ["returned arrays and axes vs direct grouping"])

p("C25", "Weighted preparation aggregates weights and weighted results per cell",
  "For any multi-indexed frame with weight and result columns, preparation returns sorted axes with every observed and requested label, the exposure array holding the sum of weights of each label combination, and each transformation applied to the weighted results of exactly the rows of that combination, zero where there are none, independent of row order; totals over all cells equal totals over all rows.",
  ["inputs"], "all indexed frames, weight/result columns, transformations and extra axes",
  "used once, by one fit, on one complete data file",
  [PR], [("prepare_dataframe", PR)], ["returned arrays and axes vs direct grouping"])

p("C26", "Count indicator tables mark each observation once in the column of its count",
  "The indicator table of a count series has one row per observation (in order, with its index) and columns 0..size-1, and marks exactly one column per row: the column equal to the count, or the last column for counts of size-1 or more.",
  ["inputs"], "all non-negative count series, indexes and sizes",
  "only used through two fits whose stored results were produced by the same code",
  [PR], [("df_count", PR)], ["returned table"])

p("C27", "Models are isolated: results do not depend on history or on other models",
  "Refitting, fitting other models in between, in the same process or in concurrent threads, sharing expressions or data between models, and failed fits before, do not change what a model computes: the same data, starting parameters and settings always give the same estimates and criteria as in a fresh process.",
  ["histories", "schedules"], "all interleavings of constructions, fits, failures and queries over several models, incl. concurrent threads",
  "every test builds one model and fits it once",
  [MB, FO, FB, T], [("per-instance state", MB), ("expression objects without mutable evaluation state", FO)],
  ["estimates, criteria and evaluations compared with an isolated run"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P))
