"""Writes properties.jsonl (source of the property texts)."""
import json, os
P = []
def p(id, title, st, over, qt, why, files, mech, state, observe):
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=qt), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))

p("C01", "Streaming over batches equals one pass over the whole dataset",
  "For every way of cutting a dataset into consecutive batches, an additive curvature product, its dense matrix, its diagonal and a summed, added, concatenated or sample-mean reduction obtained by streaming the batches equals the result of one pass over the whole dataset: sums add every sample once, means weight every sample equally whatever the batch sizes, concatenation keeps sample order. Streaming twice gives the same answer, wrapping a streamed product with input/output transformations composes them in order and leaves the original untouched, and an empty loader is an error, never a value.",
  ["inputs", "histories"], "all datasets, all partitions into batches (equal, unequal, single-sample, one batch), all reductions, all value structures (arrays, nested containers, scalars), repeated passes",
  "Tests stream one or two fixed partitions with equal batches and compare loosely; the claim ranges over every partition, value structure, reduction and pass history.",
  ["laplax/util/loader.py", "laplax/api.py"],
  [("batch loop folds (result,state) through the reduction", "laplax/util/loader.py process_batches"),
   ("reductions sum/add/concat/online mean", "laplax/util/loader.py reduce_*"),
   ("streamed product and its dense/diagonal/wrap forms", "laplax/util/loader.py DataLoaderMV")],
  [("accumulator", "running sum, concatenation or (count,sum)", "laplax/util/loader.py")],
  ["result of streamed products, dense/diagonal extraction, loader execution; each reduction step"])

p("C02", "The GGN product is the scaled sum of JᵀHJv over the data",
  "For every model, parameter structure, dataset and vector, the Gauss-Newton product equals (total samples / samples used) times the sum over data of Jᵀ H J v, where J is the model Jacobian and H the loss Hessian in the outputs (mean squared error: 2I; softmax cross-entropy: diag(p)-ppᵀ; binary cross-entropy: p(1-p); no loss: I; custom loss: its Hessian), with or without mapping over the batch axis. It is linear in the vector, symmetric, has the structure of the parameters, and exactly one of loss and loss-Hessian must be supplied, anything else being rejected.",
  ["inputs", "configurations"], "all models/parameter trees/datasets/vectors, every loss kind, both batch modes, every scaling pair",
  "Tests check a handful of random vectors on two or three networks with tolerance; most loss/batch/scaling/structure combinations are never built.",
  ["laplax/curv/ggn.py", "laplax/api.py"],
  [("loss Hessian products", "laplax/curv/ggn.py create_loss_hessian_mv"), ("linearize / transpose product", "laplax/curv/ggn.py create_ggn_mv_without_data"), ("scaling factor", "laplax/curv/ggn.py create_ggn_mv")],
  [], ["value returned by the curvature product for a given vector", "error raised for invalid argument combinations"])

p("C03", "The Hessian product is exact and agrees with the GGN where it must",
  "For every loss, model, dataset and vector the Hessian product equals (total samples / samples used) times the exact second derivative of the summed training loss in the parameters applied to the vector, including the curvature of the model itself. It is linear and symmetric, and for models linear in their parameters it equals the Gauss-Newton product of the same loss.",
  ["inputs", "configurations"], "all models, losses, parameter trees, data, vectors, both batch modes",
  "The only test compares a 2-parameter Rosenbrock function; no test uses data, batching, scaling or a classification loss.",
  ["laplax/curv/hessian.py", "laplax/curv/utils.py"],
  [("forward-over-reverse product", "laplax/curv/hessian.py hvp"), ("model+loss composition", "laplax/curv/utils.py concatenate_model_and_loss_fn")],
  [], ["value returned by the Hessian product"])

p("C04", "Dense and diagonal extraction reproduce the linear map exactly",
  "For every linear map given as a function and every input description (a size or a nested container), the dense extraction returns the map's matrix with column j the image of the j-th basis vector, and the diagonal extraction returns exactly that matrix's diagonal in flattening order. The result does not depend on the batch size used internally nor on whether the map may be compiled, a dense matrix given directly yields its own diagonal, and a missing or invalid description is rejected.",
  ["inputs", "configurations"], "all linear maps (square or not, non-symmetric), sizes, container layouts, batch sizes incl. ones that do not divide the size",
  "Tests use one or two symmetric maps; transposition or ordering mistakes are invisible there, and batch sizes are not exercised.",
  ["laplax/util/mv.py", "laplax/util/tree.py"],
  [("basis vectors mapped through the product", "laplax/util/mv.py to_dense, diagonal")], [], ["returned matrix / diagonal / error"])

p("C05", "Parameter flattening is a bijection and container algebra is leafwise",
  "For every nested container of arrays, flattening followed by unflattening is the identity and vice versa, the flat order is leaf order then row-major order everywhere (flatteners, basis vectors, identity blocks, element lookup agree on it), and a function wrapped to act on flat vectors equals the original function conjugated by these maps on the chosen argument. Container arithmetic, statistics, products, slicing and comparison act leaf by leaf exactly like the corresponding operation on the flat vector.",
  ["inputs"], "all container shapes: nested dict/list/tuple, scalar and one-element leaves, several leaves, any argument position",
  "Tests use two fixed containers; a mis-ordering that needs three leaves, a scalar leaf or a later argument position stays invisible.",
  ["laplax/util/flatten.py", "laplax/util/tree.py"],
  [("flatten/unflatten", "laplax/util/flatten.py create_pytree_flattener"), ("wrapping", "laplax/util/flatten.py wrap_function"), ("basis/identity", "laplax/util/tree.py")],
  [], ["returned arrays and containers"])

p("C06", "The posterior covariance inverts the precision and the scale squares to it",
  "For every curvature estimate (dense, diagonal, low-rank), prior precision t, noise variance s and loss scaling l, the posterior covariance product is the inverse of (s*curvature + t*I)/l and the scale product satisfies scale*scaleᵀ = covariance, acting on vectors in the structure of the parameters or on flat vectors when only a size is given. Every combination defaults to s=1 and l=1, the low-rank form agrees with the dense form of the same matrix, and posteriors obtained from the same estimate for different prior arguments, in any order, do not influence each other or the estimate.",
  ["inputs", "histories", "configurations"], "all positive semi-definite curvatures, prior/noise/scaling values, three representations, parameter layouts, sequences of posterior constructions and applications",
  "Tests check a few linear-regression covariances with one prior and never vary noise or scaling nor interleave posteriors.",
  ["laplax/curv/cov.py", "laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/curv/low_rank.py"],
  [("curvature to precision", "*_curvature_to_precision"), ("precision to scale", "full_prec_to_scale and siblings"), ("state to covariance/scale product", "*_posterior_state_to_*"), ("layout wrapping", "laplax/curv/cov.py set_posterior_fn")],
  [("posterior state", "scale factor of the covariance", "laplax/curv/cov.py Posterior")], ["covariance and scale products applied to vectors"])

p("C07", "Low-rank curvature has orthonormal directions and exact Ritz values",
  "For every symmetric positive semi-definite operator, the low-rank estimate's directions of non-zero value are orthonormal and its values are the operator's quadratic forms on them, so that the restriction of the operator to these directions is exactly the returned diagonal; its k-th largest value never exceeds the operator's k-th largest eigenvalue. Once the requested rank reaches the number of distinct eigenvalues the starting vector has a part in (zero included), the Lanczos estimate (reorthogonalised, as by default) reproduces the operator on them exactly - all of it if its non-zero eigenvalues are distinct and the start is generic - and asking for more adds nothing, whatever the starting vector, layout, compilation or dtype options. The block solver returns the leading eigenpairs, as many as it announces.",
  ["inputs", "configurations"], "all PSD operators incl. rank-deficient, repeated eigenvalues, rank above size; start key or vector, compiled or not, arrays or functions, size or container layout",
  "Tests use a few random well-conditioned matrices with rank far below the size, so early exhaustion and most options are never reached.",
  ["laplax/curv/lanczos.py", "laplax/curv/lobpcg.py", "laplax/curv/low_rank.py", "laplax/curv/utils.py"],
  [("Lanczos recursion with reorthogonalisation", "laplax/curv/lanczos.py lanczos_iterations"), ("tridiagonal eigendecomposition", "laplax/curv/lanczos.py compute_eigendecomposition"), ("LOBPCG", "laplax/curv/lobpcg.py")],
  [("Krylov basis", "orthonormal vectors found so far", "laplax/curv/lanczos.py")], ["returned directions, values and scalar"])

p("C08", "The global numeric precision mode survives every call",
  "After any call to a low-rank solver or to any higher-level function that uses one, whether it returns or raises at any point (bad arguments, failing operator, failing loader), the process-wide 64-bit mode is what it was before the call. While solving, the operator is evaluated and the internal calculation runs in the requested precisions, and results come back in the requested or default precision, for every sequence of such calls and user changes of the mode.",
  ["histories", "fault_sequences", "configurations"], "all sequences of solver calls, user mode switches and failures at any operator application",
  "No test reads the mode after a failing call; a leak shows up only in later, unrelated computations.",
  ["laplax/curv/lanczos.py", "laplax/curv/lobpcg.py", "laplax/curv/cov.py"],
  [("mode switch and restore", "laplax/curv/lanczos.py lanczos_lowrank; laplax/curv/lobpcg.py lobpcg_lowrank")],
  [("x64 mode", "process-wide precision flag", "jax configuration")], ["the process-wide flag after each call; dtypes seen by the operator and of results"])

p("C09", "Linearized predictions push the weight Gaussian through the Jacobian",
  "For every model, input and posterior covariance S, the linearized prediction has mean equal to the prediction at the fitted parameters, covariance J S Jᵀ, variance its diagonal in output order, standard deviation its square root, and samples mean + J·(weight perturbation) for exactly the requested number of samples; the posterior kernel between inputs a and b is J(a) S J(b)ᵀ. Each quantity is the same whichever other quantities are requested and in whichever order, for outputs of any shape.",
  ["inputs", "configurations", "histories"], "all models/inputs/posteriors, all lists and orders of requested quantities, all output shapes, batch-size options",
  "Tests check shapes and one-dimensional variances with a single list of requested quantities and an almost-zero posterior variance.",
  ["laplax/eval/pushforward.py"],
  [("Jacobian products around the covariance", "laplax/eval/pushforward.py set_output_mv, lin_*"), ("kernel", "laplax/eval/pushforward.py set_posterior_gp_kernel")],
  [("results/aux dictionaries", "quantities computed so far", "laplax/eval/utils.py finalize_fns")], ["entries of the prediction dictionary; kernel values"])

p("C10", "Ensemble predictions are the statistics of reproducible posterior samples",
  "A weight sample is the fitted parameters plus the posterior scale applied to standard normal noise that is determined by key and index alone: the same key gives the same samples in every call, whatever the precomputation or batch-size options, and different indices or leaves get different noise. The ensemble's mean, variance, standard deviation, covariance and sample list are exactly those statistics of the model outputs at these samples, mutually consistent whichever are requested and in whichever order; for a model linear in its parameters they coincide with the linearized samples of the same key.",
  ["inputs", "configurations", "histories"], "all models, keys, sample counts, precompute/batch options, lists and orders of requested quantities",
  "Tests check shapes and a variance on one configuration; determinism across options, distinctness and order-independence are not tested.",
  ["laplax/eval/pushforward.py", "laplax/util/tree.py", "laplax/util/ops.py"],
  [("sample generator", "laplax/eval/pushforward.py set_get_weight_sample"), ("noise per leaf", "laplax/util/tree.py randn_like, normal_like"), ("ensemble statistics", "laplax/eval/pushforward.py nonlin_*"), ("precomputation", "laplax/util/ops.py precompute_list")],
  [], ["weight samples by index; entries of the prediction dictionary"])

p("C11", "Classification predictives are correct probability vectors",
  "For every logit mean and covariance each predictive (Laplace bridge with or without correction, mean field 0, 1, 2, Monte-Carlo averaging) has the value of its published formula; the bridge, mean-field 0 and Monte-Carlo forms are non-negative and sum to one. Relabelling the classes relabels the output, zero variance gives the softmax of the mean (mean-field and Monte-Carlo), and the predictive uses the mean, variance or covariance of the very prediction it belongs to.",
  ["inputs", "configurations"], "all class counts, means, covariances; all predictive kinds, linearized and ensemble, any prior request order",
  "Only shapes of two predictives are exercised by the tests; the formulas themselves are unchecked.",
  ["laplax/eval/predictives.py", "laplax/eval/pushforward.py"],
  [("predictive formulas", "laplax/eval/predictives.py"), ("dispatch and fallbacks", "laplax/eval/pushforward.py special_pred_act, *_mc_pred_act")],
  [], ["returned probability vectors"])

p("C12", "Grid search returns the first best of exactly the points it may evaluate",
  "The search evaluates the grid points in order, each once, and stops only after the last point, after the allowed number of evaluations, or once the result has strictly increased the given number of times in a row; it returns the first evaluated point whose result is smallest. A point whose evaluation is undefined (not a number) or raises a value error counts as infinitely bad and never aborts the search, while other errors propagate; the default grid is logarithmic with both end points included.",
  ["histories", "fault_sequences", "configurations"], "all sequences of objective outcomes incl. failures, all patience and iteration limits, all grids",
  "Tests run one smooth objective; stopping, ties, failures and limits are reached only by particular outcome histories.",
  ["laplax/eval/calibrate.py"],
  [("search loop with patience counter", "laplax/eval/calibrate.py grid_search"), ("grid construction", "laplax/eval/calibrate.py optimize_prior_prec")],
  [("evaluated results", "list of results so far", "grid_search"), ("increase counter", "consecutive strict increases", "grid_search")],
  ["sequence of objective calls, returned prior precision"])

p("C13", "Calibration minimises the chosen objective with the chosen method",
  "For every supported combination of objective, predictive and pushforward kind, calibration evaluates that objective, as defined on the calibration data by the predictive distribution for each candidate prior, over the configured grid and returns a prior whose objective is the minimum over the evaluated candidates, together with a predictive constructor that reproduces it. Unsupported combinations, unknown names and malformed data are rejected with a value error, names are case-insensitive, and a registered method receives the same objective, data and options.",
  ["configurations", "inputs"], "all objective x predictive x pushforward x method x jit combinations, all data forms",
  "Tests run a few combinations end to end and only look at whether a number comes back.",
  ["laplax/api.py", "laplax/eval/calibrate.py"],
  [("objective construction", "laplax/api.py _build_calibration_objective"), ("dispatch", "laplax/api.py calibration"), ("dataset objective", "laplax/eval/calibrate.py evaluate_for_given_prior_arguments")],
  [("calibration method table", "name to method", "laplax/api.py calibration_options")], ["returned prior arguments, objective calls received by a method, errors"])

p("C14", "Evaluation reports every metric once per data point, in data order",
  "For every dataset, given whole or as any stream of batches (including one-shot iterators), evaluation returns for each requested metric the values of that metric on each data point's own prediction and target, in order, none dropped or repeated, then reduced by the given reduction. The requested metric collection, the data and the library defaults are left unmodified, so repeating or interleaving evaluations gives the same answer.",
  ["inputs", "histories", "configurations"], "all datasets, batchings, metric collections (list, mapping, both, defaults), reductions, sequences of evaluations",
  "Tests evaluate one dataset once with one metric list; batching, repetition and combined collections are not covered.",
  ["laplax/eval/utils.py", "laplax/api.py"],
  [("dataset and generator evaluation", "laplax/eval/utils.py evaluate_metrics_on_dataset, evaluate_metrics_on_generator"), ("entry point", "laplax/api.py evaluation")],
  [("metric list", "functions applied to each prediction", "laplax/eval/utils.py")], ["returned metric dictionary; caller's objects afterwards"])

p("C15", "Metrics equal their published definitions",
  "For all predictions and targets, accuracy (every requested k, index or one-hot targets), correctness, cross-entropy, Brier score, binned calibration statistics with expected and maximum calibration error, chi-squared, root mean squared error, Gaussian negative log-likelihood and CRPS return the value of their mathematical definition, with averaging or summation as requested. They do not depend on the order of the samples, and mismatched shapes are rejected where documented.",
  ["inputs", "configurations"], "all prediction/target arrays, k tuples, bin counts (incl. empty bins and boundary confidences), averaging options",
  "No test asserts any metric's value except through end-to-end runs.",
  ["laplax/eval/metrics.py"],
  [("classification metrics", "laplax/eval/metrics.py"), ("regression metrics", "laplax/eval/metrics.py")], [], ["returned metric values"])

p("C16", "Registering a method adds exactly that method",
  "Registering a curvature method under a name makes every stage (estimation, precision, posterior state, scale, covariance, marginal likelihood) use the supplied function, or else the one its default had at that moment, and changes nothing for any other name. Without a default, a registration missing any stage is rejected naming the missing stages and leaves everything unchanged; a registered calibration method is what calibration then calls under that name.",
  ["histories", "configurations"], "all sequences of (re-)registrations with any subset of stages and any default, interleaved with use",
  "Tests register one method once; inheritance chains, overwriting and failed registrations are never exercised.",
  ["laplax/register.py", "laplax/curv/cov.py", "laplax/eval/likelihood.py"],
  [("registration", "laplax/register.py"), ("stage lookup", "laplax/curv/cov.py")],
  [("stage tables", "name to function per stage", "laplax/curv/cov.py, laplax/eval/likelihood.py")], ["which functions run when a name is used; errors"])

p("C17", "The marginal likelihood is the Laplace evidence, in every representation",
  "For every curvature, prior precision, model, loss and data the marginal log-likelihood equals the log joint at the fitted parameters plus P/2*log(2*pi) minus half the log-determinant of the posterior precision, with the log joint being minus half the summed loss plus the Gaussian log prior. Dense, diagonal and low-rank representations of the same precision give the same value.",
  ["inputs", "configurations"], "all PSD curvatures, priors, noise and scaling values, losses, batch modes, parameter containers, three representations",
  "No test checks a value of the marginal likelihood.",
  ["laplax/eval/likelihood.py", "laplax/curv/utils.py"],
  [("joint", "laplax/eval/likelihood.py joint_log_likelihood"), ("log-determinants", "laplax/eval/likelihood.py *_marginal_log_likelihood")], [], ["returned value"])

p("C18", "Result functions run once, in order, on the right entries",
  "A list of result functions runs each function exactly once in list order, each seeing the entries left by its predecessors; an applied function receives exactly the entries it was mapped to (results before auxiliary ones), its value is stored under its given or own name in the chosen dictionary, and nothing else changes. Transfers copy exactly the named entries in the named direction, and unknown keys, wrong counts of names, non-callables and unknown destinations are rejected.",
  ["histories", "configurations", "inputs"], "all sequences of apply/transfer functions over dictionaries, all name/field/mapping choices, all invalid choices",
  "Tests check one apply and one transfer; precedence, composition and error cases are untested.",
  ["laplax/eval/utils.py"],
  [("composition", "laplax/eval/utils.py finalize_fns"), ("application", "laplax/eval/utils.py apply_fns"), ("transfer", "laplax/eval/utils.py transfer_entry")],
  [("results and auxiliary dictionaries", "entries so far", "laplax/eval/utils.py")], ["both dictionaries after each function, calls received, errors"])

p("C19", "One-call Laplace fitting equals the composition of its parts for all data forms",
  "For every data form (pair, mapping, re-iterable stream of pairs or mappings, custom transformation), curvature kind and batching, the one-call fit returns the curvature estimate and posterior that one gets by summing the Gauss-Newton product over all samples, scaled by total/used sample counts, estimating and conditioning it step by step. Malformed batches and unknown names are rejected with a value error, and the caller's data, parameters and options are unchanged.",
  ["inputs", "configurations"], "all data forms, batch partitions, curvature kinds, scalings, compile options",
  "Tests call the one-call interface with one data form and check downstream scores only.",
  ["laplax/api.py", "laplax/curv/cov.py", "laplax/util/loader.py"],
  [("data dispatch", "laplax/api.py _maybe_wrap_loader_or_batch"), ("fit", "laplax/api.py laplace, GGN")], [], ["curvature estimate, posterior products, errors"])
p("C20", "Derivatives in the prior arguments are the true derivatives",
  "For every curvature (full, diagonal, low-rank; estimated or given; of any rank), model and data, the automatic derivative — forward or reverse, compiled or not, of the arguments or of their logarithms — of the posterior covariance and scale products, of the pushforward predictions and of the marginal likelihood and calibration objectives (including the objective handed to a registered calibration method) with respect to the prior precision, sigma_squared, the loss scaling factor and the likelihood scale is the exact derivative of that quantity, wherever the quantity is differentiable. Gradient-based calibration therefore optimises the objective it evaluates.",
  ["inputs", "configurations"], "curvatures with repeated and zero eigenvalues, every representation, differentiation mode and combination of arguments",
  "Tests evaluate values only; a value-preserving change (another factorisation, a detached normaliser) can leave the derivative wrong or undefined.",
  ["laplax/curv", "laplax/eval/likelihood.py", "laplax/eval/pushforward.py", "laplax/api.py"],
  [("posterior", "laplax/curv/full.py, diagonal.py, low_rank.py *_to_precision, *_prec_to_posterior_state"), ("evidence", "laplax/eval/likelihood.py marginal_log_likelihood"), ("objectives", "laplax/api.py calibration, laplax/eval/calibrate.py evaluate_for_given_prior_arguments")], [], ["derivatives of covariance products, predictions, objectives"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
