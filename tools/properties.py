"""Source of /verif/properties.jsonl:  python3 tools/properties.py > properties.jsonl"""

import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
	P.append({
		"id": id, "title": title, "statement": statement,
		"quantifier": {"over": over, "text": text}, "why_tests_cant": why,
		"anchors": {
			"files": files,
			"state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
			"mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
			"observe_at": list(observe), "hook_needed": hook,
		},
	})


EST, STATS, TRACE, DIAG = "src/primate/estimators.py", "src/primate/stats.py", "src/primate/trace.py", "src/primate/diagonal.py"
LAN, LANH, OPS, RND = "src/primate/lanczos.py", "src/primate/include/lanczos.h", "src/primate/operators.py", "src/primate/random.py"
TRI, TQLI, INT, FTTR, SPC = "src/primate/tridiag.py", "src/primate/tqli.py", "src/primate/integrate.py", "src/primate/fttr.py", "src/primate/special.py"
LINALG, TYP = "src/primate/linalg.py", "src/primate/typing.py"

prop("C01", "Running moments equal the moments of everything observed",
	"However a stream of observations is cut into (non-empty) batches and whatever array form each batch has, the running mean, and the running covariance for every number of removed degrees of freedom, equal the mean and covariance of all observations so far up to rounding proportional to their spread. With no observation the mean is nan, and with too few observations the covariance is infinite.",
	["histories", "inputs"], "every sequence of update and read calls on Mean, Covariance and MeanEstimator, every batching, dimension, offset, scale and numeric dtype",
	"Tests feed one normally distributed array in two or three batchings; the merge rule has to hold for every batching, offset and dimension.",
	[STATS, EST], [("batch merge rule", STATS + " Mean.update, Covariance.update")],
	[("mu, n, S", "running mean, count, scatter", STATS + " Mean/Covariance")], ["Mean()", "Covariance(ddof)", "MeanEstimator.mean"])
prop("C02", "Estimators keep true counts, deltas and records, and hand out values",
	"An estimator's length is the number of observations it received, its delta is the change its last update made to the estimate, and with recording on its values are exactly the observations in order (otherwise it keeps none). A value once returned or recorded is not changed by later updates or by the caller overwriting the array it passed in, a refused update changes nothing, and distinct estimators never influence each other.",
	["histories"], "every interleaving of construction, updates (accepted and refused), reads and caller-side overwrites over several estimators",
	"The tests read each estimator once at the end of a fixed sequence; aliasing and bookkeeping errors need a particular order of calls.",
	[EST, STATS], [("bookkeeping in update", EST + " MeanEstimator.update")], [("n_samples, delta, values", "bookkeeping of an estimator", EST + " MeanEstimator")], ["len(est)", "est.delta", "est.values", "est.estimate"])
prop("C03", "Control-variate estimates equal the regression-adjusted mean",
	"With given coefficients, the estimate after any sequence of updates is the sample mean minus the coefficients times the deviation of the control means from their known expectations; without given coefficients, they are the least-squares coefficients (inverse control covariance times cross-covariance) of everything observed as soon as the control covariance is invertible, and while there are no more samples than controls the estimate is the mean of the samples. The estimate is exact when the samples are an affine function of the controls, the length counts the samples and delta is the last change.",
	["histories", "inputs"], "every batching of every sample stream with one or more control variables whose covariance is invertible",
	"The one test uses a single control, one batch size and a statistical comparison.",
	[EST, STATS], [("coefficient update", EST + " ControlVariableEstimator.update"), ("estimate", EST + " ControlVariableEstimator.estimate")],
	[("alpha", "control coefficients", EST), ("cov", "joint running moments", EST)], ["ControlVariableEstimator.estimate", "alpha", "values", "len"])
prop("C04", "Count and tolerance criteria decide exactly what they promise",
	"A count criterion is satisfied exactly when the estimator holds at least the given number of samples. A tolerance criterion is satisfied exactly when the norm of the last change of the estimate is below the absolute tolerance, or below the relative tolerance times the norm of the estimate, for each supported norm order; an estimator without samples never satisfies it.",
	["histories", "inputs"], "every estimator history, every tolerance pair, norm order 1, 2, infinity, scalar and vector estimates",
	"Tests check one decision per criterion, far away from the thresholds.",
	[EST], [("CountCriterion.__call__", EST), ("ToleranceCriterion.__call__", EST)], (), ["criterion(estimator)"])
prop("C05", "The confidence criterion applies the t/normal confidence rule",
	"With at least three samples the confidence criterion is satisfied exactly when score times standard error is at most the absolute tolerance or the standard error relative to the estimate is at most the relative tolerance, where the score is the two-sided Student-t quantile with n-1 degrees of freedom below thirty samples and the normal quantile from thirty on; with fewer samples it never is. Its message reports that same margin.",
	["histories", "inputs"], "every sample history, sample count across the switch at thirty, confidence level and tolerance pair",
	"The test runs one random sequence and cannot distinguish a wrong quantile, degree of freedom or off-by-one at the switch.",
	[EST, STATS], [("ConfidenceCriterion._error", EST)], [("t_scores, z", "tabulated quantiles", EST)], ["criterion(estimator)", "criterion.message(estimator)"])
prop("C06", "Criteria compose as Boolean formulas, are pure and resolve by name",
	"A criterion built with or, and and not is satisfied exactly when the Boolean formula over its parts is, at every moment of the estimator's history and however often it is asked; asking never changes the estimator, the parts or later answers. Resolving a criterion by name (any letter case) yields the named criterion with exactly those keyword arguments it accepts, and a criterion object resolves to itself.",
	["histories", "programs"], "every formula over the basic criteria and every estimator history",
	"Tests evaluate three formulas at one point in time.",
	[EST, TYP], [("operator overloads", EST + " ConvergenceCriterion"), ("convergence_criterion", EST), ("restrict_kwargs", TYP)], (), ["criterion(estimator)", "convergence_criterion(name, **kwargs)"])
prop("C07", "The knee criterion detects the knee of the running-mean curve",
	"With recorded values, the knee criterion is satisfied exactly when the normalized curve of accumulated absolute changes of the running sample mean rises above its chord by more than the sensitivity divided by the number of intervals (away from that threshold by more than rounding), and its end lies below the peak by more than that amount. Without recording or with fewer than three values it is not satisfied.",
	["histories", "inputs"], "every recorded scalar sequence and sensitivity",
	"The test only runs it once on a random stream with no expected outcome.",
	[EST], [("KneeCriterion.__call__", EST)], (), ["criterion(estimator)"])
prop("C08", "Confidence intervals are the t or normal interval of the sample",
	"The interval is the sample mean plus and minus the quantile (Student-t with n-1 degrees of freedom, or normal) times the sample standard deviation over the square root of n. It is therefore centred on the mean, equivariant under shifting and scaling, invariant under reordering, and nested in the confidence level; unknown distributions and levels outside [0, 1] are refused.",
	["inputs"], "every sample with at least two values, every confidence level and both distributions",
	"The test compares a single sample against SciPy.",
	[STATS], [("confidence_interval", STATS)], (), ["confidence_interval(a, confidence, sdist)"])
prop("C09", "hutch consumes samples exactly until its criterion holds",
	"With full output or a callback hutch draws batches of exactly the requested size (otherwise it may draw single vectors) while and only while the criterion is not satisfied, feeds the quadratic form of every drawn vector to the estimator in order, and returns their mean. The callback runs once after every batch with the then-current estimate, sample count, estimator and criterion, and the full result agrees with the returned estimate.",
	["histories", "configurations"], "every criterion, batch size, operator, callback and vector stream",
	"Tests only check that the final value is near the trace and that a callback is called.",
	[TRACE, EST], [("Monte-Carlo loop", TRACE + " hutch")], [("estimator", "samples so far", TRACE)], ["hutch return value", "EstimatorResult", "pdf callable", "callback"])
prop("C10", "Trace samples do not depend on batching or operator representation",
	"For one stream of random vectors the sequence of samples, hence the estimate at every common sample count, is the same up to rounding for every batch size, with or without full output or a callback, and for every representation of the same matrix (array in either memory order, sparse, linear operator, object with only a matmul). The same holds for the Hutch++, XTrace and diagonal estimates.",
	["configurations", "inputs"], "every pair of configurations of one estimation problem",
	"Tests never compare two configurations on the same vectors.",
	[TRACE, DIAG, OPS], [("quadratic form", TRACE + " hutch"), ("operator protocol", OPS + " is_valid_operator")], (), ["estimator.values", "estimates"])
prop("C11", "The estimators are exactly unbiased over random signs",
	"Averaged over all equally likely sign vectors, the single-sample trace estimate equals the trace exactly, the single-sample diagonal estimate equals the diagonal, and given any sketch of full rank the Hutch++ estimate averages to the trace over its residual vectors; the mean squared deviation of the single-sample trace estimate is twice the sum of the squared off-diagonal entries of the (symmetric part of the) matrix; and the sign vectors drawn are equally likely.",
	["inputs", "schedules"], "every square matrix and the complete space of sign vectors",
	"Tests take one random run and a loose tolerance; a bias below it is invisible.",
	[TRACE, DIAG], [("isotropic quadratic form", TRACE + " hutch, hutchpp"), ("ratio estimate", DIAG + " diag")], (), ["hutch", "hutchpp", "diag"])
prop("C12", "Hutch++ equals sketched trace plus deflated residual trace",
	"The Hutch++ estimate is the trace of the matrix restricted to the sketched range plus the mean quadratic form of the residual vectors projected off that range, in both evaluation modes. It equals the trace exactly, for any residual vectors, when the sketched range contains the range of the matrix; the full result lists exactly the summed samples and the number of vectors used.",
	["inputs", "configurations"], "every square matrix, sketch size, mode and choice of random vectors for which the sketch has full rank or captures the range",
	"Tests compare one random matrix with a loose tolerance.",
	[TRACE], [("hutchpp", TRACE)], (), ["hutchpp return value", "EstimatorResult"])
prop("C13", "XTrace is the average of leave-one-out Hutch++ estimates",
	"The XTrace samples are, for each test vector, the trace of the matrix restricted to the range sketched by all other test vectors plus the quadratic form of that vector projected off this range (normalized for the distribution named sphere), and the estimate is their mean, whatever the batching. At most as many vectors as the dimension are used, with all of them the estimate is the trace exactly for spherical vectors, the loop stops at the first batch after which the criterion or this budget is met, and each callback sees the current estimate.",
	["inputs", "histories", "configurations"], "every symmetric matrix, batch size, count or confidence criterion and choice of test vectors whose images under the matrix are linearly independent",
	"Tests only check closeness of the final value to the trace.",
	[TRACE, LINALG], [("rank-one downdates", TRACE + " _xtrace"), ("QR insertion and inverse update", TRACE + " xtrace"), ("update_trinv", LINALG)], (), ["xtrace return value", "EstimatorResult", "callback"])
prop("C14", "The diagonal estimate averages the running Hadamard ratios",
	"After k vectors the running ratio is the accumulated elementwise product of vectors and images divided by the accumulated squared vectors, and the diagonal estimate is the mean of the running ratios; it is exact for diagonal matrices. The loop stops at the first iteration after which the criterion holds, every vector is used exactly once, and the callback and the full result see the current estimate and count.",
	["histories", "inputs"], "every matrix, stream of vectors without zero entries, count and tolerance criterion",
	"Tests compare a final random estimate with a loose tolerance.",
	[DIAG, EST], [("diag loop", DIAG + " diag")], [("numer, denom", "accumulated products", DIAG)], ["diag return value", "EstimatorResult", "callback"])
prop("C15", "XDiag equals its leave-one-out definition",
	"With k test vectors, XDiag is the average over them of the diagonal of the matrix projected on the range sketched by the other vectors plus the elementwise product of the remaining vector with its image under the matrix projected off that range. The budget m gives half as many (rounded up, at most the dimension) test vectors, and all vectors are used without a budget.",
	["inputs"], "every symmetric matrix, budget and choice of test vectors whose images under the matrix are linearly independent",
	"Tests compare one random matrix at full budget.",
	[DIAG], [("xdiag", DIAG)], (), ["xdiag return value"])
prop("C16", "Lanczos returns the Jacobi matrix of the start vector's measure",
	"For a symmetric operator and start vector, the returned diagonal and (squared) off-diagonal entries are the recurrence coefficients of the Krylov space: with them the first 2k-1 moments of the Jacobi matrix equal the moments of the operator at the normalized start vector. This holds for every degree up to the grade of the start vector, every reorthogonalization setting, both precisions, every operator representation (including operators whose products are views or of another precision), and in the sparse output form.",
	["inputs", "configurations"], "every symmetric operator, start vector, degree, orth and representation",
	"Tests run one or two random matrices and check eigenvalues loosely.",
	[LAN, LANH, "src/primate/_lanczos.cpp", "src/primate/include/pylinop.h", "src/primate/include/eigen_operators.h"], [("three-term recurrence", LANH + " lanczos_recurrence"), ("parameter handling", LAN + " lanczos")], (), ["lanczos return value"])
prop("C17", "Lanczos bases are orthonormal and nothing stale enters them",
	"The returned basis is orthonormal with the normalized start vector first, and the operator maps it to itself times the Jacobi matrix plus a last-column residual, whatever reorthogonalization is requested and whatever the caller's workspace arrays held before. When the Krylov space is exhausted before the requested degree, the entries up to the grade are those of the exact expansion, the coupling there is (numerically) zero and no nan appears.",
	["inputs", "histories", "configurations"], "every operator, start vector, degree, orth, ring-buffer size and prior workspace content",
	"Tests check orthogonality for one random matrix with fresh workspaces.",
	[LAN, LANH], [("cyclic buffer of Lanczos vectors", LANH + " lanczos_recurrence"), ("orth_vector", LANH)], [("Q, alpha, beta", "workspace", LAN)], ["lanczos(return_basis=True)", "workspace arrays"])
prop("C18", "Matrix functions act as f(A): exact for polynomials and full degree",
	"Applying the matrix-function operator to a vector gives f(A)v, exactly up to rounding when f is a polynomial of degree below the Krylov degree or when the Krylov space is exhausted, and the quadratic form gives v'f(A)v, exact for polynomials of degree up to twice the Krylov degree minus one. Several vectors at once give the columns' results, the operator is symmetric at full degree, and the degree is capped by the dimension.",
	["inputs", "configurations"], "every symmetric matrix, spectral function, degree, reorthogonalization and vector",
	"Tests cover the identity and a few random matrices.",
	[OPS, LANH, INT], [("Lanczos function application", OPS + " MatrixFunction._matvec, quad")], [("_Q, _alpha, _beta", "reused workspace", OPS)], ["MatrixFunction @ v", "MatrixFunction.quad", "matrix_function"])
prop("C19", "A matrix-function operator has no memory",
	"The result of applying a matrix-function operator, or of its quadratic form, depends only on the operator, the current function and the argument: after any history of applications, quadratic forms, function changes and early breakdowns it equals the result of a freshly built operator, earlier results are left intact, and arguments are not modified.",
	["histories"], "every interleaving of matvec, quad, multi-vector application and function change on one or several operators",
	"Tests use each operator once or for similar calls, so reused workspace cannot show.",
	[OPS, LANH], [("workspace reset", OPS + " MatrixFunction._matvec, quad")], [("_Q, _alpha, _beta, _nodes, _weights", "reused workspace", OPS)], ["MatrixFunction @ v", "MatrixFunction.quad"])
prop("C20", "Tridiagonal eigensolvers return the eigenpairs of the matrix given",
	"Every method of the symmetric tridiagonal eigensolvers returns values and orthonormal vectors that reproduce the given matrix (residual and orthogonality within rounding), equivalently values whose power sums equal the traces of the matrix powers; eigenvalue-only and eigenvector calls agree, both accepted forms of the off-diagonal agree, and split (zero off-diagonal) matrices are included. Inputs are not modified.",
	["inputs"], "every symmetric tridiagonal matrix, method and off-diagonal form",
	"Tests compare a few random matrices with LAPACK with a loose tolerance.",
	[TRI, TQLI], [("implicit QL with shifts", TQLI + " tqli"), ("dispatch", TRI)], (), ["eigh_tridiag", "eigvalsh_tridiag"])
prop("C21", "Gaussian quadrature rules integrate polynomials exactly",
	"For a Jacobi matrix and degree k, the rule has the k eigenvalues of the leading block as nodes and positive weights summing to one, and integrates every power up to 2k-1 exactly (the first diagonal entry of that power of the leading block), with either method of computing the weights (non-zero off-diagonals for the recurrence method). Supplied output arrays receive exactly the returned rule, and both off-diagonal forms agree.",
	["inputs", "configurations"], "every Jacobi matrix, degree and method",
	"Tests compare one Chebyshev-like example and random matrices between the two methods.",
	[INT, FTTR, TRI], [("Golub-Welsch", INT), ("forward three-term recurrence", FTTR)], (), ["quadrature return value", "nodes, weights"])
prop("C22", "Rayleigh-Ritz values are those of the projected operator",
	"For degree two and above, the Ritz values are the eigenvalues of the operator projected on the Krylov space, lie within the spectrum, and equal the whole spectrum for a start vector of full grade at full degree. With eigenvectors and basis requested, the products of basis and Ritz vectors are orthonormal and satisfy the Galerkin condition.",
	["inputs", "configurations"], "every symmetric operator, start vector, degree and output selection",
	"The test covers one random matrix at full degree.",
	[LAN, TRI], [("rayleigh_ritz", LAN)], (), ["rayleigh_ritz return value"])
prop("C23", "Isotropic vectors have the promised form in every layout",
	"Sign vectors contain only plus and minus one, spherical vectors have norm equal to the square root of their dimension in every column, normal vectors are standard normal; names are synonyms exactly as documented. Generated arrays have the requested shape; filling an existing array (either precision, contiguous in either order, also a view into a larger array) changes exactly that array and returns nothing, and arrays that cannot be filled in place are refused untouched. Drawing columns in batches from one generator gives the same columns as drawing them at once, and generated samples are isotropic: empirical second moments match the identity.",
	["inputs", "configurations"], "every distribution, shape, dtype, memory layout and generator state",
	"Tests look at the values of one shape per distribution.",
	[RND], [("in-place samplers", RND + " _rademacher_inplace, _sphere_inplace, _normal_inplace")], (), ["isotropic return value", "out array"])
prop("C24", "Threaded filling is complete and independent of the schedule",
	"Whatever the order and interleaving in which the worker tasks run, fill writes every column exactly once with a valid sample of the distribution, returns only after all of them are written, and the same seed, shape and thread count give the same array on every schedule. Successive fills continue the streams, and one thread reproduces the plain generator.",
	["schedules", "configurations"], "every task order and interleaving, shape, thread count (also more threads than columns, and non-dividing) and distribution",
	"The test fills a large array under one uncontrolled schedule and compares run times.",
	[RND], [("column blocks per generator", RND + " Isotropic.fill")], [("values, step, _random_generators", "blocks and streams", RND)], ["Isotropic.values"])
prop("C25", "Generated matrices are symmetric with exactly the prescribed spectrum",
	"The random symmetric generators return symmetric matrices whose eigenvalues are the prescribed ones with multiplicity (power sums of the eigenvalues equal the traces of the powers), clipped at zero when positive definiteness is requested; without prescribed eigenvalues they lie in the documented interval. The orthogonal ensemble is rotation invariant: over many draws the first and second moments of its entries are those of a uniformly distributed eigenbasis. Unknown entry distributions and wrong numbers of eigenvalues are refused.",
	["inputs", "configurations"], "every size, prescribed spectrum (repeated, zero, negative, unsorted), distribution, seed",
	"Tests check one random spectrum each.",
	[RND], [("symmetric, haar", RND)], (), ["symmetric return value", "haar return value"])
prop("C26", "Incremental triangular inverses stay inverses",
	"Appending columns one at a time to an upper-triangular matrix, the updated inverse times the current matrix is the identity at every step, from the empty matrix on, is upper triangular, and leaves previous inverses and arguments unchanged; shapes or dtypes that do not fit are refused.",
	["histories", "inputs"], "every sequence of columns with non-zero diagonal",
	"The test appends to one random matrix once.",
	[LINALG], [("update_trinv", LINALG)], (), ["update_trinv return value"])
prop("C27", "Built-in spectral functions compute the functions they name",
	"Each built-in function, resolved by name with its parameters or called directly, evaluates pointwise to its mathematical definition (identity, absolute value, square root, guarded logarithm, reciprocal, exponential with rate, cubic smooth step between its bounds, the odd soft-sign polynomial saturated outside [-1, 1], and the numerical-rank step of the magnitude) for arrays of any length, and is the same in factory and direct form. Callables resolve to themselves, no name to the identity, and unknown names are refused.",
	["inputs"], "every function, parameter and argument array",
	"Tests cover soft-sign at a few points.",
	[SPC], [("param_callable and factories", SPC)], (), ["param_callable(name, **kw)(x)", "softsign, smoothstep, exp, step"])
prop("C28", "Toeplitz operators multiply like the Toeplitz matrix",
	"The matrix-free Toeplitz operator with given first column and optional first row multiplies any vector or matrix argument exactly (up to rounding) like the dense Toeplitz matrix, after any history of earlier products, without changing its arguments or earlier results. Vectors of the wrong length are refused.",
	["histories", "inputs"], "every first column and row, vector sequence and dtype",
	"No test covers the operator.",
	[OPS], [("circulant embedding", OPS + " Toeplitz")], [("_z, _dfft", "workspace and symbol", OPS)], ["Toeplitz @ x"])
prop("C29", "Normalized operators have their spectrum in the unit interval",
	"Normalizing a symmetric operator yields the affine image (A + aI)/(2a), where a is its eigenvalue of largest magnitude, so eigenvectors are kept, eigenvalues of A are mapped affinely into [-1, 1], and the dominant one goes to one.",
	["inputs", "configurations"], "every symmetric operator with a dominant eigenvalue of either sign, in each representation",
	"The test checks one positive random matrix.",
	[OPS], [("normalize_unit", OPS)], (), ["normalize_unit(A) @ x"])
prop("C30", "Unusable arguments are refused, usable ones are answered",
	"hutch, hutchpp, diag, lanczos and rayleigh_ritz accept exactly the square two-dimensional operators with a matrix product in single or double precision; xtrace, xdiag, MatrixFunction and normalize_unit need a square two-dimensional operator with a matrix product; everything else is refused with an exception - never a crash, a hang or a result - and so are non-positive Lanczos and quadrature degrees, vectors, outputs and spectra whose lengths do not fit, batches below one, and unknown distributions, criteria, methods and function names. The linear-operator test answers every object with true or false, and operators of size zero have trace zero.",
	["inputs"], "every combination of entry point and argument class",
	"Tests only pass valid arguments.",
	[OPS, LAN, TRACE, DIAG, RND, EST, INT, TRI], [("is_valid_operator, is_linear_op", OPS), ("assertions at entry points", LAN)], (), ["raised exceptions", "is_linear_op"])
prop("C31", "Calls leave their inputs alone and return independent results",
	"No entry point modifies the matrices, vectors, spectra, tridiagonal entries or other arrays passed as inputs, and no result shares memory with an input, with a result of another call, or with the state of an object that later calls change; only arrays documented as outputs are written. What callbacks are given, and the arrays a caller's own function or distribution returns, are left as they were.",
	["histories", "inputs"], "every sequence of calls on shared arguments, including read-only, strided and Fortran-ordered inputs",
	"Tests never look at arguments after a call.",
	[EST, STATS, TRACE, DIAG, LAN, OPS, TRI, INT, LINALG, RND], [("copies at the entry points", LAN), ("workspace handling", OPS)], (), ["arguments and earlier results after each call"])
prop("C32", "Seeds determine results and global randomness is untouched",
	"Every randomized entry point called twice with the same seed and arguments returns identical results, whatever ran in between; a generator passed as the seed is consumed, so that repeated calls continue its stream; different seeds differ; and no call reads or changes NumPy's or Python's global random state.",
	["histories", "configurations"], "every interleaving of randomized calls with integer seeds and shared generators",
	"Tests fix one generator per test and never repeat a call.",
	[TRACE, DIAG, LAN, RND], [("np.random.default_rng(seed)", RND)], (), ["return values", "global random state"])

prop("C33", "Messages and full results describe the computation they belong to",
	"The message of a count, tolerance, confidence or knee criterion can be read at any moment, with no samples too, and shows the estimate and the number of samples the estimator has at that moment, to the decimals it prints: long estimates by their first and last entries, the tolerance message the tolerances, the norm of the last change and of the estimate, the confidence message its level and margin of error (infinite below three samples), the knee message its sensitivity. Reading it changes nothing. The full result of hutch, diag and xtrace carries the returned estimate, the estimator and criterion in use, the number of samples, and the message of the final estimator; as seen by callbacks it grows batch by batch and describes the estimator at every step; it unpacks into its six parts in order, and notes made on one result never show in another.",
	["histories", "inputs"], "every history of updates and messages of every kind of estimator, including one supplied by the user, and every full estimation",
	"Tests never read a message and look at few fields of results.",
	[EST, TRACE, DIAG], [("criteria messages", EST + " message"), ("arr_summary", EST), ("EstimatorResult", EST), ("estimation loops", TRACE)], [("result", "published result", TRACE)], ["criterion.message(estimator)", "EstimatorResult fields", "callback(result)"])

prop("C34", "Operators built from operators stand for the matrices they denote",
	"Toeplitz operators, normalized operators and matrix functions, and their sums, products, multiples and adjoints, nested to any depth, stand for the matrices they denote in every computation: applied to vectors or blocks, as the operator of a trace or diagonal estimate, of an expansion or of a spectrum, they give what that matrix would give. Estimating the trace of a matrix function of Krylov degree k averages, over all sign vectors, to the exact trace of the function of the matrix for every polynomial of degree below 2k, and at full degree for every function.",
	["inputs", "configurations"], "every term built from the operators of the library and SciPy's operator algebra",
	"Tests use matrices and one matrix function at a time.",
	[OPS, TRACE, DIAG, LAN], [("MatrixFunction, Toeplitz, normalize_unit", OPS), ("estimation loops", TRACE)], [("Krylov workspace", OPS)], ["(composed operator) @ x", "hutch, diag, hutchpp, xtrace, lanczos, rayleigh_ritz of a composed operator"])
prop("C35", "Computations in progress do not disturb one another",
	"Computations on objects of their own - estimations, Krylov expansions, matrix functions, Toeplitz products, samplers, estimators, quadratures, triangular inverses - that are in progress at the same time, in several threads or one inside a pause of another, ask for the same operator products, draws and function evaluations in the same order and return bit for bit what they return alone, however their steps interleave; matrices, functions and criteria may be shared.",
	["schedules"], "every interleaving at operator products, draws, function evaluations, callbacks and between calls",
	"Tests run one computation at a time.",
	[LAN, OPS, TRACE, DIAG, RND, EST, INT, LINALG], [("workspaces", OPS), ("Lanczos basis storage", LAN)], [("workspaces of calls", OPS)], ["results of interleaved calls"])

prop("C36", "Operators are used through products, and no more than promised",
	"Every computation uses its operator only through products with finite blocks of vectors of its dimension, asked for by the calling thread while the call lasts: an operator without entries, and without an array behind it, will do. hutch and diag make one product per sample, and none ahead of the samples they report; xtrace makes two per test vector, hutchpp three per column of its sketch, xdiag two per test vector. lanczos and rayleigh_ritz make at most as many products as steps, never more than the dimension, and none once the Krylov space is exhausted; a matrix function makes none when it is built, configured or inspected, and at most its degree for each vector it is applied to; a normalized operator makes one.",
	["inputs", "histories"], "every history of calls on one operator, with every criterion, budget, batch size, degree and start vector",
	"Tests never count products.",
	[LAN, OPS, TRACE, DIAG], [("hutch, hutchpp, xtrace", TRACE), ("diag, xdiag", DIAG), ("lanczos", LAN), ("MatrixFunction", OPS)], [("breakdown test", LANH)], ["products asked of the operator"])

if __name__ == "__main__":
	for p in P:
		assert len(p["title"]) <= 80, p["id"]
		print(json.dumps(p))
