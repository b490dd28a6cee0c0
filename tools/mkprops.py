#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the text is reviewable)"""
import json, os
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],**({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {}),**({"observe_at":obs} if obs else {})}})
CL="c3/lib_clinalg/"; FU="c3/lib_funcs/"; SL="c3/lib_superlearn/"
p("C01","Function-train algebra is pointwise algebra",
 "Building, copying, scaling, adding, multiplying and linearly combining multivariate functions in function-train format (single trains and arrays of trains) yields a function whose value at every point equals the same arithmetic applied to the operands' values, in every sequence of such operations. Products of piecewise functions on a common grid are taken at its nodes. Ranks of results follow the format's rules (sums add ranks, products multiply them) and the operands keep their values and are independent of the result.",
 ["programs","inputs"],"every sequence of operations up to a bounded depth over a pool of trains of every dimension, rank vector, core structure and univariate class in the alphabet; every evaluation point of a grid including domain boundaries",
 "tests apply one operation to a handful of random functions; they do not compose operations, mix univariate grids/classes, reuse operands after an operation, or cover zero/constant cores and dimension 1.",
 [CL+"ft.c",CL+"qmarray.c",CL+"quasimatrix.c",FU+"functions.c"],[("block cores for sums","ft.c function_train_sum"),("Kronecker cores for products","ft.c function_train_product"),("in-place scaling of one core","ft.c function_train_scale")],
 [("ranks","rank vector of a train","ft.h struct FunctionTrain")],["function_train_eval"])
p("C02","All evaluation paths of a function train agree",
 "Evaluating a function train one point at a time, in batches, by grid index, along a fibre, or under one-coordinate perturbations gives the same numbers. Results do not depend on the order, number or kind of earlier evaluations of the same train or on what internal workspace those left behind.",
 ["inputs","histories"],"every interleaving of evaluation calls up to a bounded depth on the same train, for every dimension, rank vector and class in the alphabet and all grid/boundary/repeated points",
 "tests evaluate freshly built trains with one path; no test interleaves paths that share the lazily allocated workspace.",
 [CL+"ft.c",CL+"qmarray.c",FU+"functions.c",FU+"linelm.c",FU+"constelm.c",FU+"kernels.c"],[("shared evaluation workspace","ft.c function_train_eval / evalspace"),("indexed evaluation","ft.c function_train_eval_ind")],
 [("evalspace","lazily allocated scratch reused by all evaluation paths","ft.c")],["function_train_eval","function_train_evals","function_train_eval_ind","function_train_eval_co_perturb","function_train_eval_fiber_ind"])
p("C03","Integrals, inner products and norms are exact on trains",
 "The integral (full, over a subset of the variables, or against the standard weight), the inner product (plain or weighted), the 2-norm, distance and relative distance of function trains equal the exact values of the represented functions (inner products of piecewise linear functions are the trapezoid rule on the union of the operands' nodes, the representation's own definition; weighted variants exist for polynomial and kernel functions); inner products are symmetric, bilinear and consistent with products and norms; operands are not changed.",
 ["inputs"],"all trains of the alphabet (dimension, ranks, univariate class, grids that differ between operands, zero functions), all subsets of variables",
 "tests check one or two fixed functions with tolerances dominated by approximation error; subsets, mismatched grids and zero functions are not covered.",
 [CL+"ft.c",CL+"qmarray.c",CL+"quasimatrix.c",FU+"functions.c"],[("core-by-core contraction","ft.c function_train_inner / function_train_integrate"),("subset contraction","ft.c function_train_integrate_weighted_subset")])
p("C04","Train derivatives are derivatives of the train",
 "Gradient, Hessian, Hessian diagonal, Laplacian, diffusion operator and pointwise gradient evaluations of a function train are the corresponding derivatives of the function it represents, for single trains and for arrays of trains, whether built as new trains or evaluated at a point.",
 ["inputs"],"all trains of the alphabet, all coordinates and coordinate pairs, all evaluation points including element interiors and domain boundaries",
 "tests compare with finite differences at a few random points of one function with loose tolerances.",
 [CL+"ft.c",CL+"diffusion.c",FU+"functions.c",FU+"linelm.c"],[("product rule over cores","ft.c function_train_gradient"),("pointwise gradient sweep","ft.c function_train_gradient_eval"),("diffusion block cores","diffusion.c")])
p("C05","Rounding keeps the function within the requested error",
 "Rounding, orthogonalising or rank-truncating a function train, an array of trains or a product/sum computed in compressed form returns a function within the requested relative error of the input in the 2-norm (exactly equal for pure orthogonalisation), with no rank exceeding the input's ranks, an explicit maximum rank, or the smallest rank sufficient for the tolerance in the corresponding unfolding; the input is not modified unless documented as overwritten.",
 ["inputs"],"all trains of the alphabet including redundant sums f+f, f-f, zero functions, tiny and huge scales, every tolerance and rank cap in the alphabet",
 "tests round one redundant sum with one tolerance per class and compare to 1e-10; they do not check rank caps, exact-rank recovery, zero functions or scale invariance.",
 [CL+"ft.c",CL+"qmarray.c",CL+"dmrg.c",CL+"dmrgprod.c"],[("right-left orthogonalisation","ft.c function_train_orthor"),("truncated SVD sweep","ft.c function_train_round"),("alternating compression","dmrg.c / dmrgprod.c")])
p("C06","Cross approximation recovers low-rank functions in the domain",
 "Cross approximation (fixed-rank and rank-adaptive) of a black-box function that has exact low rank, with fibres in the chosen univariate spaces, from the families where the maximum-volume pivots are guaranteed to exist (products, sums of powers or exponentials, additive functions, chains, constants, zero) reproduces it everywhere, within the requested ranks, for every valid starting index set, rank guess at least the true rank, orientation and user option; the black box is only ever evaluated at points of the declared domain and the reported ranks are within the caller's limits; index sets stay nested, and options are not changed.",
 ["inputs","configurations"],"all target functions of bounded dimension and rank in the alphabet, all option combinations (ranks, adaptation, kick, cross tolerance, starting nodes) and all index sets up to a bound",
 "tests run default options with one random start and a loose error threshold.",
 [CL+"ft.c",CL+"indmanage.c","c3/lib_interface/approximate.c",FU+"fwrap.c"],[("left/right sweeps","ft.c ftapprox_cross"),("index sets","indmanage.c cross_index_*"),("rank adaptation","ft.c ftapprox_cross_rankadapt")])
p("C07","Univariate function arithmetic is pointwise arithmetic",
 "For every univariate representation (piecewise linear, piecewise constant, kernel, polynomial, piecewise polynomial) copying, adding, scaling, accumulating, multiplying, linearly combining (also arrays with strides) and summing products gives a function whose value at every point of the domain equals the same arithmetic on the operands' values (products of piecewise linear or constant functions on a common grid: at its nodes), also when operands live on different grids or have different numbers of coefficients; operands and outputs do not alias.",
 ["inputs","programs"],"all pairs of functions over all sub-grids of a small node set, all small coefficient vectors, all operation sequences up to a bounded depth",
 "tests use one grid per class, mostly the same for both operands, and random values.",
 [FU+"functions.c",FU+"linelm.c",FU+"constelm.c",FU+"kernels.c",FU+"polynomials.c",FU+"piecewisepoly.c"],[("grid merging","linelm.c lin_elem_exp_axpy / prod"),("dispatch by class","functions.c generic_function_*")])
p("C08","Univariate calculus and approximation are exact where promised",
 "For every univariate representation, evaluation interpolates its data, integration, weighted integration, inner products, norms, derivatives, extrema, regions and zeros equal those of the represented function (for piecewise linear functions inner products are the trapezoid rule on the union of nodes and the derivative function is the nodal difference quotient, the representation's own definitions), orthonormal bases are orthonormal, and approximating a function that lies in the representation's space reproduces it while adaptive approximation stays within the domain and its size limits.",
 ["inputs"],"all small coefficient vectors on all sub-grids of a small node set, all evaluation points (nodes, midpoints, boundaries, outside the domain), all orders and grid sizes up to a bound",
 "tests integrate/differentiate a few smooth functions with approximation-level tolerances on uniform grids.",
 [FU+"linelm.c",FU+"constelm.c",FU+"kernels.c",FU+"polynomials.c",FU+"piecewisepoly.c",FU+"functions.c"],[("element search","linelm.c lin_elem_exp_eval"),("exact element integrals","linelm.c lin_elem_exp_inner"),("orthonormal basis","functions.c generic_function_array_orth")])
p("C09","Saving then loading gives the same object back",
 "Serialising a univariate function of any class, a quasimatrix, a core, a train, an array of trains, a linear map or a probability density (transformed or not), in memory, through a file, or (piecewise linear and constant, polynomial and piecewise polynomial functions, cores and trains) as text with at least 17 digits, and reading it back yields an object with the same structure, values, parameters and subsequent behaviour under further operations; text with fewer digits gives the function to that precision. The announced size is exactly the number of bytes written and read, serialising the loaded object gives the same bytes, and objects can be stored one after another in one buffer or one text file. A file loads as whatever was last saved under its name; saving where nothing can be written reports failure and loading a missing file returns nothing.",
 ["inputs","histories"],"all objects of the alphabets (including extreme, denormal and zero coefficients), every order of concatenation up to a bounded length, all histories of saves and loads over two files up to a bounded length, all text precisions offered",
 "tests round-trip one object per type and compare one evaluation; concatenation, announced size, later behaviour of the loaded object and text form of structures are not covered.",
 [FU+"functions.c",FU+"linelm.c",FU+"constelm.c",FU+"kernels.c",FU+"polynomials.c",FU+"piecewisepoly.c",CL+"ft.c",CL+"qmarray.c",CL+"quasimatrix.c","c3/lib_probability/probability.c","c3/lib_stringmanip/stringmanip.c"],[("serialize/deserialize pairs","*_serialize"),("savetxt/loadtxt pairs","*_savetxt"),("save/load files","function_train_save, ft1d_array_save, probability_density_save")])
p("C10","Parameters round-trip and parameter gradients are exact",
 "Reading the parameters of a univariate function, core or train and writing them back reproduces the same function; writing new parameters changes exactly the addressed function; and every reported gradient with respect to parameters (single functions, cores, trains, and parameterised trains, at one or many points, with or without precomputation, and of squared norms, inner products and one-dimensional regression costs) equals the derivative of the value reported with it; Hessian-vector products of linearly parameterised trains likewise; the linear-least-squares starting point of a train with inner ranks of at least two is the least-squares linear function.",
 ["inputs","histories"],"all trains of the alphabet and every parameter, every update order (per function, per core, whole train), repeated updates and evaluations of the same object",
 "tests compare a gradient with finite differences on one random train; update orders and partial updates are not covered.",
 [SL+"parameterization.c",CL+"ft.c",CL+"qmarray.c",FU+"functions.c",FU+"linelm.c",FU+"kernels.c"],[("flat parameter vector","parameterization.c ft_param_update_params"),("gradient workspace","parameterization.c ft_param_gradeval")],
 [("params","flat copy of the parameters kept beside the train","parameterization.c struct FTparam")])
p("C11","Regression minimises the loss it reports",
 "The objective handed to the optimiser is exactly the loss of the current model on the given data (mean weighted squared residual, plus half the regularisation weight times the squared norms of the cores being optimised, or the Christoffel-preconditioned residual), with exact gradient, for the whole data set and for single samples, whatever earlier core updates the optimiser chose; every sweep of alternating regression (two or more variables) optimises every core, the returned model is the one the optimiser chose last, and with a descending optimiser neither alternating nor all-at-once regression ends with a larger loss than it started from; objectives combine with their weights; cross-validation trains each fold on exactly the other samples with their weights, reports the relative validation error and restores the model; grid search tries every combination and installs the best one; rank adaptation obeys the rank limit; the caller's data is unchanged.",
 ["inputs","histories"],"all small data sets, partitions, structure types, optimisation types and option orders in the alphabet, repeated runs on the same object",
 "tests run end-to-end fits on random data and check only a loose test error.",
 [SL+"regress.c",SL+"objective_functions.c",SL+"superlearn.c",SL+"superlearn_util.c",SL+"parameterization.c"],[("objective and gradient","objective_functions.c ls_cost_eval"),("ALS sweep","regress.c c3_regression_run_als"),("folds","regress.c cross_validate_*")])
p("C12","Optimisers respect bounds, descend and report truthfully",
 "Every optimiser (gradient descent, BFGS, limited-memory BFGS, stochastic, brute force, with every line search) returns a point inside the bounds (stochastic descent has no bounds) whose objective value is the value it reports and is not larger than at the start (for deterministic methods), never evaluates outside the bounds, reaches the unique minimiser of well-conditioned convex problems when it lies inside the bounds, and its reported counts of evaluations, gradients and iterations match the calls made; iteration limits are obeyed, a run stops at the first step that meets a tolerance and its return code names that tolerance, copies of an optimiser behave like the original, the limited-memory list holds exactly the most recent updates, and in the stand-alone routines an objective gradient or Hessian that signals an error stops the optimisation with the documented code.",
 ["inputs","fault_sequences","configurations"],"all starting points of a lattice including the bounds, all bound configurations, all option combinations, and every evaluation index at which the objective fails",
 "tests minimise standard functions from one start; failures of the callback, active bounds and reported counts are not covered.",
 ["c3/lib_optimization/optimization.c"],[("projected steps","optimization.c backtrack_bt / newton"),("limited-memory list","optimization.c c3opt_lbfgs_list"),("counters","optimization.c c3opt_eval")],
 [("lbfgs list","bounded ring of curvature pairs","optimization.c struct c3opt_lbfgs_list")])
p("C13","Quadrature rules integrate exactly what their order promises",
 "For every number of points, the Gauss-Legendre, Gauss-Hermite, Gauss-Chebyshev, Clenshaw-Curtis, Fejer, trapezoid and Simpson rules have nodes inside their interval, positive weights that sum to the measure, and integrate every polynomial up to their theoretical degree exactly, also after rescaling to another interval; nothing is written beyond the requested number of points.",
 ["inputs"],"every number of points up to the table sizes and beyond them",
 "tests integrate a few functions at a few sizes.",
 ["c3/lib_quadrature/quadrature.c","c3/lib_quadrature/legquadrules.c","c3/lib_quadrature/legquadrules2.c"],[("tabulated rules","legquadrules*.c"),("Golub-Welsch","quadrature.c gauss_hermite")])
p("C14","FFT equals the discrete Fourier transform and inverts",
 "For every length in the supported family and every input, the fast forward transform equals the defining discrete Fourier sum, the inverse transform undoes it, both are linear and leave their input unchanged, and strided variants touch only the addressed entries.",
 ["inputs"],"every length up to a bound and every vector over a small alphabet at small lengths, all unit vectors at larger lengths (sufficient by linearity)",
 "tests use random vectors at a few power-of-two lengths.",
 ["c3/lib_fft/fft.c"],[("radix-2 recursion","fft.c fft_base"),("Bluestein/slow fallback","fft.c fft_slow")])
p("C15","Dense factorisations reproduce their matrix",
 "QR, RQ, SVD, truncated SVD, pseudo-inverse, least squares, cross/skeleton and maximum-volume routines return factors with the promised shape, orthogonality and ordering whose product equals the input (or approximates it within the requested error with the smallest sufficient rank); Kronecker, Khatri-Rao and matrix-vector utilities equal their definitions; inputs documented as read-only are unchanged.",
 ["inputs"],"all matrices of bounded size over a small integer alphabet (all ranks including zero and rank-deficient matrices), all shapes (tall, wide, square, single row/column), all tolerances in the alphabet",
 "tests factor a few random full-rank matrices.",
 ["c3/lib_linalg/linalg.c","c3/lib_linalg/matrix_util.c"],[("LAPACK wrappers","linalg.c"),("maxvol","linalg.c maxvol_rhs"),("skeleton","linalg.c skeleton")])
p("C16","Discrete tensors and tensor trains match their full arrays",
 "Conversion of an array to tensor-train form and back is within the requested error, and sums, products, scalings, inner products, norms, integrals, rounding and element access of tensor trains equal the same operations on the full arrays, with ranks no larger than the format's bounds.",
 ["inputs","programs"],"all small tensors over a small alphabet, all operation sequences up to a bounded depth",
 "the tensor and tensor-train test programs are not part of the regularly run suite and sample random tensors.",
 ["c3/lib_tensor/tensor.c","c3/lib_tensdecomp/tensortrain.c","c3/lib_tensdecomp/tt_integrate.c","c3/lib_tensdecomp/candecomp.c","c3/lib_tensdecomp/cross.c"],[("tt algebra","tensortrain.c"),("full-to-tt","tensortrain.c full_to_tt")])
p("C17","Monitored functions return cached values for known points only",
 "A monitored function returns exactly the value of the wrapped function at the requested point, evaluates the wrapped function once per distinct point and returns every stored point/value pair once; the string-keyed tables and lists behind it behave as maps and sequences under every sequence of insertions and lookups, including colliding keys.",
 ["histories"],"every sequence of inserts, lookups and conversions up to a bounded depth over a key alphabet chosen to collide in small tables",
 "tests insert a handful of distinct keys once and use large tables.",
 [FU+"monitoring.c","c3/lib_stringmanip/stringmanip.c",FU+"pivoting.c"],[("hash chain","stringmanip.c hashtable_cp_*"),("point serialisation as key","monitoring.c function_monitor_eval")],
 [("table chain","linked list per bucket","stringmanip.c")])
p("C18","Densities, linear maps and sensitivities match their definitions",
 "The normal distribution function and its inverse match the analytic ones; linear maps apply, copy and invert (lower triangular) exactly; a density given by a train, with or without a lower triangular change of variables, evaluates to the train (divided by the determinant), to zero outside its bounds, and its log-gradient and log-Hessian are the derivatives of the log of that value, whichever is asked first; standard and multivariate normal densities integrate to one and match the analytic density to the documented approximation accuracy; samples are mean plus Cholesky factor times the standard normal deviates drawn; the Laplace approximation of a quadratic is exact; Sobol variance, main, total and interaction effects of a train equal the analytic variance decomposition for every subset of variables up to the requested order, and each is visited exactly once.",
 ["inputs","histories"],"all small means/covariances and transforms in the alphabet, all histories of copy/invert/apply, all variable subsets and interaction orders of all trains in the alphabet",
 "tests evaluate sensitivities of one function; the density tests are commented out.",
 ["c3/lib_probability/probability.c","c3/lib_probability/probability_utils.c",CL+"ft.c"],[("sobol recursion","c3_sobol_sensitivity_calculate"),("change of variables","probability_density_eval"),("inverse distribution","icdfnorm")],
 [("interactions","tree of partial variances indexed by variable","struct SInteract"),("inverse","inverse map computed on first use","linear_transform_invert")])
p("C19","Array and string utilities match their definitions",
 "Vector construction (linspace, logspace, arange, diagonal, concatenation, copies), reductions, the growable vector, file and text input/output of numbers, packing of numbers, string stripping, splitting, parsing and concatenation, and random deviates as a function of the underlying uniform numbers return what their names define for every size, including empty, single-element, repeated and boundary inputs; nothing outside the addressed elements is touched.",
 ["inputs"],"all small arrays over a small alphabet, all sizes and boundary arguments up to a bound",
 "tests call each utility once or twice.",
 ["c3/lib_array/array.c","c3/lib_stringmanip/stringmanip.c"],[("array helpers","array.c"),("string helpers","stringmanip.c")])
p("C20","Matrices of functions factor and combine as matrices",
 "Quasimatrices and matrix-valued univariate functions behave as matrices at every point: products, Kronecker products, transposes, stacking, block construction, rows, columns, integrals and inner products equal the corresponding dense computation, and QR, LQ, LU, SVD, pseudo-inverse, truncation and maximum-volume selection return orthonormal or triangular factors whose product reproduces the input, for rank-deficient and zero inputs too.",
 ["inputs"],"all matrices of functions of bounded shape whose entries come from a small function alphabet including zero, repeated and dependent functions, for every univariate class",
 "tests factor one or two random full-rank arrays.",
 [CL+"qmarray.c",CL+"quasimatrix.c",CL+"indmanage.c"],[("Householder on functions","qmarray.c qmarray_householder_simple"),("Kronecker with matrices","qmarray.c qmarray_kron"),("maxvol","qmarray.c qmarray_maxvol1d")])
p("C21","Black-box wrappers call the user function faithfully",
 "A wrapped user function (one point at a time, by index, vectorised, multi-output, array of functions; evaluated directly or along fibres) is called with exactly the requested points, in order, with the function, output index and argument most recently set, and its values are returned unchanged for every batch size including empty; a failure code returned by a vectorised user function at any call is returned by the wrapper; selecting, re-initialising and removing fibres or replacing functions leaves no trace of the previous configuration. Approximation options, fibre options and bounding boxes return for every dimension what was last stored for it.",
 ["inputs","fault_sequences","histories"],"every sequence of set/evaluate calls up to a bounded depth and every call index at which the user function fails",
 "tests never make the user function fail and use each wrapper for one purpose.",
 [FU+"fwrap.c",FU+"fapprox.c",FU+"space.c"],[("mode dispatch","fwrap.c fwrap_eval"),("fibres","fwrap.c fwrap_eval_fiber")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(here+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
