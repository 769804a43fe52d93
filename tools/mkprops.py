#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p("P01", "Proximal operators return a minimiser of the function they are documented for",
  "For every real or complex array, every non-negative scalar or broadcastable array threshold, and every choice of axes, each proximal operator (l0, l1, l2, l1 plus l2, l1 minus l2, nuclear norm) returns a finite array of the input's shape that minimises its penalty plus half the squared distance to the input, slice by slice over the chosen axes. The matching norm functions return the documented value for the same axes.",
  ["inputs"], "all array shapes, contents (zeros, ties, magnitudes at the threshold, complex phases), thresholds and axis sets",
  "Tests evaluate one random array per operator; zeros, ties at the threshold, complex input, tuple axes and array thresholds are sampled at most once.",
  ["sporco/prox/_lp.py", "sporco/prox/_l21.py", "sporco/prox/_dl1l2.py", "sporco/prox/_nuclear.py", "sporco/prox/_util.py"],
  [("closed-form proximal maps", "sporco/prox/_lp.py: prox_l0, prox_l1, prox_l2"), ("l1+l2 / l1-l2 maps", "sporco/prox/_l21.py: prox_sl1l2; sporco/prox/_dl1l2.py: prox_dl1l2"), ("singular value shrinkage", "sporco/prox/_nuclear.py: prox_nuclear"), ("axis folding", "sporco/prox/_util.py: ndto2d, ndfrom2d")],
  ["sporco.prox public functions"])

p("P02", "Projections land in their set, are nearest, and leave members alone",
  "Projection onto the l1 ball (every method and axis choice), the l2 ball (centred at the origin or at a given point), and the normalised, support-limited, optionally zero-mean dictionary constraint set always returns a point of the set, never one farther from the input than some other member, and returns a member unchanged. The alternative algorithms offered for the same projection agree.",
  ["inputs", "configurations"], "all arrays, radii, centres, axis sets, filter-size specifications (including multi-size dictionaries), numbers of spatial dimensions and channels",
  "Tests check one random vector per projection and one filter-size layout; multi-size dictionaries, 1-D and 3-D filters, boundary points and multi-axis balls are not swept.",
  ["sporco/prox/_l1proj.py", "sporco/prox/_lp.py", "sporco/linalg.py", "sporco/cnvrep.py", "sporco/admm/cmod.py", "sporco/pgm/cmod.py"],
  [("l1-ball projection", "sporco/prox/_l1proj.py: proj_l1"), ("l2-ball projection", "sporco/prox/_lp.py: proj_l2; sporco/linalg.py: proj_l2ball"), ("dictionary constraint projection", "sporco/cnvrep.py: Pcn, getPcn, zeromean, normalise, zpad, bcrop; admm/cmod.py, pgm/cmod.py: getPcn")],
  ["sporco.prox.proj_l1, proj_l2", "sporco.linalg.proj_l2ball", "sporco.cnvrep.Pcn, getPcn"])

p("P03", "Structured linear solvers solve the systems they document",
  "For every real or complex input of consistent shape, every axis layout and every positive shift, each fast solver (diagonal-plus-rank-one, diagonal-plus-rank-K by Sherman-Morrison iteration, recursion or conjugate gradient, factored regularised normal equations, symmetric Sylvester) returns the solution of its documented linear system to working precision, with or without precomputed or cached quantities. The associated products and decompositions (axis inner and matrix products, block circulant construction, PCA, nearest Kronecker product and Kronecker SVD, adjoint test, relative residual) agree with their textbook definitions.",
  ["inputs", "configurations"], "all shapes, axis positions, real/complex dtypes, shifts, tall/wide matrices, precomputed or not",
  "Each solver is tested on one or two fixed layouts with random real data; axis permutations, complex data, rank-deficient and degenerate sizes are not swept.",
  ["sporco/linalg.py"],
  [("Sherman-Morrison solvers", "sporco/linalg.py: solvedbi_sm, solvedbd_sm, solvemdbi_ism, solvemdbi_rsm, solvemdbi_cg"), ("factor-and-solve", "sporco/linalg.py: lu_factor, lu_solve_ATAI, lu_solve_AATI, cho_factor, cho_solve_ATAI, cho_solve_AATI"), ("Sylvester", "sporco/linalg.py: solve_symmetric_sylvester"), ("products and decompositions", "sporco/linalg.py: inner, dot, block_circulant, pca, nkp, kpsvd, valid_adjoint, rrs")],
  ["sporco.linalg public functions"])

p("P04", "Fourier and cosine transforms invert, preserve energy and convolve correctly",
  "For every array, axis set, transform size and precision the forward and inverse transforms (complex, real and cosine) agree with the discrete-transform definition and undo each other, and preserve the precision of the input. Frequency-domain energy computed from full or half spectra equals the spatial energy for odd and even sizes, and transform-domain convolution equals direct circular convolution with the documented origin shift.",
  ["inputs", "configurations"], "all shapes (odd, even, length 1), axis orders, cropping and padding sizes, single/double precision, real/complex",
  "Tests use a few even-sized arrays; odd sizes, length-1 axes, unordered axes, padding/cropping and origin shifts vary too widely for examples.",
  ["sporco/fft.py"],
  [("transform wrappers", "sporco/fft.py: fftn, ifftn, rfftn, irfftn, dctii, idctii"), ("half-spectrum energy weighting", "sporco/fft.py: rfl2norm2, fl2norm2"), ("convolution with origin", "sporco/fft.py: fftconv"), ("dtype helpers", "sporco/fft.py: complex_dtype, real_dtype, rfftn_empty_aligned")],
  ["sporco.fft public functions"])

p("P05", "Array block, window and record utilities agree with naive indexing",
  "For every array, block or window size and step, extracting blocks or rolling windows yields exactly the sub-arrays that direct indexing gives in the documented order, and recombining extracted blocks (by averaging or by a given statistic) reproduces the source on every covered sample. Zero padding, subsampling, safe division, dimension promotion, splitting, half-precision promotion and record/array conversion obey their definitions, conversions round-trip losslessly, and no input is modified.",
  ["inputs"], "all shapes, block and step sizes (overlapping, non-overlapping, non-dividing), dtypes, record layouts",
  "Tests use a handful of sizes in which the step divides the array and inputs are real arrays.",
  ["sporco/array.py", "sporco/util.py"],
  [("block extraction and recombination", "sporco/array.py: extract_blocks, average_blocks, combine_blocks"), ("windows, subsampling", "sporco/array.py: rolling_window, subsample_array"), ("record conversion", "sporco/array.py: ntpl2array, array2ntpl, transpose_ntpl_list"), ("misc", "sporco/array.py: zpad, zdivide, promote16, atleast_nd, split")],
  ["sporco.array public functions"])

p("P06", "Option dictionaries accept exactly the documented option tree",
  "An options object always holds a value for every documented option (user value, else default), at every nesting level; an assignment, update or construction naming an undocumented option, or giving a scalar where a sub-tree is required, is rejected with the documented exception and leaves the path to the culprit identifiable. No sequence of constructions, updates, nested assignments, copies or pickling of options objects changes the defaults, another options object, or what a later options object contains.",
  ["histories", "inputs", "configurations"], "all histories of construct / update / assign / nested assign / read / copy / pickle over every options class in the library",
  "Tests try isolated valid and invalid keys on two hand-written classes; interleavings over shared defaults and the library's own options classes are not explored.",
  ["sporco/cdict.py", "sporco/common.py", "sporco/admm/admm.py", "sporco/pgm/pgm.py", "sporco/dictlrn/dictlrn.py"],
  [("constrained dictionary", "sporco/cdict.py: ConstrainedDict"), ("solver options classes", "Options nested classes of admm, pgm, dictlrn modules"), ("dynamic class registration for pickling", "sporco/common.py: _fix_nested_class_lookup, _fix_dynamic_class_lookup")],
  ["sporco.cdict.ConstrainedDict and Options subclasses"])

p("P07", "Sparse coding solvers reach the optimum of the stated problem",
  "For every dictionary, signal set, regularisation weight and weighting, running any of the non-convolutional sparse coding solvers (l1, weighted l1, joint l1/l2,1, elastic net, l1-ball constrained, minimum l1 in an l2 ball; ADMM or proximal gradient) to convergence yields coefficients that are feasible and whose documented objective is within tolerance of the optimum, whatever the relaxation, weighting, evaluation and initialisation options, momentum rule, backtracking rule, or penalty or step size (of the problem's scale). Non-negativity, when requested, holds for the returned coefficients (to tolerance for the l2-ball problem), and reconstruction from coefficients equals the dictionary applied to them.",
  ["inputs", "configurations"], "all problem sizes (tall, wide, single atom), parameters, weight shapes and solver options",
  "Tests check decrease or rough recovery on single random instances; optimality against an independent oracle is never checked across sizes, weights and options.",
  ["sporco/admm/bpdn.py", "sporco/pgm/bpdn.py", "sporco/admm/admm.py", "sporco/pgm/pgm.py"],
  [("ADMM sparse coding", "sporco/admm/bpdn.py: BPDN, BPDNJoint, ElasticNet, BPDNProjL1, MinL1InL2Ball"), ("proximal gradient sparse coding", "sporco/pgm/bpdn.py: BPDN, WeightedBPDN"), ("iteration engines", "sporco/admm/admm.py, sporco/pgm/pgm.py")],
  ["solve(), getcoef(), reconstruct()"])

p("P08", "Convolutional sparse coding solvers reach the optimum of the stated problem",
  "For every set of filters, signals (1-, 2- or 3-dimensional, single or multiple channels and signals), parameters and weights, running a convolutional sparse coding solver (l1, joint, elastic net, gradient-regularised, l1-ball, minimum-l1 in l2 ball, masked, l1-fidelity, total-variation regularised, product dictionary; ADMM or proximal gradient) to convergence yields coefficient maps that are feasible and whose objective, computed with direct circular convolution, is within tolerance of the optimum. Non-negativity and boundary-crossing restrictions hold when requested, and reconstruction equals the direct convolution sum. Solvers with lateral and self inhibition apply the documented weights of the previous iterate in every iteration.",
  ["inputs", "configurations"], "all filter supports, signal sizes, dimension counts, channel layouts, parameters, weights and solver options",
  "Tests run a few random 2-D instances and compare residuals or recovery; no instance is compared with an independent solver, and most channel/dimension layouts are only run for absence of exceptions.",
  ["sporco/admm/cbpdn.py", "sporco/admm/cbpdntv.py", "sporco/admm/pdcsc.py", "sporco/pgm/cbpdn.py", "sporco/cnvrep.py", "sporco/linalg.py"],
  [("ADMM convolutional solvers", "sporco/admm/cbpdn.py"), ("TV-regularised and product-dictionary solvers", "sporco/admm/cbpdntv.py, sporco/admm/pdcsc.py"), ("proximal gradient solvers", "sporco/pgm/cbpdn.py: ConvBPDN, ConvBPDNMask")],
  ["solve(), getcoef(), reconstruct()"])

p("P09", "Denoising and decomposition solvers reach the optimum of the stated problem",
  "For every image, operator, data weight and parameter, total-variation denoising and deconvolution with l1 or l2 data fidelity, spline denoising, and robust principal component analysis run to convergence return a result whose documented objective (and constraint) is within tolerance of the optimum, for scalar and vector (multi-channel) total variation and any choice of axes. The robust decomposition's two parts add up to the data within tolerance.",
  ["inputs", "configurations"], "all shapes, axis choices, channel axes, convolution kernels, weights and parameters",
  "Tests compare one or two images with themselves or with loose objective bounds; axis choices, weights, and vector variants are not compared with an independent optimum.",
  ["sporco/admm/tvl1.py", "sporco/admm/tvl2.py", "sporco/admm/spline.py", "sporco/admm/rpca.py", "sporco/signal.py"],
  [("TV solvers", "sporco/admm/tvl1.py: TVL1Denoise, TVL1Deconv; sporco/admm/tvl2.py: TVL2Denoise, TVL2Deconv"), ("spline", "sporco/admm/spline.py: SplineL1"), ("RPCA", "sporco/admm/rpca.py: RobustPCA")],
  ["solve()"])

p("P10", "Dictionary updates are feasible and optimal for fixed coefficients",
  "For every coefficient set, signals, filter-size specification, mask and algorithm variant, a dictionary update returns a dictionary whose atoms satisfy the norm, support, zero-mean and non-negativity constraints requested, after any number of iterations, and, run to convergence, is a stationary point of the least-squares data term over that constraint set, within tolerance. Reconstruction equals the dictionary applied to (convolved with) the given coefficients, and the coefficients may be replaced between solves.",
  ["inputs", "configurations", "histories"], "all sizes, dimension counts, channel layouts, multi-size filter sets, masks, iteration counts and algorithm variants",
  "Tests mostly check that an iteration runs or that a residual is small from a known dictionary; feasibility after every iteration and agreement between variants is not swept.",
  ["sporco/admm/cmod.py", "sporco/admm/ccmod.py", "sporco/admm/ccmodmd.py", "sporco/pgm/cmod.py", "sporco/pgm/ccmod.py", "sporco/cnvrep.py"],
  [("dense update", "sporco/admm/cmod.py, sporco/pgm/cmod.py"), ("convolutional update", "sporco/admm/ccmod.py, sporco/admm/ccmodmd.py, sporco/pgm/ccmod.py"), ("constraint projection", "sporco/cnvrep.py: getPcn")],
  ["solve(), getdict(), reconstruct()"])

p("P11", "User-defined ADMM problems follow the documented algorithm step for step",
  "For every problem expressed through the ADMM base classes (general, equality, convolutional-style two-block, and consensus forms) and every option setting, each iteration performs the documented updates in order with the documented over-relaxation; the primal and dual residuals, their normalisation and the stopping thresholds are those documented; and the penalty is changed exactly when and by the factor that the documented adaptation rule prescribes, with the scaled dual variable rescaled to match. Iteration stops exactly at the first iteration whose residuals meet the thresholds, at a truthy callback return, or at the iteration limit, and never later.",
  ["histories", "configurations", "inputs"], "all user problems, iteration histories, and combinations of penalty, relaxation, adaptation, residual and stopping options",
  "Tests exercise the base classes only through particular solvers with near-default options and never compare the iterate, residual and penalty sequences with a reference.",
  ["sporco/admm/admm.py", "sporco/common.py", "sporco/admm/ppp.py"],
  [("iteration loop", "sporco/admm/admm.py: ADMM.solve, ADMM.update_rho, ADMM.compute_residuals, ADMM.relax_AX"), ("specialisations", "sporco/admm/admm.py: ADMMEqual, ADMMConsensus, ADMMTwoBlockCnstrnt; sporco/admm/ppp.py")],
  ["iteration statistics, var_x(), var_y(), var_u(), callbacks"])

p("P12", "Proximal gradient iterations follow the documented step rules",
  "For every smooth-plus-proximal problem expressed through the proximal gradient base classes and every combination of step-size policy, momentum rule, backtracking rule and monotone option, each iteration takes the documented gradient-proximal step from the extrapolated point. Every step accepted by backtracking satisfies the documented majorisation bound, a monotone run never increases the objective, the returned iterate is the one the last statistics describe, and results do not depend on which other solvers used the same options object.",
  ["histories", "configurations", "inputs"], "all problems, step-size/momentum/backtracking policies and iteration histories",
  "Tests check final recovery on one problem per policy; the step acceptance conditions and iterate sequences are never checked.",
  ["sporco/pgm/pgm.py", "sporco/pgm/momentum.py", "sporco/pgm/stepsize.py", "sporco/pgm/backtrack.py", "sporco/pgm/ppp.py"],
  [("iteration loop", "sporco/pgm/pgm.py: PGM, PGMDFT"), ("policies", "sporco/pgm/momentum.py, sporco/pgm/stepsize.py, sporco/pgm/backtrack.py")],
  ["iteration statistics, getmin(), callbacks"])

p("P13", "Iteration statistics describe the iterates they are reported for",
  "For every solver and option setting, the recorded statistics hold one entry per iteration with consecutive indices and non-decreasing times, and the objective, data-fidelity, regularisation and constraint values in each entry equal the documented functionals evaluated independently at that iteration's iterate. Statistics, verbose output and callbacks can be enabled or disabled in any combination without changing the computed result.",
  ["inputs", "configurations", "histories"], "all solvers, sizes, weights, evaluation-variable options, statistics/verbosity/callback settings",
  "Tests compare the final objective on a few instances; per-iteration values, weighted and multi-channel functionals and non-default evaluation variables are not recomputed.",
  ["sporco/admm/admm.py", "sporco/admm/bpdn.py", "sporco/admm/cbpdn.py", "sporco/pgm/pgm.py", "sporco/pgm/cbpdn.py", "sporco/dictlrn/dictlrn.py", "sporco/common.py"],
  [("objective evaluation", "obfn_* / eval_objfn methods of the solver classes"), ("statistics records", "sporco/admm/admm.py: itstat_extract, IterationStats; sporco/common.py")],
  ["getitstat(), callbacks"])

p("P14", "Interrupting, resuming or pickling a solver does not change its trajectory",
  "For every solver and every split of an iteration count, solving in several consecutive calls (including calls ended early by a callback) produces exactly the iterates and statistics indices of one uninterrupted call, and a solver pickled or deep-copied between calls resumes identically to the original. Results already returned to the caller are not altered by later calls.",
  ["histories", "crash_points", "configurations"], "all solvers, split points, options, and pickle/copy points",
  "Tests pickle a finished solver once per class and never compare resumed trajectories.",
  ["sporco/admm/admm.py", "sporco/pgm/pgm.py", "sporco/dictlrn/dictlrn.py", "sporco/common.py", "sporco/dictlrn/onlinecdl.py"],
  [("persistent iteration state", "sporco/admm/admm.py: ADMM.solve; sporco/pgm/pgm.py: PGM.solve; sporco/dictlrn/dictlrn.py: DictLearn.solve"), ("picklable nested classes", "sporco/common.py: _IterSolver_Meta, _fix_nested_class_lookup")],
  ["solve(), getitstat(), pickle"])

p("P15", "Solvers never modify their inputs, are deterministic and do not interact",
  "For every solver, the arrays passed in (signals, dictionaries, coefficients, weights, masks, initial values) hold the same values after construction and solving as before, unless documented otherwise. Repeating a run from the same inputs gives bit-identical results, regardless of other solver objects created or run in between or interleaved step by step. Single-precision input is processed and returned in single precision when that is requested.",
  ["inputs", "histories", "configurations"], "all solvers, dtypes, memory layouts, interleavings of several solver objects",
  "Tests never compare inputs before and after or interleave two solver instances.",
  ["sporco/admm/*.py", "sporco/pgm/*.py", "sporco/dictlrn/*.py", "sporco/common.py"],
  [("defensive copies and dtype conversion", "solver constructors; sporco/common.py: set_dtype, set_attr"), ("per-instance state", "sporco/admm/admm.py, sporco/pgm/pgm.py")],
  ["solver constructors, solve()"])

p("P16", "Performance options and parallel or accelerated variants do not change results",
  "Memory/speed options, the number of worker processes, the linear-solver variant, the block or frequency-domain formulation, and the array-backend wrapper (falling back to the host library) each compute the same result as the plain serial variant, to rounding or convergence tolerance, for every problem. Linear-solve checking, when enabled, reports an accurate solution.",
  ["configurations", "inputs", "schedules"], "all problems and all pairs of configurations documented as equivalent, any worker count",
  "Tests compare at most one instance per pair with default parameters.",
  ["sporco/admm/cbpdn.py", "sporco/admm/parcbpdn.py", "sporco/dictlrn/prlcnscdl.py", "sporco/admm/ccmod.py", "sporco/cupy/__init__.py"],
  [("cached solve data", "sporco/admm/cbpdn.py: setdict, rhochange"), ("process pools", "sporco/admm/parcbpdn.py, sporco/dictlrn/prlcnscdl.py"), ("backend patching", "sporco/cupy/__init__.py")],
  ["solve(), getitstat()"])

p("P17", "Masked-out samples have no influence and unit masks are neutral",
  "For every masked solver (convolutional sparse coding, dictionary update, dictionary learning; any algorithm), changing the signal at samples whose mask weight is zero changes neither the solution nor the reported objective. An all-ones mask gives the solution of the unmasked problem, and each mask layout that broadcasts over channels or signals is equivalent to its explicit expansion.",
  ["inputs", "configurations"], "all masks (binary or weighted, per-channel, per-signal), mask layouts, signals and masked solver variants",
  "Tests use one random mask and check that the solver runs or that recovery is good.",
  ["sporco/admm/cbpdn.py", "sporco/admm/ccmodmd.py", "sporco/pgm/cbpdn.py", "sporco/pgm/ccmod.py", "sporco/dictlrn/cbpdndlmd.py", "sporco/dictlrn/onlinecdl.py", "sporco/cnvrep.py"],
  [("mask decoupling", "sporco/admm/cbpdn.py: ConvBPDNMaskDcpl, AddMaskSim; sporco/admm/ccmodmd.py"), ("mask in gradient", "sporco/pgm/cbpdn.py: ConvBPDNMask; sporco/pgm/ccmod.py: ConvCnstrMODMask"), ("mask layout", "sporco/cnvrep.py: mskWshape")],
  ["solve(), getcoef(), getdict(), getitstat()"])

p("P18", "Dictionary learning keeps its dictionary feasible and its bookkeeping truthful",
  "For every training set, initial dictionary, filter-size specification, sparse-coding and dictionary-update method, and at every iteration of batch, weighted, masked, parallel or online dictionary learning, the current dictionary satisfies the norm, support and zero-mean constraints and has the requested size. The reported data fidelity, regularisation and objective equal the documented functionals at the reported iterate, reconstruction equals the direct convolution of current dictionary and coefficients, and every training signal contributes.",
  ["inputs", "configurations", "histories"], "all training sets, channel layouts, method pairs, options and iteration histories, including sequences of online updates with varying data",
  "Tests run a few iterations of each class with defaults and check absence of exceptions.",
  ["sporco/dictlrn/dictlrn.py", "sporco/dictlrn/bpdndl.py", "sporco/dictlrn/wbpdndl.py", "sporco/dictlrn/cbpdndl.py", "sporco/dictlrn/cbpdndlmd.py", "sporco/dictlrn/onlinecdl.py", "sporco/dictlrn/prlcnscdl.py"],
  [("alternation loop", "sporco/dictlrn/dictlrn.py: DictLearn"), ("online update", "sporco/dictlrn/onlinecdl.py: OnlineConvBPDNDictLearn, OnlineConvBPDNMaskDictLearn")],
  ["solve(), getdict(), getcoef(), getitstat(), reconstruct(), evaluate()"])

p("P19", "Image quality metrics equal their definitions on every input",
  "For every pair of real or complex arrays (or images of any size and dynamic range) the error and signal-to-noise metrics equal their textbook definitions, including perfect agreement and caller-specified range, and the perceptual metrics are zero for identical images, symmetric where their definition is, and insensitive to joint rescaling when rescaling is on. Metrics neither modify their inputs nor depend on the integer or floating type that holds the same values.",
  ["inputs"], "all shapes, value ranges, dtypes (including unsigned 8-bit), identical and constant images",
  "Tests evaluate each metric on one random pair.",
  ["sporco/metric.py"],
  [("metric definitions", "sporco/metric.py: mae, mse, snr, psnr, isnr, bsnr, pamse, gmsd")],
  ["sporco.metric public functions"])

p("P20", "Signal operators satisfy their adjoint, spectral and statistical definitions",
  "For every array, axis and padding mode, the finite-difference operator matches its definition, its transpose operator is its exact adjoint, and the frequency-domain gradient filters reproduce the circular difference and its Gram operator for any ordered axis subset. Low/high-pass splitting returns two parts that sum to the input, the low part solving the documented regularised problem on the padded domain; colour conversion, impulse noise, random masks, Gaussian windows and local contrast normalisation obey their definitions for every shape.",
  ["inputs"], "all shapes (including length-1 and length-2 axes), axes, padding modes, parameters",
  "Tests check one adjoint pair and that the remaining functions return.",
  ["sporco/signal.py"],
  [("gradient operators", "sporco/signal.py: grad, gradT, gradient_filters"), ("Tikhonov splitting", "sporco/signal.py: tikhonov_filter"), ("other operators", "sporco/signal.py: spnoise, rndmask, rgb2gray, gaussian, local_contrast_normalise, complex_randn")],
  ["sporco.signal public functions"])

p("P21", "Interpolation and robust regression results are exact for their definitions",
  "For every Bayer mosaic the interpolated image keeps all measured samples and fills each missing one with the average of its documented neighbours; Lanczos kernels and filters are even, supported on the stated window, and are unit pulses at the origin, and the filter bank matches the kernel at the documented sample points. For every overdetermined or square linear system the least-absolute-deviation and least-maximum-deviation solvers return a point at which no other point has a smaller deviation.",
  ["inputs"], "all even mosaic sizes, kernel orders, filter-bank sizes, and regression instances",
  "Tests use one mosaic and one random regression with a planted solution.",
  ["sporco/interp.py"],
  [("demosaic", "sporco/interp.py: bilinear_demosaic"), ("regression", "sporco/interp.py: lstabsdev, lstmaxdev"), ("Lanczos", "sporco/interp.py: lanczos_kernel, interpolation_points, lanczos_filters")],
  ["sporco.interp public functions"])

p("P22", "Timers account for exactly the time between starts and stops",
  "For every history of start, stop, reset, total-vs-current queries and context-manager use over any set of timer labels (including default and 'all' labels), the elapsed time reported for each label equals the sum of its running intervals since its last reset, for both total and current readings, and queries never alter the accounting. Unknown labels are rejected as documented.",
  ["histories", "schedules"], "all operation sequences, label sets and clock readings",
  "Tests use two or three fixed sequences with the real clock and can only check inequalities.",
  ["sporco/util.py"],
  [("timer", "sporco/util.py: Timer"), ("context manager", "sporco/util.py: ContextTimer")],
  ["Timer.elapsed, Timer.start/stop/reset, ContextTimer"])

p("P23", "Parameter grid search returns a true optimum for any grid and worker count",
  "For every function table, grid and number of workers or ranks, parallel grid search (process pool or message passing) evaluates every grid point, returns the best parameter tuple, its function value, the full array of values arranged by grid axis, and consistent indices, for minimisation and maximisation, for scalar and vector-valued functions. The result equals that of an exhaustive serial search.",
  ["inputs", "configurations", "schedules"], "all grids (any number of axes and lengths, ties), function values, worker counts and rank counts, including more ranks than points",
  "Tests run one grid with the default worker count and a single rank.",
  ["sporco/util.py", "sporco/mpiutil.py"],
  [("process-pool search", "sporco/util.py: grid_search"), ("distributed search", "sporco/mpiutil.py: grid_search, _get_rank_limits")],
  ["sporco.util.grid_search, sporco.mpiutil.grid_search"])

p("P24", "Convolutional solvers commute with symmetries of their problem",
  "For every convolutional solver and input: circularly shifting the signal shifts the coefficient maps equally, permuting filters permutes maps, jointly processing several independent signals gives each signal's separate solution, and scaling signal and penalty together scales the solution. Transposing or padding with singleton spatial dimensions, and replicating a problem as channels, likewise change the result only by the corresponding rearrangement.",
  ["inputs", "configurations"], "all shifts, permutations, batch compositions, scale factors and layouts, for every solver and iteration count",
  "No test relates two runs of a solver.",
  ["sporco/admm/cbpdn.py", "sporco/admm/cbpdnin.py", "sporco/admm/cbpdntv.py", "sporco/pgm/cbpdn.py", "sporco/admm/ccmod.py", "sporco/pgm/ccmod.py", "sporco/cnvrep.py"],
  [("index conventions", "sporco/cnvrep.py: CSC_ConvRepIndexing, CDU_ConvRepIndexing"), ("frequency-domain steps", "sporco/admm/cbpdn.py, sporco/pgm/cbpdn.py")],
  ["solve(), getcoef(), getdict()"])

p("P25", "Array-layout inference and weight layout are consistent for every problem shape",
  "For every combination of signal array shape, dictionary shape or size specification, number of spatial dimensions and of signal dimensions, the inferred layout identifies the channels, signals, filters and spatial size that the documented convention prescribes, the internal arrays it describes hold exactly the input's elements in that arrangement, and impossible combinations are rejected with an error. Regularisation-weight and mask arrays given in any documented layout act on exactly the coefficients or samples that layout denotes.",
  ["inputs", "configurations"], "all shapes, dimension counts, channel layouts, dictionary size specifications and weight layouts",
  "Tests enumerate about twenty layouts and check a few attributes.",
  ["sporco/cnvrep.py"],
  [("layout inference", "sporco/cnvrep.py: CSC_ConvRepIndexing, CDU_ConvRepIndexing, DictionarySize, stdformD"), ("weight layouts", "sporco/cnvrep.py: l1Wshape, mskWshape"), ("pad, crop", "sporco/cnvrep.py: zpad, bcrop")],
  ["sporco.cnvrep public classes and functions"])

p("P26", "Dictionary tiling and data access never lose or alter data",
  "Tiling a dictionary of any size, channel count or layout into one image places every atom, rescaled as documented, in its own cell without overlap or omission. Loading example images applies the requested scaling, type, grey-scale conversion and cropping or zooming exactly, and a download returns precisely the bytes served, retrying an attempt that timed out (while connecting or reading) up to the stated number of attempts, and reporting any other failure, or exhaustion of the attempts, as an error.",
  ["inputs", "fault_sequences"], "all dictionary shapes and size specifications, image sizes/types and option combinations, and all sequences of network failures",
  "Tests tile one random dictionary and touch one bundled image; network faults are not exercised.",
  ["sporco/util.py"],
  [("tiling", "sporco/util.py: tiledict"), ("image access", "sporco/util.py: ExampleImages"), ("download with retry", "sporco/util.py: netgetdata")],
  ["sporco.util.tiledict, ExampleImages, netgetdata"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
