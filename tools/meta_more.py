prop("C15", "Greedy pursuits return a consistent sparse approximation, iterate for iterate",
     "MP and OMP (unit-norm atoms) and SP, CoSaMP, HTP and IHT, through their matrix entry points (real), operator entry points (complex too for OMP, SP and CoSaMP), jitted or not and multi-vector OMP, return x supported on distinct atoms, "
     "K of them (MP: any; operator OMP: up to K), with r = y - Phi x and r_norm_sqr = |r|^2 for that very x. The answer equals the published recursion after the reported number of iterations (OMP: best correlated atom, least "
     "squares fit on every prefix). They stop only when |r| <= rtol |y|, at the iteration limit, or (HTP, and the operator versions of SP and CoSaMP) when the support no longer changes after min(3K,20) iterations, and do not go on once the tolerance is met.",
     C, "all dictionaries, data, sparsity levels, scales, tolerances and iteration limits (generic data: no ties in a selection; 2K (SP) or 3K (CoSaMP) at most min(M,N))",
     "tests recover one easy sparse signal per solver and only look at the converged x",
     ["_src/pursuit/mp.py", "_src/pursuit/omp.py", "_src/pursuit/sp.py", "_src/pursuit/cosamp.py", "_src/pursuit/htp.py", "_src/pursuit/iht.py", "_src/pursuit/util.py", "_src/pursuit/defs.py"],
     [("init/body/cond of each while loop; Cholesky update of OMP", "_src/pursuit/")],
     "numpy reference pursuit replayed for the reported number of iterations, stopping rules checked at every iterate")

prop("C16", "Pursuits recover the true sparse vector whenever theory guarantees it",
     "For y = Phi x with unit-norm atoms and x exactly K-sparse, OMP and MP recover x when (2K-1) mu < 1, SP when delta_3K < 0.45, CoSaMP when delta_4K < 0.45 and HTP and IHT (default step) when delta_3K < 0.35, with the right support, "
     "for any support, signs or phases, scale and dynamic range up to 100.",
     C, "all near-orthonormal and two-basis (Dirac with Hadamard or Fourier) dictionaries, supports, values and scales satisfying the condition",
     "tests try a few Gaussian dictionaries with a fixed seed; no guarantee is checked over supports, scales, complex data or structured dictionaries",
     ["_src/pursuit/mp.py", "_src/pursuit/omp.py", "_src/pursuit/sp.py", "_src/pursuit/cosamp.py", "_src/pursuit/htp.py", "_src/pursuit/iht.py"],
     [("selection, least squares and thresholding steps", "_src/pursuit/")],
     "K lowered until the published recovery condition holds for the drawn dictionary; the planted x is the oracle")

prop("C17", "YALL1 solves the l1 problem it was asked, weights, basis and signs included",
     "For real A with orthonormal rows, yall1.solve (basis pursuit; rho: l1 plus |Ax-b|^2/(2 rho); delta: |Ax-b| <= delta), with any weights, orthonormal basis W, non-negativity, starts and step, follows the published alternating direction "
     "recursion on the data scaled to unit peak and stops only when the iterates settle or the primal, dual and gap tests hold. When those tests hold the answer is optimal and feasible to that accuracy; when zero is optimal (|A^T b| <= rho w, or |b| <= delta) it is returned "
     "exactly; x is non-negative when asked for and, otherwise, the residual is b - A x. The reported numbers of operator applications are those made.",
     C, "all orthonormal-row operators, data, weights, bases, rho, delta, starts, steps, tolerances, limits", "tests solve four problems with default settings (no weights, basis or non-negativity)",
     ["_src/cvx/adm/yall1.py"], [("solve wrapper scaling and the three ADMM loops", "_src/cvx/adm/yall1.py")],
     "numpy replay of the recursion plus dual certificates / linear programming")

prop("C18", "L1-LS reaches its duality-gap tolerance; FOCUSS steps stay feasible",
     "l1ls.solve and solve_from, from any start with |x0| < u0, return x with residual y - A x and, when they stop before the iteration limit, with |Ax-y|^2 + lambda |x|_1 within a factor 1+tol of its minimum; they do stop (up to 10 tol) within 400 Newton steps, and return zero when zero is optimal; the reported numbers of operator applications are those made. "
     "Each FOCUSS step is the reweighted minimum norm solution X (Phi X)^+ y: every iterate is finite, satisfies Phi x = y and never increases sum |x|^(2-2p), also when the iterates become sparse.",
     C, "all operators, data, regularisation levels, tolerances, starts; FOCUSS: wide matrices, p in [0.5, 1], up to 60 steps", "tests solve four fixed problems from zero; FOCUSS has no test",
     ["_src/cvx/l1ls.py", "_src/cvx/focuss.py"], [("duality gap bookkeeping and line search; reweighted step", "_src/cvx/l1ls.py")],
     "coordinate descent optimum and pseudo-inverse steps in numpy")

prop("C19", "SPGL1 states are consistent and its answers feasible and near optimal",
     "In every state shown to the tracker and in the result of solve_lasso, solve_bpic and solve_bp (real and complex, jitted or not, any start and options), r = b - A x, g = -A^H r, r_norm = |r| and the objective memory are those of the stored x; LASSO iterates stay in the l1 ball and obey the "
     "non-monotone descent test. When LASSO stops before the limit its value is within opt_tol max(1,f) of the constrained optimum or its residual below opt_tol |b|; when BPIC or BP stop before the limit the residual is at most sigma (up to opt_tol, or 1e-6 |b|) and, from a zero start, |x|_1 is within "
     "15% (+0.02 of the data scale) of the smallest possible; zero is returned when |b| <= sigma. The duality gap and errors in every state belong to its x and tau, the iteration goes on exactly while the stopping test on them asks for it, and the operator counts are those made.",
     C, "all operators of condition number <= 2, data, radii, noise levels, options and starts", "there is no test of this module",
     ["_src/cvx/spgl1.py"], [("tau update, metrics and stopping test", "_src/cvx/spgl1.py"), ("curvy_line_search", "_src/cvx/spgl1.py")],
     "history invariants through the tracker; LASSO homotopy and linear programming as optimum oracles")

prop("C20", "First-order conic solver follows its recursion and reaches the optimum",
     "fom, l1rls, lasso and owl1rls (jitted or not, real data) follow the Auslender-Teboulle accelerated recursion: after the reported number of iterations every field of the state (x, y, z, A_x, A_y, A_z, gradients, f_x, f_y, C_z, norms, theta, L, backtracking included) is what the recursion gives. "
     "They stop only when norm_dx < tol max(norm_x, 1) or at the limit. With the true Lipschitz constant the objective gap after k iterations is at most 2 L R^2/(k+1)^2; with default options the answer is near optimal; an infeasible start is projected first. "
     "matrix_affine_func (all modes) and smooth_dual give the documented values and gradients.",
     C, "all affine maps, smooth functions (quadratic, Huber, logistic and the like), prox functions, data, starts, options", "tests solve a few fixed l1 problems and look only at closeness of x; the state fields, backtracking and stop rule are never checked",
     ["_src/fom/fom.py", "_src/fom/focs_at.py", "_src/fom/util.py", "_src/fom/l1rls.py", "_src/fom/lasso.py", "_src/fom/owl1rls.py"], [("init/body/cond of the Auslender-Teboulle loop", "_src/fom/"), ("matrix_affine_func, smooth_dual", "_src/fom/util.py")],
     "numpy replay of the recursion; reference optima; theoretical rate bound")

prop("C21", "1-bit recovery: BIHT and RFP follow their iterations and find the direction",
     "measure_1bit returns the signs of Phi x. biht returns, after the reported number of iterations, the iterate of the published BIHT recursion: K distinct support indices, r = y - sgn(Phi x) and the count of wrong bits agree with the very x returned; rfp returns the unit-norm iterate of the published renormalised fixed point iteration (one-sided quadratic penalty, "
     "shrinkage, renormalisation, lambda raised between outer rounds). With m between 6n and 10n noiseless Gaussian measurements the direction of a sparse x is found within 0.35 rad.",
     C, "all dictionaries, sparsity levels, step sizes, iteration limits, signals", "tests run one seeded problem each and check only that the solver runs",
     ["_src/cs/cs1bit/biht.py", "_src/cs/cs1bit/rfp.py"], [("biht and rfp loops", "_src/cs/cs1bit/")],
     "numpy replay of the published iterations; planted signal as the oracle for the direction")

prop("C22", "BSBL (EM, BO, no-pruning BO) performs the published updates and recovers blocks",
     "Each iteration of bsbl_em, bsbl_bo and bsbl_bo_np performs the published posterior mean, covariance, gamma, correlation, pruning and noise updates; pruned blocks of the answer are zero, r = y - Phi x for the x returned; without correlation, pruning and noise learning the marginal likelihood never decreases. "
     "Block-sparse signals are recovered: to 1e-4 without noise, within 30 percent with 1 percent noise. learn_block_corr and learn_lambda are honoured and the option helpers set what their names say.",
     C, "all dictionaries, block lengths and counts, noise levels and options (noise rule 2 only with correlation learning off)", "tests run a couple of seeded problems and look only at recovery",
     ["_src/block/bsbl.py", "_src/block/block.py"], [("em/bo/bo_np iterations; gamma, lambda and correlation updates", "_src/block/bsbl.py")],
     "numpy replay of the published step; marginal likelihood; planted block-sparse signal")

prop("C23", "k-means is Lloyd's algorithm; spectral clustering recovers planted groups",
     "kmeans starts from k distinct data points, every answer is a Lloyd iterate from such a start: each point goes to a nearest centroid, each centroid is the mean of its points, distortion is the mean distance; the multi-restart version returns the best of its restarts; the same key gives the same answer. "
     "Spectral clustering (unnormalised, random walk, symmetric) builds the Laplacian its name says, reports its singular values and connectivity, and separates 2 to 4 planted groups of 7 to 16 points with cross links of at most 0.5 percent, also with k found automatically.",
     C, "all point sets, k, keys, thresholds, iteration limits; all weighted graphs with planted groups", "tests cluster one fixed set of points and one fixed affinity matrix",
     ["_src/cluster/kmeans.py", "_src/cluster/spectral.py"], [("kmeans loop", "_src/cluster/kmeans.py"), ("Laplacians, k-selection", "_src/cluster/spectral.py")],
     "numpy Lloyd replay; numpy Laplacian / SVD; planted partition")

prop("C24", "Cluster metrics and subspace-clustering tools agree with their definitions",
     "clustering_error and best_map (and the _k versions) use the best one-to-one matching of predicted to true clusters, also when their numbers differ; label/size conversions invert each other; sparse_to_full_rep, the BCOO form and the affinity hold exactly the given coefficients; subspace preservation ratios, spectral errors, "
     "angles (finite, antipodal points included) and nearest neighbours equal their definitions; OMP self-representation (plain and batch) never uses a point for itself, reproduces the OMP coefficients of every point, and is subspace preserving for orthogonal subspaces.",
     C, "all labelings (up to 5-6 clusters), sizes, representations and point sets", "tests use a few hand-written labelings and one seeded subspace example",
     ["_src/cluster/util.py", "_src/cluster/ssc/util.py", "_src/cluster/ssc/omp.py"], [("error metrics, best_map", "_src/cluster/util.py"), ("SSC OMP representation", "_src/cluster/ssc/omp.py")],
     "brute-force permutation matching; numpy definitions; reference OMP")

prop("C25", "Synthetic data has exactly the promised support, values and geometry",
     "sparse_normal_representations, sparse_biuniform_representations and sparse_spikes return K-sparse vectors with one sorted, distinct, uniformly drawn support shared by all S vectors (S = 1 gives a plain vector) and values that are standard normal, "
     "of magnitude uniform in [a, b] with random sign, or +-1. index_sets gives K distinct indices per signal along the requested axis; points_orthogonal_to spans the complement of x; sparse_normal_blocks activates K sorted distinct blocks with "
     "unit-variance AR-1 coefficients of the given correlation, unit-norm blocks on request, and refuses lengths that are not a multiple of the block length. random_subspaces are orthonormal bases of distinct subspaces, "
     "uniform_points_on_subspaces are unit-norm points of each subspace in order, two_ and three_subspaces_at_angle have principal angles theta, 90, ..., 90 for every pair. The same key gives the same data, another key other data; jitted versions agree.",
     C, "all dimensions (D >= 2), sparsity, counts, keys, correlations, angles in (0, 90]", "tests draw one set per generator and look at its shape",
     ["_src/data/synthetic/random.py", "_src/data/synthetic/subspaces.py"], [("random support, value and basis generation", "_src/data/synthetic/")],
     "invariants of every draw plus distribution tests with error probability below 1e-9")

prop("C26", "Dictionary measures equal their definitions, complex dictionaries included",
     "gram = A^H A, frame = A A^H, frame_bounds / upper / lower are the extreme singular values; for unit-norm atoms coherence is the largest |<a_i, a_j>| of different atoms and its index names such a pair, babel(k) is the largest sum of |<a_i, a_j>| over k other atoms, "
     "mutual_coherence the largest across two dictionaries; matching_atoms_ratio counts the atoms of A with 1 - |<a, b>| below the threshold for some atom b of B, whatever its sign or phase. minimum_coherence is the Welch bound; "
     "build_grassmannian_frame applies the published alternating projection (shrink large, expand small inner products, rank m, unit diagonal) and lowers the coherence of random starts.",
     C, "all real and complex matrices; unit-norm dictionaries with ties and duplicate atoms; starts of the frame design", "tests evaluate coherence and babel on one or two fixed dictionaries",
     ["_src/dict/props.py", "_src/dict/comparison.py", "_src/dict/grass.py"], [("gram based measures", "_src/dict/props.py"), ("alternating projection", "_src/dict/grass.py")],
     "numpy definitions, brute force over atom subsets, replay of one projection step")

prop("C27", "Thresholding operators minimise their objectives; kernels match their formulas",
     "geo.hard_threshold, soft_threshold and half_threshold (plain, jitted, percentile versions; real and complex) return the entrywise minimisers of |u-x|^2/2 + tau [u != 0], |u-x|^2/2 + tau |u| and |u-x|^2 + tau sqrt|u|, keep phases, map zeros to zero and stay finite also for a zero threshold; the percentile versions use "
     "that percentile of the magnitudes as threshold and gamma_to_tau inverts the threshold formulas. vision.kernel_gaussian is the normalised height x width sampled Gaussian with standard deviations sigma (sigma_x along the width, sigma_y along the height); box, sharpen, Laplacian and Sobel kernels and the Ricker wavelet are as defined.",
     C, "all vectors, thresholds, percentiles, kernel sizes and sigmas (entries within rounding of a threshold are not judged)", "tests threshold one fixed vector or only plot",
     ["_src/geo/thresholding.py", "_src/geo/wavelets.py", "_src/vision/kernels.py"], [("threshold formulas", "_src/geo/thresholding.py"), ("kernel_gaussian", "_src/vision/kernels.py")],
     "closed-form / cubic-root minimisers in numpy")

prop("C28", "Test problems are consistent and the evaluation framework measures what it says",
     "Every problem of cr.sparse.problems (except the one that downloads data) has b = A x, A = Phi Psi, reconstruct(x) = Psi x = y, b = Phi y, the requested sizes and number and kind of non-zeros, is reproducible by key, and draws all its figures; unknown names are refused. "
     "RecoveryPerformance (vector, full or sparse solution; matrix or operator) reports norms, SNRs, supports, error split and success (ratio > 0.75 and SNR > 30 dB) by their definitions. RecoveryTrialsAtFixed_M_N draws a new signal for every trial, gives every solver the same problems and records "
     "counts, rates and iteration statistics in rows and CSV, also for one trial; phase transition configurations are distinct with K = ceil(rho M); ProgressTracker records every state.",
     C + ["histories"], "all problem parameters and keys; all estimates; all scripts of solver outcomes; all histories of states", "the only test runs one evaluation and checks nothing",
     ["_src/problems/problems.py", "_src/problems/spec.py", "_src/tools/performance.py", "_src/tools/trials_at_fixed_m_n.py", "_src/tracker.py", "_src/pursuit/phasetransition.py"],
     [("problem generators", "_src/problems/"), ("RecoveryPerformance", "_src/tools/performance.py"), ("trial loop", "_src/tools/trials_at_fixed_m_n.py")],
     "numpy definitions; scripted recording solvers; fed histories")
prop("C29", "Trackers see every state in the problem's units; results print their own numbers",
     "A tracker passed to MP, SP, CoSaMP or SPGL1 (jitted or not, real or complex, data of any scale) is called once per state, in order, with r = y - Phi x, x and their norms in the units of y; more is false only for the last call, which is the returned solution, so convergence is announced once; "
     "ProgressTracker records the norms and SNRs of those states. str() of every result, print_tracker, RecoveryPerformance.print, analyze_solution and SPGL1's analyze functions show the numbers of that result (real or complex); the stem plots of cr.sparse.plots draw a stem exactly at every non-zero with its value, "
     "line plots draw the signal, tracker plots the recorded history.",
     C + ["histories"], "all problems, scales, solvers and histories of states; all signals drawn; all results printed", "the tests pass no tracker, print no result and draw no plot",
     ["_src/tracker.py", "_src/pursuit/mp.py", "_src/pursuit/sp.py", "_src/pursuit/cosamp.py", "_src/cvx/spgl1.py", "_src/problems/problems.py", "_src/tools/performance.py", "_src/plots/", "_src/types.py"],
     [("tracker calls", "_src/pursuit/"), ("progress tracker", "_src/tracker.py"), ("printing", "_src/types.py"), ("plots", "_src/plots/")],
     "recorded histories against the definition of the residual; numbers parsed from the text against numpy; data read back from the matplotlib artists")
