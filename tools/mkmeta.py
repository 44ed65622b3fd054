#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one list (P below)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/cr/sparse/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                           "observe_at": list(observe), "hook_needed": None}, _note=note))


I, C = ["inputs"], ["inputs", "configurations"]

prop("C01", "Every linear operator's trans is the adjoint of its times",
     "For every operator built by cr.sparse.lop (dense, diagonal, index, calculus, filter, convolution, FFT, wavelet, basis, total variation "
     "and special-matrix constructors) with any admissible parameters, <T x, y> equals <x, T^H y> in the Hermitian inner product for all x "
     "in its input space and y in its output space, real or complex. Operators declared real satisfy it on real vectors. (2-D total variation is "
     "the recorded exception: its trans is the plain transpose, which is what is checked for it.)",
     C, "all constructor parameters (sizes, offsets, boundary modes, wavelets, axes, steps) and all vectors",
     "tests run a dot test on a few fixed sizes per operator; the adjoint breaks for particular padding, parity, step, mode or complex data",
     ["_src/lop/basic.py", "_src/lop/calculus.py", "_src/lop/conv.py", "_src/lop/fft.py", "_src/lop/dwt.py", "_src/lop/filters.py", "_src/lop/tv.py"],
     [("hand written trans next to times in every constructor", "_src/lop/")],
     "differential: <Tx,y> against <x,T^H y> on drawn operators and vectors, relative 1e-9 in float64")

prop("C02", "Operators compute their documented matrix",
     "For every operator of the catalogue and admissible parameters, times and trans act exactly as the dense matrix the documentation defines "
     "for it (and its conjugate transpose), they are linear, to_matrix / to_adjoint_matrix / to_complex_matrix return that matrix, and columns / "
     "apply_columns select and combine its columns. Integer input gives the values of the same input in floating point; single precision agrees up to rounding.",
     C, "all constructor parameters and inputs, in both precisions", "tests compare a handful of small examples; index arithmetic, parity, "
     "truncation and boundary cases are not enumerated",
     ["_src/lop/lop.py", "_src/lop/basic.py", "_src/lop/calculus.py", "_src/lop/conv.py", "_src/lop/special_matrices.py", "_src/lop/dwt.py"],
     [("per-constructor times/trans and Operator.to_matrix family", "_src/lop/lop.py")],
     "reference model: dense matrices built independently in numpy/scipy/pywt-free float64 code")

prop("C03", "Operator algebra agrees with matrix algebra, flags included",
     "Any expression built with neg, scale, add, subtract, compose, transpose, hermitian, hcat, power, gram, frame, block_diag, windowed_op, jit and the "
     "+ - * @ ** .T .H operators acts as the same expression on the matrices, with the right shape. The result is flagged real, jit_safe or matrix_safe "
     "only when every operand is, jit refuses operators that are not jit_safe, and operands of incompatible shape are rejected when the expression is built; "
     "the dot tests for real operators accept a true adjoint and reject one that is off by 1%.",
     ["inputs", "programs"], "all operator expressions over drawn leaves, all vectors", "tests exercise one algebra function at a time on one operand pair; "
     "nesting, complex operands and flag combinations are not covered",
     ["_src/lop/impl.py", "_src/lop/lop.py", "_src/lop/util.py", "_src/lop/block_diag.py", "_src/lop/windowed_op.py"],
     [("algebra functions combining times/trans closures and metadata", "_src/lop/impl.py")],
     "model based: random expression trees evaluated on operators and on numpy matrices")

prop("C04", "Operators along an axis act on every fibre; matrix application acts per column",
     "An operator constructed with an axis parameter, applied to an array of 2 to 4 dimensions, equals its 1-D version applied to every fibre along that axis, "
     "for times and trans. An operator flagged matrix_safe applied to a matrix equals applying it to every column, and times_2d / trans_2d do so for every 1-D "
     "operator.",
     C, "all axis-aware constructors, axes, array shapes and data", "tests use axis 0 or one axis of one 2-D array",
     ["_src/lop/util.py", "_src/lop/basic.py", "_src/lop/calculus.py", "_src/lop/fft.py", "_src/lop/dwt.py", "_src/lop/random.py", "_src/lop/dot.py"],
     [("apply_along_axis wrapping and the matrix_safe flag", "_src/lop/util.py")],
     "model: tensordot of the dense matrix along the axis, in both precisions")

prop("C05", "Bases are orthonormal; wavelet transforms reconstruct perfectly",
     "Fourier, cosine, Walsh-Hadamard and random bases, as operators or dense matrices, of any admissible order are isometries whose adjoint is their inverse (the "
     "Dirac-Fourier and similar two-ortho bases have T T^H = 2 I) and equal the standard transform matrices. For every discrete wavelet, admissible level and signal "
     "shape (not only powers of two), synthesis after analysis is the identity, with the periodic orthogonal ones being isometries on their coefficients. Inadmissible levels are rejected.",
     C, "all orders, wavelets, levels, axes, lengths and signals", "tests cover one or two wavelets and power of two sizes",
     ["_src/lop/onb.py", "_src/lop/dwt.py", "_src/dict/simple.py"],
     [("transform scaling, padding and coefficient layout", "_src/lop/dwt.py"), ("basis matrices", "_src/dict/simple.py")],
     "round trip and isometry on drawn signals; scipy Hadamard/DCT/DFT matrices as reference")

prop("C06", "Sensing-matrix constructors keep their structural promises for every key",
     "For every key and shape, gaussian, rademacher, sparse binary, random orthonormal-row, partial and random onb/orthonormal constructors return matrices of the requested shape with the promised "
     "structure (column or row normalisation, entry alphabet, number of ones per column, orthonormality), as dense matrices and as operators. The same key gives the same matrix, different keys "
     "different ones, and entries follow the documented distribution.",
     C, "all keys, shapes and options", "tests check shape and norm for one key",
     ["_src/dict/simple.py", "_src/lop/random.py"],
     [("construction from a PRNG key followed by normalisation", "_src/dict/simple.py")],
     "structural invariants per drawn key; statistics within 7 standard errors")

prop("C07", "Norm, eigenvalue and singular value estimators never mislead",
     "Operator norm estimation never exceeds the norm and attains it to 1e-4 when there is a spectral gap; power iterations return a unit vector whose value lies in the spectrum, converging to the "
     "dominant eigenvalue within the iteration limit. The upper frame bound of an operator is its largest singular value; Lanczos bidiagonalization returns orthonormal factors satisfying A V = U B and "
     "Lanczos singular values never exceed the true ones.",
     I, "all operators with a stated spectral gap, all start vectors", "tests use identity matrices and one random matrix",
     ["_src/lop/normest.py", "_src/sls/power.py", "_src/sls/svdpack/lanbpro.py", "_src/dict/props.py"],
     [("iterations with explicit stopping rules", "_src/lop/normest.py")],
     "differential against numpy SVD on matrices with prescribed spectra")

prop("C08", "Projectors return the nearest point of their set",
     "proj_l1_ball, proj_l2_ball (radius and centre), proj_box (one or two sided), proj_affine, proj_conic, proj_zero, proj_identity, proj_singleton, project_to_ball, project_to_box and "
     "project_to_real_upper_limit return, for every point, the closest point of the set they name. Hence the result is in the set, points of the set stay, projection is idempotent and non-expansive.",
     I, "all points, radii, centres, bounds and systems", "tests project a few hand-picked points", ["_src/opt/projectors/basic.py", "_src/opt/projectors/lpballs.py", "_src/opt/projections.py"],
     [("closed forms and the sort based threshold of the l1 ball", "_src/opt/projectors/lpballs.py")],
     "closed forms / bisection in float64, variational inequality")

prop("C09", "Proximal operators minimise f(z) + |z-x|^2/(2t)",
     "For prox_zero, prox_l1 (scalar or elementwise weights), prox_l2, prox_l1_pos, prox_l1_ball, prox_owl1 and functions built by prox_build / build_from_ind_proj, the proximal vector is the unique minimiser "
     "of f(z) + |z-x|^2/(2t), func returns f, and prox_vec_val and prox_value_vec return that vector with f at it. shrink is soft thresholding. Every call terminates.",
     I, "all arrays (ties, zeros, N-D, complex for l1 and l2), steps t > 0 and weights", "tests evaluate a few vectors without ties",
     ["_src/opt/proximal_ops/lpnorms.py", "_src/opt/proximal_ops/prox_sorted_l1.py", "_src/opt/proximal_ops/prox.py", "_src/opt/shrinkage.py"],
     [("shrinkage formulas; pooling loop of the sorted l1 norm", "_src/opt/proximal_ops/prox_sorted_l1.py")],
     "closed forms and an independent PAVA, minimality against random points, firm non-expansiveness")

prop("C10", "Smooth functions return the documented value and its true gradient",
     "smooth_constant, entropy, huber, linear, logdet, quad_matrix (symmetric P), quad_error, functions built by smooth_build / build2 / build3, translations and Moreau envelopes return the documented value "
     "f(x), the gradient of exactly that f, and the pair of both from grad_val and smooth_value_grad, for every x in the domain and all parameters. The Moreau envelope is min_z f(z)+|x-z|^2/(2 mu) with gradient (x - prox)/mu.",
     I, "all points (N-D for elementwise functions) and parameters", "tests evaluate each function at one or two points",
     ["_src/opt/smooth/", "_src/opt/prox_to_smooth.py"], [("separately written func, grad and grad_val", "_src/opt/smooth/smooth.py")],
     "closed forms plus symmetric differences of the library's own value")

prop("C11", "Indicator functions are 0 on their set and infinite off it",
     "indicator_zero, singleton (broadcast), affine, box (one or two sided), box_affine (with its tolerance), conic, l1_ball and l2_ball (radius, centre, matrix) return 0 for every member of the closed set, boundary "
     "included, and +inf for every other point. A box without bounds and an l2 ball with non-positive radius are rejected.",
     I, "all points and set parameters", "tests probe a few interior and exterior points, not boundaries or single-coordinate violations",
     ["_src/opt/indicators/basic.py", "_src/opt/indicators/lpballs.py"], [("comparison against the defining inequality", "_src/opt/indicators/basic.py")],
     "exact integer data so that membership is decided exactly")

prop("C12", "CG and PCG return Krylov-optimal points with honest residuals",
     "For every symmetric positive definite system, start, tolerance and iteration limit, conjugate gradients (with or without a positive definite preconditioner) returns the point minimising the A-norm error over the Krylov "
     "space of the steps it made, together with its true residual b - A x. It stops before the limit only when the residual tolerance is met, and does not go on once it is.",
     C, "all SPD systems (condition <= 30, n <= 14), starts, tolerances, limits, preconditioners", "tests solve one or two systems to convergence",
     ["_src/opt/cg.py", "_src/opt/pcg.py"], [("recurrences for x, r and p with the stopping test", "_src/opt/cg.py")],
     "explicit Krylov optimum and dense solve in numpy")

prop("C13", "LSQR solves the damped least squares problem and reports honest norms",
     "For over-, under- and square systems, real or complex, lsqr(A, b, x0, damp) converges to x0 + d where d is the minimum norm minimiser of |A d - (b - A x0)|^2 + damp^2 |d|^2, and after k steps is no worse than the "
     "corresponding Krylov optimum. The reported residual norm, normal-equation residual norm, solution norm and operator counts match the returned x; the norm and condition estimates are those of the bidiagonal matrix of the first steps; and it stops exactly when a tolerance (atol, btol, conlim) is met or at the iteration limit.",
     C, "all matrices (condition <= 50, rank deficient included), right sides, starts, damping, tolerances, limits", "tests solve three consistent real overdetermined systems from zero",
     ["_src/sls/lsqr.py"], [("Golub-Kahan bidiagonalization with plane rotations", "_src/sls/lsqr.py")],
     "SVD solution and explicit Krylov optimum in numpy; both precisions")

prop("C14", "ISTA, FISTA and SPG follow their iteration and stop for the stated reason",
     "ISTA and FISTA produce, for every operator, basis, threshold rule, step and start, the iterates of the documented recursion, report the residual b - A x and its norm for the x they return, and stop exactly when the residual "
     "tolerance, the change tolerance or the iteration limit is reached. SPG returns a feasible point, with its true gradient, that minimises a smooth strongly convex function over the given convex set.",
     C, "all problem data, thresholds, bases, stopping parameters, convex sets", "tests run each solver on one problem (SPG: none)",
     ["_src/sls/ista.py", "_src/sls/fista.py", "_src/sls/defs.py", "_src/opt/spg.py"], [("while loop state updates", "_src/sls/fista.py")],
     "numpy reference iteration with the stopping rules checked at every iterate; long projected gradient runs for SPG")

exec(open(os.path.join(V, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta_more.py")) else None

NA = []
props = [p for p in P if os.path.exists(os.path.join(V, "harness", "props", p["id"].lower() + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps({k: v for k, v in p.items() if k != "_note"}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, 'vendor'); import hypothesis, jax, cr.sparse; print('ok')\"",
    "checks": [{"property": p["id"], "quick_cmd": f"./check.py {p['id']} --tier quick", "thorough_cmd": f"./check.py {p['id']} --tier thorough",
                "technique": "property-based testing (Hypothesis): " + p["_note"], "level": "exploration",
                "level_note": "Held on every generated case (counts in the evidence file); sampled, not exhaustive. Trusts jax, numpy, scipy, cr-nimble, "
                              "cr-wavelets and the float64 oracles in /verif/harness."} for p in props],
    "not_applicable": NA,
    "notes": "No hooks in /repo. Checks import cr.sparse from /repo/src (pure Python, nothing to build). Known findings and fixed defects: known_findings.json.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props), "properties")
