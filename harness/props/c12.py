"""C12: conjugate gradients and preconditioned conjugate gradients."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.opt.cg as cg
import cr.sparse.opt.pcg as pcg

from harness.core import sub, require
from harness.g import same, finite, SEED

N = [1, 2, 3, 4, 6, 9, 14]


def spd(rng, n, cond, k):
    """SPD matrix with k distinct eigenvalues and condition number <= cond"""
    e = np.exp(rng.uniform(0, np.log(cond), max(k, 1)))
    ev = e[rng.randint(0, len(e), n)]
    Q = np.linalg.qr(rng.standard_normal((n, n)))[0]
    A = (Q * ev) @ Q.T
    return (A + A.T) / 2


def krylov_best(A, b, x0, k, M):
    """minimiser of the A-norm error over x0 + span{M r0, (MA) M r0, ...}, dimension <= k"""
    n = len(b)
    r0 = b - A @ x0
    if k <= 0 or not np.any(r0):
        return x0
    v = M @ r0
    Q = np.zeros((n, 0))
    for _ in range(min(k, n)):
        w = v - Q @ (Q.T @ v)
        w = w - Q @ (Q.T @ w)
        nw = np.linalg.norm(w)
        if nw <= 1e-9 * np.linalg.norm(v) or nw == 0:
            break
        Q = np.column_stack([Q, w / nw])
        v = M @ (A @ Q[:, -1])
    c = np.linalg.solve(Q.T @ A @ Q, Q.T @ r0)
    return x0 + Q @ c


@st.composite
def gen(draw, pre):
    return {"n": draw(st.sampled_from(N)), "us": draw(SEED), "cond": draw(st.sampled_from([1.0, 3.0, 30.0])),
            "k": draw(st.integers(1, 6)), "x0": draw(st.sampled_from(["none", "zero", "rand", "exact"])),
            "b": draw(st.sampled_from(["rand", "sparse", "big", "small", "zero"])),
            "mi": draw(st.sampled_from([None, 0 if not pre else 1, 1, 2, 3, 5, 60])), "tol": draw(st.sampled_from([1e-2, 1e-4, 1e-8])),
            "M": draw(st.sampled_from(["none", "jacobi", "rand"])) if pre else "none", "jit": draw(st.booleans()),
            "as": draw(st.sampled_from([1.0, 1.0, 1e-3, 200.0])), "ms": draw(st.sampled_from([1.0, 1e-4, 50.0])),
            "atol": draw(st.sampled_from([0.0, 0.0, 1e-3]))}


def setup(case):
    rng = np.random.RandomState(case["us"])
    n = case["n"]
    A = spd(rng, n, case["cond"], case["k"]) * case.get("as", 1.0)
    b = rng.standard_normal(n)
    if case["b"] == "sparse":
        b = b * (np.arange(n) == rng.randint(n))
    b = b * {"big": 1e3, "small": 1e-3, "zero": 0.0}.get(case["b"], 1.0)
    xs = np.linalg.solve(A, b)
    x0 = {"rand": rng.standard_normal(n), "exact": xs}.get(case["x0"], np.zeros(n))
    return rng, A, b, xs, x0


def enorm(A, e):
    return float(np.sqrt(max(e @ A @ e, 0)))


@sub("C12", "cg", gen(False), 230, "SPD systems with clustered spectra and condition <= 30, drawn start, tolerance and iteration "
     "limit; reference = explicit Krylov optimum and dense solve; non-trivial = at least one iteration was made")
def t_cg(case):
    rng, A, b, xs, x0 = setup(case)
    n, tol = case["n"], case["tol"]
    kw = {"res_norm_rtol": tol}
    if case["mi"] is not None:
        kw["max_iters"] = case["mi"]
    jA, jb = jnp.asarray(A), jnp.asarray(b)
    if case["x0"] == "none":
        s = (cg.solve_jit if case["jit"] else cg.solve)(jA, jb, **kw)
    else:
        s = (cg.solve_from_jit if case["jit"] else cg.solve_from)(jA, jb, jnp.asarray(x0), **kw)
    mi = n if case["mi"] is None else case["mi"]
    it = int(s.iterations)
    x = np.asarray(s.x)
    finite(x, "CG solution")
    r = b - A @ x
    sc = np.linalg.norm(A, 2) * (np.linalg.norm(x) + np.linalg.norm(x0)) + np.linalg.norm(b)
    same(np.asarray(s.r), r, "reported residual is not b - A x", rtol=1e-6, atol=1e-10 * sc)
    same(float(s.r_norm_sqr), r @ r, "reported residual norm", rtol=1e-5, atol=1e-18 * sc ** 2 + 1e-300)
    require(0 <= it <= mi, "more iterations than allowed", iterations=it, max_iters=mi)
    nb, nr = np.linalg.norm(b), np.linalg.norm(r)
    if it < mi:
        require(nr <= tol * nb * (1 + 1e-6) + 1e-12 * sc, "stopped early without meeting the tolerance", res=nr, tol=tol * nb)
    elif it > 0:
        pass
    # optimality over the Krylov space of the reported dimension
    if it == 0:
        same(x, x0, "no iteration, but x moved", rtol=0, atol=0)
    else:
        xb = krylov_best(A, b, x0, it, np.eye(n))
        e0, eb, e = enorm(A, x0 - xs), enorm(A, xb - xs), enorm(A, x - xs)
        require(e <= eb + 1e-6 * e0 + 1e-9 * sc, "not the best point of its Krylov space", err=e, best=eb, k=it)
    if it >= n and case["b"] != "zero":
        require(enorm(A, x - xs) <= 1e-5 * enorm(A, x0 - xs) + 1e-9 * sc, "n iterations did not solve the system")
    # the tolerance is not overshot by needless iterations
    if it >= 1:
        xp = krylov_best(A, b, x0, it - 1, np.eye(n))
        rp = np.linalg.norm(b - A @ xp)
        require(rp > tol * nb * (1 - 1e-3) - 1e-9 * sc, "iterated although the tolerance was already met", prev=rp)
    return it >= 1


@sub("C12", "pcg", gen(True), 90, "same with a drawn SPD preconditioner and A given as a function; reference = explicit "
     "preconditioned Krylov optimum and dense solve; non-trivial = at least one iteration was made")
def t_pcg(case):
    rng, A, b, xs, x0 = setup(case)
    n, tol = case["n"], case["tol"]
    kw = {"tol": tol}
    if case["mi"] is not None:
        kw["max_iters"] = case["mi"]
    if case["atol"]:
        kw["atol"] = case["atol"]
    M = np.eye(n)
    if case["M"] == "jacobi":
        M = np.diag(1 / np.diag(A))
    elif case["M"] == "rand":
        M = spd(rng, n, 4.0, 4)
    if case["M"] != "none":
        M = M * case["ms"]
        jM = jnp.asarray(M)
        kw["M"] = lambda r: jM @ r
    jA, jb = jnp.asarray(A), jnp.asarray(b)

    def op(x):
        return jA @ x
    if case["x0"] == "none":
        s = (pcg.solve_jit if case["jit"] else pcg.solve)(op, jb, **kw)
    else:
        s = (pcg.solve_from_jit if case["jit"] else pcg.solve_from)(op, jb, jnp.asarray(x0), **kw)
    mi = 20 if case["mi"] is None else case["mi"]
    it = int(s.iterations)
    x = np.asarray(s.x)
    finite(x, "PCG solution")
    r = b - A @ x
    nb, nr = np.linalg.norm(b), np.linalg.norm(r)
    sc = np.linalg.norm(A, 2) * (np.linalg.norm(x) + np.linalg.norm(x0)) + nb
    same(np.asarray(s.r), r, "reported residual is not b - A x", rtol=1e-6, atol=1e-10 * sc)
    require(it <= mi, "more iterations than allowed", iterations=it, max_iters=mi)
    lim = max(tol * nb, case["atol"])
    if it < mi:
        require(nr <= lim * (1 + 1e-6) + 1e-12 * sc, "stopped early without meeting the tolerance", res=nr, lim=lim)
    # the count includes the initial step; the point is optimal in one of the two Krylov spaces
    e0, e = enorm(A, x0 - xs), enorm(A, x - xs)
    eb = enorm(A, krylov_best(A, b, x0, it - 1, M) - xs)
    require(e <= eb + 1e-6 * e0 + 1e-9 * sc, "not the best point of its Krylov space", err=e, best=eb, it=it)
    if mi > n + 1 and nb > 0:
        require(nr <= lim * (1 + 1e-6) + 1e-8 * sc, "did not converge within n iterations", res=nr)
    return it >= 2
