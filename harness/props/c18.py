"""C18: l1-regularised least squares by interior points, and FOCUSS."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
from cr.sparse import lop
from cr.sparse.cvx import l1ls, focuss

from harness.core import sub, require
from harness import count
from harness.g import same, finite, SEED


@st.composite
def gen(draw):
    m, n = draw(st.sampled_from([(1, 1), (3, 3), (4, 9), (8, 5), (8, 16), (12, 30)]))
    return {"m": m, "n": n, "us": draw(SEED), "level": draw(st.sampled_from([1e-3, 0.05, 0.3, 0.8, 1.0, 1.7])),
            "tol": draw(st.sampled_from([1e-2, 1e-3, 1e-5])), "scale": draw(st.sampled_from([1.0, 1.0, 30.0, 0.03])),
            "start": draw(st.sampled_from(["none", "none", "x0", "from", "from"])), "x0s": draw(st.sampled_from([0.1, 1.0, 20.0])),
            "jit": draw(st.booleans()), "unit": draw(st.booleans()), "mi": draw(st.sampled_from([400, 400, 3])), "t0": draw(st.sampled_from([None, None, 5.0]))}


@sub("C18", "l1ls", gen(), 60, "drawn A, y, regularisation (from tiny to past the point where zero is optimal), tolerance and start; oracle = a dual "
     "feasible point built from the returned residual, and coordinate descent run to convergence; non-trivial = a non-zero minimiser")
def t_l1ls(case):
    rng = np.random.RandomState(case["us"])
    m, n, tol = case["m"], case["n"], case["tol"]
    A = rng.standard_normal((m, n))
    A = A / np.linalg.norm(A, axis=0) if case["unit"] else A / np.sqrt(m)
    x = rng.standard_normal(n) * (rng.random_sample(n) < 0.4)
    y = (A @ x + 0.1 * rng.standard_normal(m)) * case["scale"]
    lam = case["level"] * 2 * np.abs(A.T @ y).max()
    J = jnp.asarray
    calls = [0, 0]
    T = count.counted(lop.matrix(J(A)), calls)
    kw = {"tol": tol, "max_iters": case["mi"]}
    if case["t0"] is not None:
        kw["t0"] = case["t0"]
    if case["start"] == "from":
        x0 = case["x0s"] * rng.standard_normal(n)
        u0 = np.abs(x0) + 0.5 + rng.random_sample(n)
        s = (l1ls.solve_from_jit if case["jit"] else l1ls.solve_from)(T, J(y), lam, J(x0), J(u0), **kw)
    elif case["start"] == "x0":
        s = l1ls.solve(T, J(y), lam, x0=J(case["x0s"] * rng.standard_normal(n)), **kw)
    else:
        s = (l1ls.solve_jit if case["jit"] else l1ls.solve)(T, J(y), lam, **kw)
    z, r, it = np.asarray(s.x), np.asarray(s.r), int(s.iterations)
    finite(z, "solution")
    count.check(calls, s)
    same(r, y - A @ z, "reported residual is not y - A x", rtol=1e-7, atol=1e-9 * np.linalg.norm(y))
    require(1 <= it <= case["mi"], "iteration count", it=it)

    def P(v):
        return np.sum((A @ v - y) ** 2) + lam * np.abs(v).sum()
    if case["level"] >= 1.0 - 1e-12 and case["start"] == "none":
        same(z, np.zeros(n), "zero is optimal", atol=1e-6 * case["scale"])
        return False
    # the minimum, by coordinate descent from the returned point and from zero
    best = np.inf
    G, c = A.T @ A, A.T @ y
    for w in (np.zeros(n), z.copy()):
        for _ in range(400):
            old = w.copy()
            for j in range(n):
                q = c[j] - G[j] @ w + G[j, j] * w[j]
                w[j] = np.sign(q) * max(abs(q) - lam / 2, 0) / G[j, j]
            if np.abs(w - old).max() <= 1e-12 * (1 + np.abs(w).max()):
                break
        best = min(best, P(w))
    # stopped by itself: the relative duality gap is within the tolerance, so P(x) <= (1 + tol) min P
    if it < case["mi"]:
        require(P(z) <= best * (1 + tol * 1.01) + 1e-12, "the reported optimum is not within the tolerance", got=P(z), optimum=best, it=it)
    elif case["mi"] > 100:
        require(P(z) <= best * (1 + 10 * tol) + 1e-12, "did not converge in 400 Newton steps", got=P(z), optimum=best)
    return it > 1 and case["mi"] > 100


@st.composite
def gen_f(draw):
    m, n, k = draw(st.sampled_from([(4, 6, 1), (6, 10, 2), (10, 20, 3), (16, 24, 4)]))
    return {"m": m, "n": n, "k": k, "us": draw(SEED), "p": draw(st.sampled_from([0.5, 0.75, 0.9, 1.0])), "mi": draw(st.sampled_from([0, 1, 2, 3, 20, 60])),
            "sparse": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 100.0, 0.01]))}


@sub("C18", "focuss", gen_f(), 60, "drawn wide matrices and data (sparse or not); reference = the reweighted minimum-norm step by pseudo-inverse in "
     "numpy; invariants: Phi x = y after every step, sum |x|^(2-2p) never increases; non-trivial = at least two steps")
def t_focuss(case):
    rng = np.random.RandomState(case["us"])
    m, n, p = case["m"], case["n"], case["p"]
    A = rng.standard_normal((m, n)) / np.sqrt(m)
    x = np.zeros(n)
    x[rng.permutation(n)[:case["k"] if case["sparse"] else n]] = rng.standard_normal(case["k"] if case["sparse"] else n)
    y = A @ x * case["scale"]
    s = focuss.matrix_solve_noiseless(jnp.asarray(A), jnp.asarray(y), p=p, max_iters=case["mi"])
    z = np.asarray(s.x)
    finite(z, "solution")
    require(int(s.iterations) == case["mi"], "iterations", it=int(s.iterations))
    require(int(s.length) == n, "length")
    ny = np.linalg.norm(y)
    r = y - A @ z
    same(np.asarray(s.r), r, "reported residual", rtol=1e-7, atol=1e-9 * ny)
    same(float(s.r_norm_sqr), r @ r, "reported squared residual norm", rtol=1e-6, atol=1e-16 * ny ** 2)
    if case["mi"] == 0:
        same(z, np.ones(n), "start")
        return False
    require(np.linalg.norm(r) <= 1e-6 * ny, "the iterate does not satisfy Phi x = y", r=np.linalg.norm(r), y=ny)
    # replay, single steps from the same point
    w = np.ones(n)
    q = 2 - 2 * p
    for k in range(min(case["mi"], 8)):
        d = np.abs(w) ** p
        nxt = d * (np.linalg.pinv(A * d) @ y)
        one = np.asarray(focuss.step_noiseless(jnp.asarray(A), jnp.asarray(y), jnp.asarray(w), p))
        same(one, nxt, "one reweighted least squares step", rtol=1e-5, atol=1e-6 * np.abs(nxt).max())
        if k > 0:
            if q > 0:
                require(np.sum(np.abs(one) ** q) <= np.sum(np.abs(w) ** q) * (1 + 1e-6) + 1e-12, "sum |x|^(2-2p) increased", k=k)
        w = nxt
    if case["mi"] <= 3:
        same(z, w, f"iterate {case['mi']}", rtol=1e-4, atol=1e-5 * np.abs(w).max())
    I = np.asarray(s.I)
    same(np.asarray(s.x_I), z[I], "x_I")
    keep = np.sum(z[I] ** 2) >= 0.99 * np.sum(z ** 2) * (1 - 1e-9)
    require(keep, "the reported support holds less than 99 % of the energy")
    return case["mi"] >= 2
