"""C19: SPGL1 (LASSO with an l1 ball, basis pursuit, and its noisy version)."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog
import jax
import jax.numpy as jnp
from cr.sparse import lop
from cr.sparse.cvx import spgl1

from harness.core import sub, require
from harness import count
from harness.g import same, finite, SEED
from harness.l1ref import bpic_opt, lasso_ball_opt




@st.composite
def gen(draw, mode):
    m, n = draw(st.sampled_from([(3, 5), (6, 10), (8, 8), (10, 20), (14, 8)] if mode == "lasso" else [(3, 5), (6, 10), (8, 8), (10, 20)]))
    return {"mode": mode, "m": m, "n": n, "us": draw(SEED), "c": draw(st.sampled_from([False, False, True])),
            "rows": draw(st.booleans()), "level": draw(st.sampled_from([0.0, 0.02, 0.1, 0.4, 0.9, 1.0, 1.6] if mode != "bp" else [0.0])),
            "x0": draw(st.sampled_from([False, False, True])), "jit": draw(st.booleans()), "tol": draw(st.sampled_from([1e-4, 1e-4, 1e-6])),
            "mem": draw(st.sampled_from([1, 3, 3, 8])), "scale": draw(st.sampled_from([1.0, 5.0, 0.2])), "mi": draw(st.sampled_from([500, 500, 500, 3])),
            "noise": draw(st.sampled_from([0.0, 0.1])), "breal": draw(st.sampled_from([False, False, True]))}


def data(case):
    rng = np.random.RandomState(case["us"])
    m, n, c = case["m"], case["n"], case["c"]

    def g(*s):
        return rng.standard_normal(s) + (1j * rng.standard_normal(s) if c else 0)
    A = g(m, n)
    if case["rows"] and m <= n:
        A = np.linalg.qr(A.conj().T)[0].conj().T
    else:
        U, s, Vh = np.linalg.svd(A, full_matrices=False)
        A = U @ np.diag(np.linspace(1.0, 0.5, s.size)) @ Vh      # bounded condition number
    x = g(n) * (rng.random_sample(n) < 0.3)
    x[rng.randint(n)] += 1.0
    b = (A @ x + case["noise"] * g(m)) * case["scale"]
    if case["breal"]:
        b = b.real
    return A, b, g(n)


def run(case):
    A, b, x0 = data(case)
    m, n, mode = case["m"], case["n"], case["mode"]
    J = jnp.asarray
    calls = [0, 0]
    T = count.counted(lop.matrix(J(A)), calls)
    o = spgl1.SPGL1Options(opt_tol=case["tol"], max_iters=case["mi"], memory=case["mem"])
    nb = np.linalg.norm(b)
    hist = {}

    def tracker(state, more=None):
        hist[int(state.iterations)] = (np.asarray(state.x), np.asarray(state.r), float(state.r_norm), np.asarray(state.f_past), int(state.n_ls_iters),
                                       float(getattr(state, "tau", 0.0)), np.asarray(state.g), float(np.real(state.r_gap)),
                                       float(getattr(state, "r_res_error", 0.0)), float(getattr(state, "r_f_error", 0.0)))
    kw = {"options": o}
    kw["tracker"] = tracker
    jit = case["jit"]
    tau = sigma = None
    if mode == "lasso":
        ref = np.abs(np.linalg.lstsq(A, b, rcond=None)[0]).sum()
        tau = float(max(case["level"], 0.01) * ref)
        if case["x0"]:
            s = spgl1.solve_lasso_from(T, J(b), tau, J(x0), **kw)
        else:
            s = (spgl1.solve_lasso_jit if jit else spgl1.solve_lasso)(T, J(b), tau, **kw)
    elif mode == "bpic":
        sigma = float(case["level"] * nb)
        if case["x0"]:
            s = (spgl1.solve_bpic_from_jit if jit else spgl1.solve_bpic_from)(T, J(b), sigma, J(0.3 * case["scale"] * x0), **kw)
        else:
            s = (spgl1.solve_bpic_jit if jit else spgl1.solve_bpic)(T, J(b), sigma, **kw)
    else:
        sigma = 0.0
        s = (spgl1.solve_bp_jit if jit else spgl1.solve_bp)(T, J(b), **kw)
    jax.effects_barrier()
    x, r, it = np.asarray(s.x), b - A @ np.asarray(s.x), int(s.iterations)
    finite(x, "solution")
    rn = np.linalg.norm(r)
    l1 = np.abs(x).sum()
    f = 0.5 * rn ** 2
    same(np.asarray(s.r), r, "reported residual is not b - A x", rtol=1e-7, atol=1e-9 * nb)
    same(np.asarray(s.g), -A.conj().T @ r, "reported gradient", rtol=1e-6, atol=1e-8 * nb)
    same(float(np.real(s.r_norm)), rn, "reported residual norm", rtol=1e-6, atol=1e-9 * nb)
    same(float(np.asarray(s.f_past)[0]), f, "reported objective", rtol=1e-6, atol=1e-12 * nb ** 2)
    require(1 <= it <= case["mi"], "iteration count", it=it)
    count.check(calls, s)
    t_end = tau if mode == "lasso" else float(s.tau)
    # history: every state is feasible, consistent, and passes the non-monotone descent test
    ks = sorted(hist)
    require(ks == list(range(1, it + 1)), "states shown to the tracker", got=len(ks), it=it)
    for k in ks:
        xk, rk, rnk, fp, ls, tk, gk, gapk, rek, fek = hist[k]
        if mode == "lasso":
            require(np.abs(xk).sum() <= tau * (1 + 1e-8) + 1e-10, "an iterate left the l1 ball", k=k, l1=np.abs(xk).sum(), tau=tau)
        same(rk, b - A @ xk, "an iterate's residual", rtol=1e-6, atol=1e-8 * nb)
        same(rnk, np.linalg.norm(rk), "an iterate's residual norm", rtol=1e-6, atol=1e-9 * nb)
        same(fp[0], 0.5 * np.linalg.norm(rk) ** 2, "an iterate's objective", rtol=1e-6, atol=1e-12 * nb ** 2)
        fm = max(1.0, fp[0])

        def gap_of(t):
            return abs(np.vdot(rk, rk - b) + t * np.abs(gk).max()) / fm
        eps = 1e-8 * (1 + nb ** 2)
        if mode == "lasso":
            same(gapk, gap_of(tau), "an iterate's duality gap", rtol=1e-6, atol=eps)
            go = gapk > case["tol"] and rnk >= case["tol"] * nb
            near = abs(gapk - case["tol"]) <= eps + 1e-6 * case["tol"] or abs(rnk - case["tol"] * nb) <= 1e-6 * case["tol"] * nb
        else:
            # the gap belongs to the ball before or after the last change of the radius
            want = [gap_of(tk)] + ([gap_of(hist[k - 1][5])] if k > 1 else [gap_of(np.abs(xk).sum())])
            require(min(abs(gapk - w) for w in want) <= eps + 1e-6 * gapk, "an iterate's duality gap", got=gapk, want=want)
            same(rek, abs(rnk - sigma) / max(1.0, rnk), "an iterate's residual error", rtol=1e-6, atol=1e-9 * nb)
            same(fek, abs(fp[0] - sigma ** 2 / 2) / fm, "an iterate's objective error", rtol=1e-6, atol=1e-9 * nb ** 2)
            ga = max(case["tol"], fek)
            u, v, w = rnk > sigma, rek > case["tol"], rnk > 1e-6 * nb
            go = (gapk > ga and v) or (u and v and w)
            near = (abs(gapk - ga) <= eps + 1e-6 * ga or abs(rek - case["tol"]) <= 1e-9 * nb + 1e-6 * case["tol"] or abs(rnk - sigma) <= 1e-9 * nb
                    or abs(rnk - 1e-6 * nb) <= 1e-9 * nb)
        if not near and (k < it or it < case["mi"]):
            require(go == (k < it), "stopped early for no reason" if go else "went on although the stopping rule held", k=k, it=it, gap=gapk, r=rnk,
                    res_error=rek, f_error=fek)
        if k > 1:
            pf = hist[k - 1][3]
            same(fp[1:], pf[:-1], "memory of past objectives", rtol=1e-12, atol=1e-300)
            if mode == "lasso" and ls - hist[k - 1][4] < 10:
                require(fp[0] <= pf.max() * (1 + 1e-9) + 1e-12 * nb ** 2, "the objective rose above all remembered values", k=k, f=fp[0], past=pf)
    require(l1 <= t_end * (1 + 1e-8) + 1e-10 or mode != "lasso", "outside the l1 ball", l1=l1, tau=t_end)
    if it >= case["mi"]:
        if case["mi"] > 100 and mode == "lasso" and case["tol"] >= 1e-4 and case["mem"] <= 3:
            opt = None if case["c"] else lasso_ball_opt(A, b, tau)
            if opt is not None:
                fo = 0.5 * np.linalg.norm(b - A @ opt) ** 2
                require(f - fo <= 1e-2 * max(1, fo), "did not converge", f=f, optimum=fo)
        return False
    tol = case["tol"]
    fm = max(1.0, f)
    gap = abs(np.vdot(r, r - b) + t_end * np.abs(A.conj().T @ r).max()) / fm
    if mode == "lasso":
        require(gap <= tol * (1 + 1e-6) + 1e-10 or rn < tol * nb * (1 + 1e-6), "stopped early for no reason", gap=gap, r=rn, it=it)
        opt = None if case["c"] else lasso_ball_opt(A, b, tau)
        if opt is not None:
            fo = 0.5 * np.linalg.norm(b - A @ opt) ** 2
            require(f <= fo + tol * fm * 1.01 + 0.5 * (tol * nb) ** 2 * 1.01 + 1e-10, "not within the tolerance of the optimum", f=f, optimum=fo)
            require(f >= fo - 1e-8 * (1 + fo), "the reference is not optimal (internal)", f=f, optimum=fo)
        return it > 1
    # noisy basis pursuit: feasible, and close to the smallest l1 norm
    rm = max(1.0, rn)
    feas = rn <= sigma * (1 + 1e-9) or abs(rn - sigma) / rm <= tol * (1 + 1e-6) or rn <= 1e-6 * nb
    require(feas, "stopped with an infeasible solution", r=rn, sigma=sigma, it=it)
    if nb <= sigma and not case["x0"]:
        same(x, np.zeros(n), "zero is optimal")
        return True
    if not case["c"]:
        if sigma == 0:
            lp = linprog(np.ones(2 * n), A_eq=np.concatenate([A, -A], 1), b_eq=b)
            best = lp.fun if lp.status == 0 else None
        else:
            xo = bpic_opt(A, b, sigma)
            best = None if xo is None else np.abs(xo).sum()
        if best is not None:
            slack = np.sqrt(n) * max(rn - sigma, 0) / 0.5
            require(l1 >= best - slack * 3 - 1e-6 * best - 1e-9, "smaller than the optimum (internal)", l1=l1, optimum=best)
            if not case["x0"] and best > 0:
                require(l1 <= best * 1.15 + 0.02 * case["scale"], "far from the smallest l1 norm", l1=l1, optimum=best, it=it)
    return it > 1


RULE = ("drawn operators with bounded condition number (real and complex), data, radius/noise level, tolerance, memory and start; every state shown to "
        "the tracker is checked; stopping is justified from the returned point; oracle for optimality = LASSO homotopy / linear programming in numpy; "
        "non-trivial = converged after more than one iteration")


@sub("C19", "lasso", gen("lasso"), 40, RULE)
def t_lasso(case):
    return run(case)


@sub("C19", "bpic", gen("bpic"), 24, RULE)
def t_bpic(case):
    return run(case)


@sub("C19", "bpic_b", gen("bpic"), 24, RULE)
def t_bpic_b(case):
    return run(case)


@sub("C19", "bp", gen("bp"), 24, RULE)
def t_bp(case):
    return run(case)
