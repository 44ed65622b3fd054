"""C17: the YALL1 alternating direction solvers."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog
import jax.numpy as jnp
from cr.sparse import lop
from cr.sparse.cvx.adm import yall1

from harness.core import sub, require
from harness import count
from harness.g import same, finite, SEED


@st.composite
def gen(draw, mode, tight):
    m, n = draw(st.sampled_from([(3, 6), (4, 4), (6, 10), (10, 20), (12, 24)]))
    return {"mode": mode, "m": m, "n": n, "us": draw(SEED), "nonneg": draw(st.sampled_from([False, False, True])),
            "w": draw(st.sampled_from([0, 0, 1, 2])), "W": draw(st.sampled_from([False, False, True])), "x0": draw(st.sampled_from([False, False, True])),
            "z0": draw(st.sampled_from([False, False, True])), "gamma": draw(st.sampled_from([1.0, 1.0, 0.7, 1.5])), "jit": draw(st.booleans()),
            "level": draw(st.sampled_from([0.02, 0.1, 0.5, 0.9, 1.5])), "scale": draw(st.sampled_from([1.0, 1.0, 50.0, 0.02])),
            "noise": draw(st.sampled_from([0.0, 0.05])), "count": draw(st.sampled_from([False, False, not tight])), "tol": 1e-7 if tight else draw(st.sampled_from([5e-3, 1e-2, 1e-4, 0.2])),
            "mi": 6000 if tight else draw(st.sampled_from([1, 2, 5, 40, None]))}


def data(case):
    rng = np.random.RandomState(case["us"])
    m, n = case["m"], case["n"]
    A = np.linalg.qr(rng.standard_normal((n, m)))[0].T
    B = np.linalg.qr(rng.standard_normal((n, n)))[0] if case["W"] else np.eye(n)
    a = rng.standard_normal(n) * (rng.random_sample(n) < 0.3)
    a[rng.randint(n)] += 1.0
    if case["nonneg"]:
        a = np.abs(a)
    Q = A @ B
    b = (Q @ a + case["noise"] * rng.standard_normal(m)) * case["scale"]
    w = [np.ones(n), 0.3 + rng.random_sample(n), np.full(n, 0.25)][case["w"]]
    x0 = rng.standard_normal(n) if case["x0"] else None
    z0 = 0.5 * rng.standard_normal(n) if case["z0"] else None
    return A, B, Q, b, w, x0, z0


def replay(case, Q, b, w, x0, z0, rho, delta, nonneg, tol, mi, its):
    """The published iteration (eq. 2.25 / 2.27 / 2.29) on data scaled to unit peak."""
    bm = np.abs(b).max()
    x = Q.T @ b / bm if x0 is None else x0
    z = np.zeros(Q.shape[1]) if z0 is None else z0
    b = b / bm
    rho, delta = rho / bm, delta / bm
    mu = np.abs(b).mean()
    g = case["gamma"]
    xp, rd, P, D = np.zeros_like(x), -Q.T @ b, np.sum(np.abs(w * x)), 0.0
    rp = b - Q @ x
    if rho:
        P = P + rp @ rp / (2 * rho)
    nb = np.linalg.norm

    def tests(k):
        with np.errstate(all="ignore"):
            ch = nb(x - xp) / nb(x)
            q = 1.0 if case["mode"] == "delta" else 0.9
            stable = [ch, tol * q]
            gap = [np.abs(D - P) / P, tol]
            dual = [nb(rd) / nb(z), tol]
            prim = [nb(rp), delta * (1 + tol) if case["mode"] == "delta" else tol * nb(b)]
        return stable, [gap, dual] + ([] if case["mode"] == "rho" else [prim])

    def below(p, slack):
        return not p[0] > p[1] * (1 + slack)

    k = 0
    while True:
        s, t = tests(k)
        if k >= its:
            break
        # the library went on: neither stopping test can have held
        require(not (np.isfinite(s[0]) and s[0] < s[1] * (1 - 1e-6) - 1e-13), "went on although the iterates had settled", k=k, test=s)
        require(not all(np.isfinite(p[0]) and p[0] < p[1] * (1 - 1e-6) - 1e-13 for p in t), "went on although the optimality tests held", k=k, tests=t)
        for _ in range(2):
            y = Q @ (z - x / mu) + b / mu
            if case["mode"] == "rho":
                y = y / (1 + rho / mu)
            elif case["mode"] == "delta":
                y = max(0.0, 1 - delta / mu / max(nb(y), 1e-300)) * y
            Aty = Q.T @ y
            v = Aty + x / mu
            z = np.minimum(w, v) if nonneg else v * (w / np.maximum(w, np.abs(v)))
            rd = z - Aty
            xp = x
            x = x - g * mu * rd
            rp = b - Q @ x
            P = np.sum(np.abs(w * x))
            D = b @ y
            if case["mode"] == "rho":
                P, D = P + rp @ rp / (2 * rho), D - 0.5 * rho * y @ y
            elif case["mode"] == "delta":
                D = D - delta * nb(y)
            k += 1
    settled = below(s, 1e-6)
    opt = all(below(p, 1e-6) for p in t)
    if k < mi:
        require(settled or opt, "stopped early for no reason", it=its, settled=s, tests=t)
    return bm * x, bm * rp, opt


def certificate(case, Q, b, w, a, rho, delta, nonneg, tol):
    """Distance from optimality of a, by a dual certificate (or linear programming for basis pursuit)."""
    r = b - Q @ a
    P = np.sum(w * np.abs(a))
    nb = np.linalg.norm(b)
    if case["mode"] == "bp":
        c = np.concatenate([w, w])
        lp = linprog(w, A_eq=Q, b_eq=b) if nonneg else linprog(c, A_eq=np.concatenate([Q, -Q], 1), b_eq=b)
        if lp.status != 0:
            return
        require(np.linalg.norm(r) <= 20 * tol * nb, "the solution does not satisfy A x = b", r=np.linalg.norm(r), b=nb)
        require(abs(P - lp.fun) <= 1e-4 * abs(lp.fun) + 1e-9, "not a minimiser of the l1 norm", got=P, optimum=lp.fun)
        return
    g = Q.T @ r / w
    sc = g.max() if nonneg else np.abs(g).max()
    if case["mode"] == "rho":
        y = r / max(rho, sc)
        P = P + r @ r / (2 * rho)
        D = b @ y - 0.5 * rho * y @ y
    else:
        require(np.linalg.norm(r) <= delta * (1 + 20 * tol) + 20 * tol * nb, "the residual constraint is violated", r=np.linalg.norm(r), delta=delta)
        if sc <= 0:
            return
        y = r / sc
        D = b @ y - delta * np.linalg.norm(y)
    require(P - D <= 2e-4 * abs(P) + 1e-9, "far from the optimum", primal=P, dual=D)


def run(case):
    A, B, Q, b, w, x0, z0 = data(case)
    n, nonneg, tol = case["n"], case["nonneg"], case["tol"]
    if not np.any(b):
        return False
    rho = case["level"] * np.abs(Q.T @ b / w).max() if case["mode"] == "rho" else 0.0
    delta = case["level"] * np.linalg.norm(b) if case["mode"] == "delta" else 0.0
    J = jnp.asarray
    kw = {"nonneg": nonneg, "gamma": case["gamma"], "tolerance": tol, "jit": case["jit"]}
    if case["mi"] is not None:
        kw["max_iters"] = case["mi"]
    mi = 9999 if case["mi"] is None else case["mi"]
    if case["w"] == 1:
        kw["weights"] = J(w)
    elif case["w"] == 2:
        kw["weights"] = 0.25
    if case["W"]:
        kw["W"] = lop.matrix(J(B))
    if x0 is not None:
        kw["x0"] = J(x0)
    if z0 is not None:
        kw["z0"] = J(z0)
    if rho:
        kw["rho"] = float(rho)
    if delta:
        kw["delta"] = float(delta)
    op, calls = lop.matrix(J(A)), [0, 0]
    if case["count"]:
        op = count.counted(op, calls)
    s = yall1.solve(op, J(b), **kw)
    if case["count"]:
        count.check(calls, s)
    x, r, its = np.asarray(s.x), np.asarray(s.r), int(s.iterations)
    finite(x, "solution")
    nb = np.linalg.norm(b)
    # zero is optimal exactly when |A' b| <= rho w / |b| <= delta
    zero = (case["mode"] == "rho" and np.all(np.abs(Q.T @ b) <= rho * w * (1 + 1e-9))) or (case["mode"] == "delta" and nb <= delta * (1 + 1e-9))
    if zero:
        same(x, np.zeros(n), "the optimum is zero")
        same(r, b, "residual of the zero solution")
        return True
    require(its % 2 == 0 and its <= mi + 1, "iteration count", it=its, max_iters=mi)
    a, rp, opt = replay(case, Q, b, w, x0, z0, rho, delta, nonneg, tol, mi, its)
    af = np.maximum(0, a) if nonneg else a
    same(x, B @ af, f"iterate {its}", rtol=1e-6, atol=1e-7 * np.abs(af).max() + 1e-9 * case["scale"])
    same(r, rp, "residual", rtol=1e-6, atol=1e-7 * nb)
    if not nonneg:
        same(r, b - A @ x, "reported residual is not b - A x", rtol=1e-6, atol=1e-8 * nb)
    else:
        require(np.all(B.T @ x >= -1e-9 * np.abs(x).max()), "a negative coefficient in a non-negative solution")
    if opt and tol <= 1e-6:
        certificate(case, Q, b, w, af, rho, delta, nonneg, tol)
        return True
    return its >= 4 and tol > 1e-6


RULE = ("A with orthonormal rows, drawn weights, basis W, start, step and limits; the iteration is replayed in numpy with the stopping rules checked at "
        "every test point, and with a tight tolerance the answer is certified by a dual point / linear programming; zero solutions are predicted; "
        "non-trivial = several iterations, or certified, or zero")


for _m in ("bp", "rho", "delta"):
    def _f(case):
        return run(case)
    sub("C17", _m, gen(_m, False), 80, RULE)(_f)

    def _g(case):
        return run(case)
    sub("C17", _m + "_tight", gen(_m, True), 40, RULE)(_g)
