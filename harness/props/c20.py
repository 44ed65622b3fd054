"""C20: the first order methods driver and the solvers built on it."""
import numpy as np
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import cr.sparse.opt as opt
from cr.sparse import lop
import cr.sparse.fom as fom

from harness.core import sub, require
from harness.g import same, finite, SEED
from harness.props.c08 import proj_l1_ref
from harness.props.c09 import pava_owl
from harness.l1ref import lasso_ball_opt

J = jnp.asarray


def smooth(name, m, rng, par):
    """(library object, value, gradient, curvature bound)"""
    if name == "quad":
        return opt.smooth_quad_matrix(), (lambda u: 0.5 * u @ u), (lambda u: u), 1.0
    if name == "quadP":
        B = rng.standard_normal((m, m)) / np.sqrt(m)
        P = B @ B.T + 0.2 * np.eye(m)
        q = rng.standard_normal(m)
        return (opt.smooth_quad_matrix(P=J(P), q=J(q)), (lambda u: 0.5 * u @ P @ u + q @ u), (lambda u: P @ u + q), np.linalg.norm(P, 2))
    if name == "huber":
        t = par
        return (opt.smooth_huber(t), lambda u: np.sum(np.where(np.abs(u) <= t, u * u / (2 * t), np.abs(u) - t / 2)),
                lambda u: np.clip(u / t, -1, 1), 1 / t)
    # logistic, by automatic differentiation
    return (opt.smooth_build(lambda u: jnp.sum(jnp.logaddexp(0.0, u))), lambda u: np.sum(np.logaddexp(0, u)),
            lambda u: 1 / (1 + np.exp(-u)), 0.25)


def proxf(name, n, rng, lam):
    """(library object, h, prox(x, t))"""
    if name == "l1":
        return opt.prox_l1(lam), (lambda x: lam * np.abs(x).sum()), lambda x, t: np.sign(x) * np.maximum(np.abs(x) - lam * t, 0)
    if name == "l1w":
        w = lam * rng.uniform(0.2, 2, n)
        return opt.prox_l1(J(w)), (lambda x: (w * np.abs(x)).sum()), lambda x, t: np.sign(x) * np.maximum(np.abs(x) - w * t, 0)
    if name == "l2":
        def p2(x, t):
            r = np.linalg.norm(x)
            return x * max(1 - lam * t / r, 0) if r > 0 else x
        return opt.prox_l2(lam), (lambda x: lam * np.linalg.norm(x)), p2
    if name == "l1_pos":
        return (opt.prox_l1_pos(lam), lambda x: lam * x.sum() if np.all(x >= 0) else np.inf, lambda x, t: np.maximum(x - lam * t, 0))
    if name == "l1_ball":
        q = 3 * lam
        return (opt.prox_l1_ball(q), lambda x: 0.0 if np.abs(x).sum() <= q * (1 + 1e-9) else np.inf, lambda x, t: proj_l1_ref(x, q))
    if name == "owl1":
        w = lam * np.sort(rng.uniform(0.2, 2, n))[::-1]
        return (opt.prox_owl1(J(w)), lambda x: w @ np.sort(np.abs(x))[::-1], lambda x, t: pava_owl(x, w * t))
    if name == "box":
        return (opt.build_from_ind_proj(opt.indicator_box(-lam, lam), opt.proj_box(-lam, lam)),
                lambda x: 0.0 if np.all(np.abs(x) <= lam) else np.inf, lambda x, t: np.clip(x, -lam, lam))
    return opt.prox_zero(), (lambda x: 0.0), (lambda x, t: x)


@st.composite
def gen(draw, which):
    m, n = draw(st.sampled_from([(1, 1), (2, 3), (4, 4), (6, 3), (5, 9), (8, 20)]))
    c = {"w": which, "m": m, "n": n, "us": draw(SEED), "lam": draw(st.sampled_from([0.05, 0.4, 1.0, 3.0])),
         "x0": draw(st.sampled_from(["zero", "rand", "rand", "big"])), "b": draw(st.sampled_from([1.0, 1.0, 10.0])),
         "f": "quad", "h": "l1", "par": draw(st.sampled_from([0.3, 1.0])),
         "mi": draw(st.sampled_from([1, 2, 3, 4, 6, 9, 12])), "tol": draw(st.sampled_from([1e-8, 1e-8, 1e-3, 0.2])),
         "L0": draw(st.sampled_from([1.0, 1.0, 0.1, 20.0])), "al": draw(st.sampled_from([0.9, 0.9, 1.0, 0.5])),
         "be": draw(st.sampled_from([0.5, 0.5, 0.9])), "Lex": draw(st.sampled_from([None, None, 1.0, 0.6])), "jit": draw(st.booleans())}
    if which in ("fom", "fom2"):
        c["w"] = "fom"
        c["f"] = draw(st.sampled_from(["quad", "quadP"] if which == "fom" else ["huber", "logistic"]))
        c["h"] = draw(st.sampled_from(["l1", "l1w", "l2", "l1_pos", "l1_ball", "owl1", "box", "zero"]))
    elif which in ("lasso", "owl1rls"):
        c["h"] = {"lasso": "l1_ball", "owl1rls": "owl1"}[which]
    return c


def setup(case):
    rng = np.random.RandomState(case["us"])
    m, n, w = case["m"], case["n"], case["w"]
    A = rng.standard_normal((m, n)) / np.sqrt(m)
    b = case["b"] * rng.standard_normal(m)
    x0 = {"zero": 0.0, "rand": 1.0, "big": 6.0}[case["x0"]] * rng.standard_normal(n)
    fo, f, df, Lf = smooth(case["f"], m, rng, case["par"])
    ho, h, prox = proxf(case["h"], n, rng, case["lam"])
    L = Lf * np.linalg.norm(A, 2) ** 2
    T = lop.matrix(J(A))
    sgn = 1.0 if w == "fom" else -1.0

    def run(opts):
        o = (opts,) if opts is not None else ()
        if w == "fom":
            if case["jit"]:
                return jax.jit(lambda b, x0: fom.fom(fo, ho, T, b, x0, *o))(J(b), J(x0))
            return fom.fom(fo, ho, T, J(b), J(x0), *o)
        if w == "owl1rls":
            rng2 = np.random.RandomState(case["us"])
            # the weights used by the reference prox
            rng2.standard_normal((m, n)), rng2.standard_normal(m), rng2.standard_normal(n)
            p = J(case["lam"] * np.sort(rng2.uniform(0.2, 2, n))[::-1])
        else:
            p = 3 * case["lam"] if w == "lasso" else case["lam"]
        fn = getattr(fom, w + ("_jit" if case["jit"] else ""))
        return fn(T, J(b), p, J(x0), *o)
    return A, sgn * b, x0, f, df, h, prox, L, run


def options(case, L, **over):
    kw = dict(max_iters=case["mi"], tol=case["tol"], L0=case["L0"], alpha=case["al"], beta=case["be"])
    if case["Lex"] is not None:
        kw["Lexact"] = case["Lex"] * L
    kw.update(over)
    return fom.FomOptions(**kw)


def body(case):
    A, b, x0, f, df, h, prox, L, run = setup(case)
    o = options(case, L)
    s = run(o)
    # the recursion
    x = x0 if np.isfinite(h(x0)) else prox(x0, 1.0)
    z, th, Lc = x.copy(), np.inf, o.L0
    it, moved = 0, False
    while True:
        Ln = Lc * o.alpha
        th = 2 / (1 + np.sqrt(1 + 4 * (Ln / Lc) / th ** 2))
        y = (1 - th) * x + th * z
        gy = df(A @ y + b)
        step = 1 / (th * Ln)
        z = prox(z - step * (A.T @ gy), step)
        xn = (1 - th) * x + th * z
        d = xn - y
        loc = None
        if d @ d > 0:
            loc = 2 * (A @ d) @ (df(A @ xn + b) - gy) / (d @ d)
            if abs(loc - Ln) <= 1e-7 * Ln or (d @ d) <= 1e-20 * (1 + xn @ xn):
                return False            # the curvature estimate is decided by rounding
            if loc > Ln:
                Ln = min(o.Lexact, max(loc, Ln / o.beta))
        nd = np.linalg.norm(xn - x)
        x, Lc = xn, Ln
        it += 1
        moved = moved or nd > 0
        lim = o.tol * max(np.linalg.norm(x), 1)
        if abs(nd - lim) <= 1e-6 * lim:
            return False
        if it >= o.max_iters or nd < lim:
            break
    require(int(s.iterations) == it, "number of iterations", got=int(s.iterations), want=it)
    sc = max(1.0, np.abs(x).max(), np.abs(x0).max())
    for k, v in (("x", x), ("y", y), ("z", z), ("A_x", A @ x), ("A_y", A @ y), ("A_z", A @ z), ("g_Ax", df(A @ x + b)), ("g_Ay", gy), ("g_y", A.T @ gy),
                 ("f_x", f(A @ x + b)), ("f_y", f(A @ y + b)), ("norm_x", np.linalg.norm(x)), ("norm_dx", nd), ("theta", th), ("L", Lc)):
        same(np.asarray(getattr(s, k)), v, f"{k} after {it} iterations", rtol=1e-6, atol=1e-7 * sc)
    if np.isfinite(h(z)):
        same(float(s.C_z), h(z), "C_z is not h(z)", rtol=1e-6, atol=1e-7 * sc)
    return moved and it > 1


RULE = ("drawn operator, data, start and options; reference = the Auslender-Teboulle recursion in numpy for the iterations it should "
        "take, every reported quantity compared; non-trivial = at least two iterations that move")
for _w, _n in (("fom", 40), ("fom2", 40), ("l1rls", 35), ("lasso", 35), ("owl1rls", 35)):
    sub("C20", _w, gen(_w), _n, RULE)(body)


def optimum(A, b, h, prox, f, df, L, x, k=1500):
    """best point of a long reference run (FISTA with restart), from x and from zero"""
    best = np.inf
    for w in (x, np.zeros_like(x)):
        w = prox(w, 1e-9) if not np.isfinite(h(w)) else w
        y, t = w.copy(), 1.0
        for _ in range(k):
            wn = prox(y - A.T @ df(A @ y + b) / L, 1 / L)
            if (y - wn) @ (wn - w) > 0:
                t = 1.0
            tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
            y = wn + (t - 1) / tn * (wn - w)
            if np.linalg.norm(wn - w) <= 1e-13 * (1 + np.linalg.norm(wn)) and t == 1.0:
                w = wn
                break
            w, t = wn, tn
        best = min(best, f(A @ w + b) + h(w))
    return best


@st.composite
def gen_conv(draw, kind):
    c = draw(gen(draw(st.sampled_from(["fom", "fom2", "l1rls", "lasso", "owl1rls"]))))
    c["kind"] = kind
    c["mi"] = draw(st.sampled_from([5, 30, 200]))
    return c


def phi_of(f, h, A, b, x, prox):
    v = h(x)
    if not np.isfinite(v):              # outside by rounding only
        p = prox(x, 1e-9)
        require(np.abs(p - x).max() <= 1e-7 * (1 + np.abs(x).max()), "the iterate is outside the domain of h", x=x)
        v = h(p)
    return f(A @ x + b) + v


OPT = ("objective value of the answer against a long reference run: with a known Lipschitz constant within the O(1/k^2) bound after k "
     "iterations, with default options near the optimum at the end; non-trivial = the start is not optimal")


def t_opt(case):
    A, b, x0, f, df, h, prox, L, run = setup(case)
    if case["kind"] == "rate":
        o = options(case, L, L0=L * 1.000001, Lexact=L * 1.000001, alpha=1.0, tol=0.0)
    else:
        o = None
    s = run(o)
    x = np.asarray(s.x)
    finite(x, "x")
    xs = x0 if np.isfinite(h(x0)) else prox(x0, 1.0)
    lo = optimum(A, b, h, prox, f, df, L, x)
    p, p0 = phi_of(f, h, A, b, x, prox), phi_of(f, h, A, b, xs, prox)
    if case["kind"] == "rate":
        # R: distance to a minimiser, bounded through a long reference run
        w = xs.copy()
        y, t = w.copy(), 1.0
        for _ in range(1500):
            wn = prox(y - A.T @ df(A @ y + b) / L, 1 / L)
            if (y - wn) @ (wn - w) > 0:
                t = 1.0
            tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
            y = wn + (t - 1) / tn * (wn - w)
            w, t = wn, tn
        pw = phi_of(f, h, A, b, w, prox)
        R2 = np.sum((w - xs) ** 2)
        k = int(s.iterations)
        require(k == case["mi"], "iterations", k=k)
        require(p <= pw + 2 * L * R2 / (k + 1) ** 2 * 1.001 + 1e-9 * (1 + abs(pw)), "slower than the guaranteed rate", phi=p, ref=pw, k=k, R2=R2)
        return R2 > 1e-6
    if case["f"] == "logistic" and case["h"] in ("zero",):
        return False                    # no minimiser in general
    if int(s.iterations) < 1000:
        require(p <= lo + 1e-4 * (1 + abs(lo)), "stopped away from the optimum", phi=p, optimum=lo, it=int(s.iterations))
    else:
        require(p <= lo + 2e-2 * (1 + abs(lo)) + 0.02 * max(p0 - lo, 0), "far from the optimum after 1000 iterations", phi=p, optimum=lo)
    if case["w"] == "lasso" and case["b"] == 1.0:
        xr = lasso_ball_opt(A, -b, 3 * case["lam"])
        if xr is not None:
            require(p <= f(A @ xr + b) + 1e-4, "worse than the LASSO homotopy", phi=p, ref=f(A @ xr + b))
    return p0 > lo + 1e-6


sub("C20", "rate", gen_conv("rate"), 35, OPT)(t_opt)
sub("C20", "optimal", gen_conv("default"), 35, OPT)(t_opt)


@st.composite
def gen_misc(draw):
    return {"m": draw(st.integers(1, 5)), "n": draw(st.integers(1, 5)), "us": draw(SEED), "A": draw(st.booleans()), "b": draw(st.booleans()),
            "c": draw(st.booleans()), "mu": draw(st.sampled_from([0.2, 1.0, 3.0])), "h": draw(st.sampled_from(["l1", "l1w", "l2", "l1_pos", "box"])), "lam": draw(st.sampled_from([0.1, 1.0]))}


@sub("C20", "misc", gen_misc(), 60, "matrix_affine_func in its three modes against A x, A^H y, A x + b; smooth_dual against its definition as a supremum (value, gradient); non-trivial = A given")
def t_misc(case):
    rng = np.random.RandomState(case["us"])
    m, n = case["m"], case["n"]
    if not case["A"]:
        m = n
    g = (lambda *s: rng.standard_normal(s) + 1j * rng.standard_normal(s)) if case["c"] else (lambda *s: rng.standard_normal(s))
    A, b, x, y = g(m, n), g(m), g(n), g(m)
    op = fom.matrix_affine_func(J(A) if case["A"] else None, J(b) if case["b"] else None)
    M = A if case["A"] else np.eye(n)
    same(np.asarray(op(J(x))), M @ x, "mode 0")
    same(np.asarray(op(J(x), 0)), M @ x, "mode 0")
    same(np.asarray(op(J(y), 1)), M.conj().T @ y, "mode 1")
    same(np.asarray(op(J(x), 2)), M @ x + (b if case["b"] else 0), "mode 2")
    # smooth dual of h: minus the supremum over p of <x,p> - h(p) - |p - x0|^2/(2 mu)
    mu = case["mu"]
    ho, h, prox = proxf(case["h"], n, rng, case["lam"])
    c = rng.standard_normal(n)
    x = 2 * rng.standard_normal(n)
    d = fom.smooth_dual(ho, mu, J(c))
    p = prox(c + mu * x, mu)
    v = -(x @ p - h(p) - np.sum((p - c) ** 2) / (2 * mu))
    g1, v1 = d.grad_val(J(x))
    for a, e, w in ((d.func(J(x)), v, "value"), (v1, v, "value"), (d.grad(J(x)), -p, "gradient"), (g1, -p, "gradient")):
        same(np.asarray(a), e, f"smooth_dual {w}", rtol=1e-8, atol=1e-8)
    return case["A"]


@sub("C20", "bp_scd", st.just({}), 0, "only replays the recorded finding")
def t_bp(case):
    A, b, mu = np.asarray(case["A"]), np.asarray(case["b"]), case["mu"]
    m, n = A.shape
    s = fom.bp_scd(lop.matrix(J(A)), J(b), mu, jnp.zeros(n), jnp.zeros(m if case["dual"] else n))
    x = np.asarray(s.x)
    require(x.shape == (n,) and np.linalg.norm(A @ x - b) <= 1e-3 * np.linalg.norm(b), "the constraint A x = b is not satisfied", x=x)
    return True
