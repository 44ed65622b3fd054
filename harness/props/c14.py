"""C14: iterative thresholding (ISTA, FISTA) and spectral projected gradients."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
from cr.sparse import lop
import cr.sparse.sls as sls
import cr.sparse.opt as opt
import cr.sparse.opt.spg as spg
from cr.sparse.opt import smooth_build

from harness.core import sub, require
from harness.g import same, finite, SEED


def soft(v, t):
    m = np.abs(v)
    return np.where(m > t, v * (1 - t / np.where(m > 0, m, 1)), 0)


def jsoft(t):
    def f(i, v):
        m = jnp.abs(v)
        return jnp.where(m > t, v * (1 - t / jnp.where(m > 0, m, 1)), 0)
    return f


def pct(v):
    return soft(v, np.percentile(np.abs(v), 20))


@st.composite
def gen(draw, algo):
    m, n = draw(st.sampled_from([(3, 3), (6, 4), (4, 8), (10, 10), (8, 14)]))
    return {"algo": algo, "m": m, "n": n, "us": draw(SEED), "c": draw(st.booleans()), "x0": draw(st.booleans()),
            "basis": draw(st.booleans()), "lam": draw(st.sampled_from([0.01, 0.1, 0.5])), "step": draw(st.sampled_from([0.5, 0.95])),
            "mi": draw(st.sampled_from([1, 2, 3, 7, 20, None])), "rtol": draw(st.sampled_from([0.0, 1e-3, 0.3])),
            "xtol": draw(st.sampled_from([0.0, 1e-10, 1e-2])), "th": draw(st.sampled_from(["soft", "soft", "default"])),
            "jit": draw(st.booleans()), "decay": draw(st.booleans()), "exact": draw(st.sampled_from([False, False, False, True]))}


def run_ist(case):
    rng = np.random.RandomState(case["us"])
    m, n, c = case["m"], case["n"], case["c"]

    def g(*s):
        return rng.standard_normal(s) + (1j * rng.standard_normal(s) if c else 0)
    A = g(m, n)
    A = A / np.linalg.norm(A, 2)
    B = np.linalg.qr(g(n, n))[0] if case["basis"] else np.eye(n)
    alpha = g(n) * (rng.random_sample(n) < 0.3)
    b = A @ (B @ alpha) + 0.05 * g(m)
    x0 = g(n) if case["x0"] else np.zeros(n, complex if c else float)
    if case["exact"]:
        b = A @ x0
    step, lam = case["step"], case["lam"]
    if case["th"] == "default":
        def th(i, v):
            return pct(v)
        kw = {}
    elif case["decay"]:
        def th(i, v):
            return soft(v, lam * step / (1 + i))
        kw = {"threshold_func": lambda i, v: jsoft(lam * step / (1 + i))(i, v)}
    else:
        def th(i, v):
            return soft(v, lam * step)
        kw = {"threshold_func": jsoft(lam * step)}
    if case["basis"]:
        kw["basis"] = lop.matrix(jnp.asarray(B))
    mi = 400 if case["mi"] is None else case["mi"]
    f = {"ista": (sls.ista, sls.ista_jit), "fista": (sls.fista, sls.fista_jit)}[case["algo"]]
    op = lop.matrix(jnp.asarray(A))
    if case["jit"]:
        s = f[1](op, jnp.asarray(b), jnp.asarray(x0), step, kw.get("threshold_func", sls.default_threshold),
                 kw.get("basis", sls.identity_op), case["rtol"], case["xtol"], mi)
    else:
        s = f[0](op, jnp.asarray(b), jnp.asarray(x0), step, res_norm_rtol=case["rtol"], x_norm_change_tol=case["xtol"], max_iters=mi, **kw)
    x = np.asarray(s.x)
    it = int(s.iterations)
    finite(x, "solution")
    # bookkeeping
    r = b - A @ x
    nb = np.linalg.norm(b)
    same(np.asarray(s.r), r, "reported residual is not b - A x", rtol=1e-8, atol=1e-10)
    same(float(np.real(s.r_norm_sqr)), np.linalg.norm(r) ** 2, "reported residual norm", rtol=1e-7, atol=1e-14)
    require(0 <= it <= mi, "iteration count", it=it, max_iters=mi)
    # reference iterates
    xp, z, t, k = x0, x0, 1.0, 0
    hist = [x0]
    change = np.inf
    while k < it:
        base = z if case["algo"] == "fista" else xp
        y = base + step * (A.conj().T @ (b - A @ base))
        xn = B @ th(k, B.conj().T @ y)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        z = xn + (t - 1) / tn * (xn - xp)
        t = tn
        change = np.linalg.norm(xn - xp)
        xp = xn
        hist.append(xn)
        k += 1
        if k < it:
            # the library went on after k iterations: no stopping rule may have fired
            rk = np.linalg.norm(b - A @ xn)
            require(rk > case["rtol"] * nb * (1 - 1e-6) - 1e-9, "went on although the residual tolerance was met", k=k, r=rk)
            require(change > case["xtol"] - 1e-9, "went on although the change tolerance was met", k=k, change=change)
    same(x, xp, f"iterate {it} of {case['algo']}", rtol=1e-6, atol=1e-7)
    if it > 0:
        same(float(np.real(s.x_change_norm)), change, "reported change", rtol=1e-4, atol=1e-8)
    if it < mi:
        ok = np.linalg.norm(r) <= case["rtol"] * nb * (1 + 1e-6) + 1e-12 or (it > 0 and float(np.real(s.x_change_norm)) <= case["xtol"])
        require(ok, "stopped early for no reason", it=it)
    # descent of the ISTA objective and closeness to the minimiser when it converged
    if case["th"] == "soft" and not case["decay"]:
        def obj(v):
            return 0.5 * np.linalg.norm(b - A @ v) ** 2 + lam * np.abs(B.conj().T @ v).sum()
        if case["algo"] == "ista":
            for p, q in zip(hist, hist[1:]):
                require(obj(q) <= obj(p) + 1e-10, "the objective increased")
        if it > 100 and case["rtol"] == 0:
            a = B.conj().T @ x
            gr = B.conj().T @ (A.conj().T @ (b - A @ x))
            viol = np.where(np.abs(a) > 1e-6, np.abs(gr - lam * a / np.where(np.abs(a) > 0, np.abs(a), 1)),
                            np.maximum(np.abs(gr) - lam, 0)).max()
            require(viol <= 0.05 * lam + 0.02, "far from the minimiser after many iterations", viol=viol)
    return it >= 2


RULE = ("drawn matrix, data, start, basis (identity or unitary), threshold rule, step and stopping parameters, real and complex; reference "
        "= iteration in numpy, with the stopping rules checked at every iterate; non-trivial = at least two iterations")


@sub("C14", "ista", gen("ista"), 60, RULE)
def t_ista(case):
    return run_ist(case)


@sub("C14", "fista", gen("fista"), 60, RULE)
def t_fista(case):
    return run_ist(case)


@st.composite
def gen_th(draw):
    from harness.g import arr
    return {"x": draw(arr((draw(st.sampled_from([1, 2, 5, 11])),), cplx=draw(st.booleans()))), "i": draw(st.integers(0, 5))}


@sub("C14", "default_threshold", gen_th(), 40, "default threshold = soft threshold at the 20th percentile of the magnitudes; "
     "reference = numpy percentile; non-trivial = at least 2 entries")
def t_th(case):
    from harness.g import mk
    x = mk(case["x"])
    same(np.asarray(sls.default_threshold(case["i"], jnp.asarray(x))), pct(x), "default threshold", rtol=1e-9, atol=1e-12)
    return x.size > 1


# ------------------------------------------------------------------- SPG
@st.composite
def gen_spg(draw):
    n = draw(st.sampled_from([1, 2, 3, 5, 8]))
    return {"n": n, "us": draw(SEED), "set": draw(st.sampled_from(["l2", "l1", "box", "nonneg", "all", "affine"])),
            "cond": draw(st.sampled_from([1.0, 5.0, 20.0])), "q": draw(st.sampled_from([0.5, 1.0, 3.0])),
            "x0": draw(st.sampled_from(["zero", "rand", "far", "near"])), "f": draw(st.sampled_from(["quad", "error", "quartic"])),
            "jit": draw(st.booleans()), "mi": draw(st.sampled_from([None, None, None, None, 3, 1]))}


def run_spg(case):
    rng = np.random.RandomState(case["us"])
    n, q = case["n"], case["q"]
    ev = np.exp(rng.uniform(0, np.log(case["cond"]), n))
    Q = np.linalg.qr(rng.standard_normal((n, n)))[0]
    P = (Q * ev) @ Q.T
    P = (P + P.T) / 2
    xu = rng.standard_normal(n) * 2
    if case["f"] == "quad":
        lin = -P @ xu
        F = opt.smooth_quad_matrix(jnp.asarray(P), jnp.asarray(lin), 0.5)
    else:
        R = np.linalg.cholesky(P).T
        F = opt.smooth_quad_error(jnp.asarray(R), jnp.asarray(R @ xu))

    w = 0.0
    if case["f"] == "quartic":
        w = 1.0
        jP, jxu = jnp.asarray(P), jnp.asarray(xu)
        F = smooth_build(lambda x: 0.5 * (x - jxu) @ jP @ (x - jxu) + 0.25 * jnp.sum((x - jxu) ** 4))

    def grad(x):
        return P @ (x - xu) + w * (x - xu) ** 3
    k = case["set"]
    from harness.props.c08 import proj_l1_ref
    a = rng.standard_normal((1, n))
    if k == "l2":
        pj, pn = opt.proj_l2_ball(q), (lambda x: x * min(1, q / max(np.linalg.norm(x), 1e-300)))
    elif k == "l1":
        pj, pn = opt.proj_l1_ball(q), (lambda x: proj_l1_ref(x, q))
    elif k == "box":
        pj, pn = opt.proj_box(-q, q), (lambda x: np.clip(x, -q, q))
    elif k == "nonneg":
        pj, pn = opt.proj_box(l=jnp.zeros(n)), (lambda x: np.maximum(x, 0))
    elif k == "affine":
        pj = opt.proj_affine(jnp.asarray(a), jnp.asarray([q]))
        pn = lambda x: x - np.linalg.pinv(a) @ (a @ x - q)
    else:
        pj, pn = opt.proj_identity(), (lambda x: x)
    x0 = {"zero": np.zeros(n), "rand": rng.standard_normal(n), "far": (30 if w == 0 else 5) * rng.standard_normal(n),
          "near": xu + 0.05 * rng.standard_normal(n)}[case["x0"]]
    o = spg.SPGOptions() if case["mi"] is None else spg.SPGOptions(max_iters=case["mi"])
    s = (spg.solve_from_jit if case["jit"] else spg.solve_from)(F, pj, jnp.asarray(x0), o)
    x = np.asarray(s.x)
    finite(x, "SPG solution")
    sc = 1 + np.abs(x0).max() + np.abs(xu).max()
    same(x, pn(x), "SPG solution is not feasible", rtol=1e-7, atol=1e-7 * sc)
    same(np.asarray(s.g), grad(x), "reported gradient", rtol=1e-7, atol=1e-8 * sc * (case["cond"] + w * sc ** 2))
    it = int(s.iterations)
    require(it <= o.max_iters, "iteration count")
    xs = pn(xu)
    L = ev.max() + w * 12 * np.abs(xs - xu).max() ** 2 * n
    for _ in range(3000):
        xs = pn(xs - grad(xs) / L)
    active = np.linalg.norm(pn(xu) - xu) > 1e-6
    if case["mi"] is None:
        oc = np.abs(pn(x - grad(x)) - x).max()
        require(np.linalg.norm(x - xs) <= 5e-4 * (1 + np.linalg.norm(xs)) * (1 + L), "SPG is not at the minimiser", x=x.tolist(), xs=xs.tolist(),
                opt=oc, it=it)
    return bool(active)


SPG = ("strongly convex quadratics and quartics over balls, boxes, orthants, affine sets and the whole space; reference = plain projected "
       "gradient run to convergence in numpy; non-trivial = the constraint is active at the optimum")


@sub("C14", "spg", gen_spg(), 32, SPG)
def t_spg(case):
    return run_spg(case)


@sub("C14", "spg_b", gen_spg(), 32, SPG)
def t_spg_b(case):
    return run_spg(case)
