"""C10: smooth functions: documented value, gradient = derivative of the value."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.opt as opt

from harness.core import sub, require
from harness.g import arr, mk, same, SEED

VSH = [(1,), (2,), (3,), (6,), (12,), (33,), (100,)]
NSH = VSH + [(2, 3), (2, 1, 3)]
EPS = np.finfo(float).eps


@st.composite
def gen(draw, f):
    sh = draw(st.sampled_from(NSH if f in ("constant", "huber", "linear", "entropy_nd") else VSH))
    cplx = f == "huber" and draw(st.booleans())
    return {"f": f, "x": draw(arr(sh, cplx=cplx, kinds=("q", "g", "t", "s"))), "us": draw(SEED),
            "p": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0])), "dflt": draw(st.sampled_from([False, False, True])),
            "opt1": draw(st.booleans()), "opt2": draw(st.booleans()), "wrap": draw(st.integers(0, 4)),
            "m": draw(st.integers(1, 7)), "neg": draw(st.sampled_from([False, False, True]))}


def model(case):
    """(SmoothFunction, f, grad, point)"""
    x, p = mk(case["x"]), case["p"]
    rng = np.random.RandomState(case["us"])
    f = case["f"]
    n = x.size
    if f == "constant":
        c = 0.0 if case["dflt"] else p
        return (opt.smooth_constant() if case["dflt"] else opt.smooth_constant(c)), (lambda x: c), (lambda x: 0 * x), x
    if f == "entropy":
        x = np.abs(x)
        o = opt.smooth_entropy_vg() if case["opt1"] else opt.smooth_entropy()
        return o, (lambda x: -np.sum(x * np.log(np.maximum(x, EPS)))), (lambda x: -np.log(np.maximum(x, EPS)) - 1), x
    if f == "huber":
        t = 1.0 if case["dflt"] else p
        o = opt.smooth_huber() if case["dflt"] else opt.smooth_huber(t)
        return (o, (lambda x: np.sum(np.where(np.abs(x) <= t, np.abs(x) ** 2 / (2 * t), np.abs(x) - t / 2))),
                lambda x: x / np.maximum(t, np.abs(x)), x)
    if f == "linear":
        C = rng.standard_normal(x.shape)
        d = 0.0 if case["dflt"] else p
        o = opt.smooth_linear(C) if case["dflt"] else opt.smooth_linear(C, d)
        return o, (lambda x: np.sum(C * x) + d), (lambda x: C), x
    if f == "logdet":
        k = 1 + n % 4
        B = rng.standard_normal((k, k))
        X = B @ B.T + p * np.eye(k)
        C = rng.standard_normal((k, k))
        if case["opt2"]:
            C = C + C.T
        q = 1.0 if case["dflt"] else p
        kw = {}
        if not case["dflt"]:
            kw["q"] = q
        if case["opt1"]:
            kw["C"] = jnp.asarray(C)
        else:
            C = 0 * C
        return (opt.smooth_logdet(**kw), lambda X: -q * np.linalg.slogdet(X)[1] + np.sum(C * X),
                lambda X: -q * np.linalg.inv(X) + C, X)
    if f == "quad_matrix":
        P = rng.standard_normal((n, n))
        P = P + P.T
        q, r = rng.standard_normal(n), float(rng.standard_normal())
        kw = {}
        if case["opt1"]:
            kw["P"] = jnp.asarray(P)
        else:
            P = np.eye(n)
        if case["opt2"]:
            kw["q"] = jnp.asarray(q)
        else:
            q = 0 * q
        if not case["dflt"]:
            kw["r"] = r
        else:
            r = 0
        return opt.smooth_quad_matrix(**kw), (lambda x: 0.5 * x @ P @ x + q @ x + r), (lambda x: P @ x + q), x
    if f == "quad_error":
        A = rng.standard_normal((case["m"], n))
        b = rng.standard_normal(case["m"])
        return (opt.smooth_quad_error(jnp.asarray(A), jnp.asarray(b)), lambda x: 0.5 * np.sum((A @ x - b) ** 2),
                lambda x: A.T @ (A @ x - b), x)
    # a user supplied function with a gradient from automatic differentiation
    w = rng.standard_normal(n)
    return (opt.smooth_build(lambda x: jnp.sum(jnp.sin(x) * w + 0.25 * x ** 4)),
            lambda x: np.sum(np.sin(x) * w + 0.25 * x ** 4), lambda x: np.cos(x) * w + x ** 3, x)


def body(case):
    o, f, g, x = model(case)
    rng = np.random.RandomState(case["us"] + 7)
    w = case["wrap"]
    F, G = f, g
    if w == 1 and case["f"] != "logdet":
        b = np.abs(rng.standard_normal(x.shape))
        o = opt.smooth_func_translate(o, jnp.asarray(b))
        F, G = (lambda x: f(x + b)), (lambda x: g(x + b))
    elif w == 2:
        o = opt.smooth_build2(o.func, o.grad)
    elif w == 3:
        o = opt.SmoothFunction(o.func, o.grad, opt.build_grad_val_func(o.func, o.grad))
    elif w == 4:
        ev = opt.smooth_value_grad(o.func, o.grad)
        same(float(ev(jnp.asarray(x), 0)), F(x), "smooth_value_grad mode 0", rtol=1e-9, atol=1e-9)
        v, gg = ev(jnp.asarray(x), 2)
        same(float(v), F(x), "smooth_value_grad mode 2 value", rtol=1e-9, atol=1e-9)
        same(np.asarray(gg), G(x), "smooth_value_grad mode 2 gradient", rtol=1e-8, atol=1e-9)
        same(np.asarray(ev(jnp.asarray(x), 1)), G(x), "smooth_value_grad mode 1", rtol=1e-8, atol=1e-9)
    jx = jnp.asarray(x)
    name = case["f"]
    if name == "entropy" and case["neg"] and w != 1:
        y = x.copy()
        y.flat[case["us"] % x.size] = -0.5
        jy = jnp.asarray(y)
        require(float(o.func(jy)) == -np.inf, "entropy outside its domain is not -inf", got=float(o.func(jy)))
        require(np.all(np.isnan(np.asarray(o.grad(jy)))), "gradient of the entropy outside its domain")
        g2, v2 = o.grad_val(jy)
        require(float(v2) == -np.inf and np.all(np.isnan(np.asarray(g2))), "grad_val of the entropy outside its domain")
    v = float(o.func(jx))
    gr = np.asarray(o.grad(jx))
    cond = 1 + np.abs(G(x)).max()
    same(v, F(x), f"value of {name}", rtol=1e-9, atol=1e-9 * cond)
    same(gr, G(x), f"gradient of {name}", rtol=1e-8, atol=1e-9)
    g2, v2 = o.grad_val(jx)
    same(np.asarray(g2), gr, "grad_val gradient", rtol=1e-10, atol=1e-12)
    same(float(v2), v, "grad_val value", rtol=1e-10, atol=1e-12)
    # gradient against a symmetric difference of the library's own value
    if not (name == "entropy" and np.any(x < 1e-3) and w != 1):
        d = rng.standard_normal(x.shape)
        if np.iscomplexobj(x):
            d = d + 1j * rng.standard_normal(x.shape)
        if name == "logdet":
            d = d + d.T
        d /= np.linalg.norm(d)
        h = 1e-5
        fd = (float(o.func(jnp.asarray(x + h * d))) - float(o.func(jnp.asarray(x - h * d)))) / (2 * h)
        dd = float(np.sum(np.real(np.conj(np.asarray(gr)) * d)))
        lip = {"entropy": 1e4, "huber": 1 / case["p"], "logdet": 1e3}.get(name, 1e2)
        require(abs(fd - dd) <= 1e-6 * (1 + abs(dd) + abs(v)) + 3 * h * lip, "gradient is not the derivative of the value",
                fd=fd, dd=dd)
    return bool(np.any(x)) and bool(np.any(G(x)))


RULE = ("drawn point and parameters, optionally wrapped by translate / build2 / build_grad_val_func / smooth_value_grad; reference = "
        "closed form value and gradient, and a symmetric difference of the value; non-trivial = non-zero point and gradient")
for _f, _n in [("constant", 25), ("entropy", 45), ("huber", 45), ("linear", 30), ("logdet", 40), ("quad_matrix", 45),
               ("quad_error", 40), ("autograd", 30)]:
    sub("C10", _f, gen(_f), _n, RULE)(body)


# ------------------------------------------------------------ Moreau envelope
@st.composite
def gen_env(draw):
    return {"f": draw(st.sampled_from(["l1", "l2", "zero", "l1_ball", "l1_pos"])),
            "x": draw(arr(draw(st.sampled_from(VSH)), kinds=("q", "g", "t", "s"))),
            "mu": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0])), "q": draw(st.sampled_from([0.5, 1.0, 2.0])),
            "us": draw(SEED), "d": draw(st.sampled_from([False, False, True]))}


@sub("C10", "moreau", gen_env(), 60, "Moreau envelope of a prox-capable function; reference = closed form minimum of "
     "f(z)+|x-z|^2/(2mu), gradient (x - prox)/mu; non-trivial = the gradient is not zero")
def moreau(case):
    x, mu, q = mk(case["x"]), case["mu"], case["q"]
    if case["d"]:
        mu = 1.0
    f = case["f"]
    P = {"l1": lambda: opt.prox_l1(q), "l2": lambda: opt.prox_l2(q), "zero": opt.prox_zero,
         "l1_ball": lambda: opt.prox_l1_ball(q), "l1_pos": lambda: opt.prox_l1_pos(q)}[f]()
    from harness.props.c08 import proj_l1_ref
    n = np.linalg.norm(x)
    z, fz = {
        "l1": lambda: (lambda z: (z, q * np.abs(z).sum()))(np.sign(x) * np.maximum(np.abs(x) - mu * q, 0)),
        "l2": lambda: (lambda z: (z, q * np.linalg.norm(z)))(x * (1 - mu * q / n) if n > mu * q else 0 * x),
        "zero": lambda: (x, 0.0),
        "l1_ball": lambda: (proj_l1_ref(x, q), 0.0),
        "l1_pos": lambda: (lambda z: (z, q * z.sum()))(np.maximum(x - mu * q, 0)),
    }[f]()
    want_v = fz + np.sum((x - z) ** 2) / (2 * mu)
    want_g = (x - z) / mu
    E = opt.moreau_envelope(P) if case["d"] else opt.moreau_envelope(P, mu)
    jx = jnp.asarray(x)
    same(float(E.func(jx)), want_v, "value of the Moreau envelope", rtol=1e-8, atol=1e-8)
    same(np.asarray(E.grad(jx)), want_g, "gradient of the Moreau envelope", rtol=1e-8, atol=1e-8)
    g, v = E.grad_val(jx)
    same(float(v), want_v, "grad_val value of the Moreau envelope", rtol=1e-8, atol=1e-8)
    same(np.asarray(g), want_g, "grad_val gradient of the Moreau envelope", rtol=1e-8, atol=1e-8)
    return bool(np.any(want_g))
