"""C09: proximal operators minimise f(z) + |z - x|^2 / (2t)."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.opt as opt

from harness.core import sub, require
from harness.g import arr, mk, same, SEED
from harness.props.c08 import proj_l1_ref

T = st.sampled_from([0.001, 0.01, 0.3, 1.0, 2.5, 20.0])
SHAPES = st.sampled_from([(1,), (2,), (3,), (5,), (8,), (16,), (40,), (90,), (2, 3), (3, 1, 2)])


def pava_owl(x, lam):
    """prox of the ordered weighted l1 norm with weights lam: stack based PAVA."""
    v = x.ravel()
    order = np.argsort(-np.abs(v), kind="stable")
    d = np.abs(v)[order] - lam
    stack = []                          # blocks (sum, count), means strictly decreasing
    for e in d:
        s, c = e, 1
        while stack and stack[-1][0] / stack[-1][1] <= s / c:
            ps, pc = stack.pop()
            s, c = s + ps, c + pc
        stack.append((s, c))
    z = np.concatenate([np.full(c, s / c) for s, c in stack])
    out = np.zeros_like(v)
    out[order] = np.maximum(z, 0)
    return (np.sign(v) * out).reshape(x.shape)


@st.composite
def gen(draw, which):
    sh = draw(SHAPES.filter(lambda s: which != "l1_ball" or len(s) == 1))
    cplx = which in ("l1", "l2", "zero") and draw(st.booleans())
    x = draw(arr(sh, cplx=cplx, kinds=("q", "g", "t", "s", "e")))
    c = {"f": which, "x": x, "t": draw(T), "us": draw(SEED), "q": draw(st.sampled_from([0.1, 1.0, 2.0, 7.0])),
         "vec": False, "mode": draw(st.integers(0, 3)), "dflt": draw(st.sampled_from([False, False, True]))}
    if which in ("l1", "l1_pos"):
        c["vec"] = draw(st.booleans())
        c["wz"] = draw(st.booleans())
    if which == "owl1":
        c["lam"] = draw(st.sampled_from(["scalar", "ties", "lin", "rand", "conv", "conv"]))
        c["dflt"] = False
    return c


def model(case):
    """(prox object, f, prox reference)"""
    x, q = mk(case["x"]), case["q"]
    if case["dflt"]:
        q = 1.0
    rng = np.random.RandomState(case["us"])
    if case["vec"]:
        q = q * rng.uniform(0.2, 2, x.shape)
        if case["wz"]:
            q = q * (rng.random_sample(x.shape) < 0.7)
    a = () if case["dflt"] and not case["vec"] else (jnp.asarray(q) if case["vec"] else q,)
    f = case["f"]
    if f == "zero":
        return opt.prox_zero(), (lambda z: 0.0), (lambda x, t: x)
    if f == "l1":
        def ref(x, t):
            m = np.abs(x)
            return np.where(m > t * q, x * (1 - t * q / np.where(m > 0, m, 1)), 0)
        return opt.prox_l1(*a), (lambda z: np.abs(q * z).sum()), ref
    if f == "l1_pos":
        return (opt.prox_l1_pos(*a), (lambda z: np.inf if np.any(z < 0) else np.abs(q * z).sum()),
                lambda x, t: np.maximum(x - t * q, 0))
    if f == "l2":
        def ref(x, t):
            n = np.linalg.norm(x.ravel())
            return x * (1 - t * q / n) if n > t * q else 0 * x
        return opt.prox_l2(*a), (lambda z: q * np.linalg.norm(z.ravel())), ref
    if f == "l1_ball":
        return (opt.prox_l1_ball(*a), (lambda z: 0.0 if np.abs(z).sum() <= q else np.inf),
                lambda x, t: proj_l1_ref(x, q))
    n = x.size
    lam = {"scalar": np.full(n, q), "ties": q * (1.0 + np.arange(n)[::-1] // 2),
           "lin": q * np.linspace(2, 0.25, n),
           # differences which need many rounds of pooling
           "conv": q * (np.arange(n, 0, -1) / n) ** 3 * 3,
           "rand": q * np.sort(rng.uniform(0.01, 2, n))[::-1]}[case["lam"]]
    o = opt.prox_owl1(q) if case["lam"] == "scalar" else opt.prox_owl1(jnp.asarray(lam))
    return (o, (lambda z: np.dot(lam, np.sort(np.abs(z).ravel())[::-1])), lambda x, t: pava_owl(x, t * lam))


def body(case):
    P, f, ref = model(case)
    x, t = mk(case["x"]), case["t"]
    jx = jnp.asarray(x)
    want = ref(x, t)
    sc = 1 + np.abs(x).max()
    z = np.asarray(P.prox_op(jx, t))
    same(z, want, f"prox_{case['f']}", rtol=1e-9, atol=3e-9 * sc)
    fx, fz = float(P.func(jx)), float(P.func(jnp.asarray(z)))
    if case["f"] == "l1_ball":
        s = np.abs(x).sum()
        q = 1.0 if case["dflt"] else case["q"]
        if abs(s - q) > 1e-9 * sc:
            require((fx == 0) if s < q else np.isinf(fx), "value of the indicator", fx=fx, norm=s, q=q)
        fz = 0.0
    else:
        same(fx, f(x), "value of the function", rtol=1e-10, atol=1e-12)
        same(fz, f(z), "value of the function at the prox point", rtol=1e-10, atol=1e-12)
    z2, v2 = P.prox_vec_val(jx, t)
    same(np.asarray(z2), want, "prox_vec_val point", rtol=1e-9, atol=3e-9 * sc)
    same(float(v2), fz, "prox_vec_val value", rtol=1e-8, atol=1e-9 * sc)
    # the definition: no other point has a smaller objective
    rng = np.random.RandomState(case["us"] + 1)

    def obj(u):
        return f(u) + np.sum(np.abs(u - x) ** 2) / (2 * t)
    base = (0.0 if case["f"] == "l1_ball" else f(z)) + np.sum(np.abs(z - x) ** 2) / (2 * t)
    for e in (1e-3, 0.1, 1.0):
        d = rng.standard_normal(x.shape) * e * sc
        u = z + (d + 1j * rng.standard_normal(x.shape) * e * sc if np.iscomplexobj(x) else d)
        for cand in (u, np.where(rng.random_sample(x.shape) < 0.5, u, z), x, 0 * x):
            require(obj(cand) >= base - 1e-7 * (1 + abs(base)), "a point with a smaller prox objective exists",
                    got=base, better=obj(cand))
    # the combined evaluator
    ev = opt.prox_value_vec(P.func, P.prox_op)
    m = case["mode"]
    if m == 0:
        same(float(ev(jx, t, 0)), fx, "prox_value_vec mode 0")
    elif m == 1:
        same(np.asarray(ev(jx, t, 1)), z, "prox_value_vec mode 1")
    elif m == 2 and case["f"] != "l1_ball":
        v, p = ev(jx, t, 2)
        same(np.asarray(p), z, "prox_value_vec mode 2 point")
        same(float(v), fz, "prox_value_vec mode 2 value")
    if m == 3 and case["f"] != "l1_ball":
        P2 = opt.prox_build(P.func, P.prox_op)
        z3, v3 = P2.prox_vec_val(jx, t)
        same(np.asarray(z3), z, "prox_build point")
        same(float(v3), fz, "prox_build value")
    # firmly non-expansive
    y = x + rng.standard_normal(x.shape)
    zy = np.asarray(P.prox_op(jnp.asarray(y), t))
    lhs = np.sum(np.abs(zy - z) ** 2)
    rhs = np.real(np.vdot(zy - z, y - x))
    require(lhs <= rhs + 1e-8 * sc * sc, "the prox is not firmly non-expansive", lhs=lhs, rhs=rhs)
    return bool(np.any(z != x)) and bool(np.any(z))


RULE = ("drawn array (ties, zeros, N-D, complex where the function is defined for it), step and weights; reference = closed form "
        "or stack based PAVA; plus the value of f, prox_vec_val, prox_value_vec, prox_build, minimality against random points and "
        "firm non-expansiveness; non-trivial = the prox point differs from the input and is not zero")


@sub("C09", "l1", gen("l1"), 70, RULE)
def l1(case):
    return body(case)


@sub("C09", "l2", gen("l2"), 50, RULE)
def l2(case):
    return body(case)


@sub("C09", "l1_pos", gen("l1_pos"), 50, RULE)
def l1p(case):
    return body(case)


@sub("C09", "l1_ball", gen("l1_ball"), 50, RULE)
def l1b(case):
    return body(case)


@sub("C09", "owl1", gen("owl1"), 55, RULE)
def owl1(case):
    return body(case)


@st.composite
def gen_misc(draw):
    n = draw(st.integers(1, 9))
    return {"x": draw(arr((n,))), "t": draw(T), "f": draw(st.sampled_from(["zero", "shrink", "ind_box", "ind_l2"])),
            "q": draw(st.sampled_from([0.2, 1.0, 3.0]))}


@sub("C09", "misc", gen_misc(), 80, "zero function, shrink, prox functions built from an indicator and a projector; "
     "reference = closed form; non-trivial = the input is changed")
def misc(case):
    x, t, q = mk(case["x"]), case["t"], case["q"]
    jx = jnp.asarray(x)
    if case["f"] == "zero":
        P = opt.prox_zero()
        z, v = P.prox_vec_val(jx, t)
        same(np.asarray(z), x, "prox_zero")
        require(float(v) == 0 and float(P.func(jx)) == 0, "prox_zero value")
        same(np.asarray(P.prox_op(jx, t)), x, "prox_zero")
        return False
    if case["f"] == "shrink":
        if case["t"] > 1:                # one threshold per entry
            q = q * np.random.RandomState(x.size).uniform(0.1, 2, x.shape)
        want = np.sign(x) * np.maximum(np.abs(x) - q, 0)
        same(np.asarray(opt.shrink(jx, q)), want, "shrink", rtol=1e-12, atol=1e-12 * (1 + np.abs(x).max()))
        return bool(np.any(want))
    if case["f"] == "ind_box":
        P = opt.build_from_ind_proj(opt.indicator_box(-q, q), opt.proj_box(-q, q))
        want = np.clip(x, -q, q)
    else:
        P = opt.build_from_ind_proj(opt.indicator_l2_ball(q), opt.proj_l2_ball(q))
        n = np.linalg.norm(x)
        want = x * q / n if n > q else x
    z, v = P.prox_vec_val(jx, t)
    same(np.asarray(z), want, "prox of an indicator", rtol=1e-9, atol=1e-7)
    require(float(v) == 0, "value of the indicator at the projection")
    same(np.asarray(P.prox_op(jx, t)), want, "prox of an indicator", rtol=1e-9, atol=1e-7)
    return bool(np.any(want != x))
