"""C08: projectors return the nearest point of their convex set."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.opt as opt

from harness.core import sub, require
from harness.g import arr, mk, same, SEED

Q = st.sampled_from([0.05, 0.5, 1.0, 1.75, 4.0, 30.0])


def proj_l1_ref(x, q):
    """bisection on the shrinkage threshold (independent of sorting)"""
    a = np.abs(x)
    if a.sum() <= q:
        return x
    lo, hi = 0.0, a.max()
    for _ in range(200):
        k = (lo + hi) / 2
        if np.maximum(a - k, 0).sum() > q:
            lo = k
        else:
            hi = k
    return np.sign(x) * np.maximum(a - (lo + hi) / 2, 0)


@st.composite
def vec(draw, n=None, kinds=("q", "g", "t", "s", "e"), c=False):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 15, 32])) if n is None else n
    return draw(arr((n,), kinds=kinds, cplx=c))


# --------------------------------------------------------------- generic checker
def inside_samples(kind, case, x, rng):
    """points of the set, to test the variational inequality"""
    n = x.size
    g = rng.standard_normal((4, n))
    if kind == "l1":
        q = case["q"]
        z = g / np.abs(g).sum(axis=1, keepdims=True) * q * rng.random_sample((4, 1))
        return z + (mk(case["b"]) if case.get("b") else 0)
    if kind == "l2":
        q = case["q"]
        z = g / np.linalg.norm(g, axis=1, keepdims=True) * q * rng.random_sample((4, 1))
        return z + (mk(case["b"]) if case.get("b") else 0)
    return None


@st.composite
def gen_ball(draw, p):
    x = draw(vec())
    n = x["sh"][0]
    c = {"x": x, "q": draw(Q), "us": draw(SEED), "p": p, "b": None,
         "dflt": draw(st.sampled_from([False, False, False, True]))}
    if draw(st.booleans()):
        c["b"] = draw(vec(n))
    if c["dflt"]:
        c["q"] = 1.0
    return c


def ball(case):
    x, q = mk(case["x"]), case["q"]
    b = None if case["b"] is None else mk(case["b"])
    c = 0.0 if b is None else b
    kw = {} if b is None else {"b": jnp.asarray(b)}
    if not case["dflt"]:
        kw["q"] = q
    f = opt.proj_l1_ball if case["p"] == "l1" else opt.proj_l2_ball
    P = f(**kw)
    got = np.asarray(P(jnp.asarray(x)))
    r = x - c
    if case["p"] == "l1":
        want = proj_l1_ref(r, q) + c
        nrm = np.abs(r).sum()
        gn = np.abs(got - c).sum()
    else:
        nr = np.linalg.norm(r)
        want = (r * (q / nr) if nr > q else r) + c
        nrm, gn = nr, np.linalg.norm(got - c)
    sc = 1 + np.abs(x).max() + np.abs(np.asarray(c)).max()
    same(got, want, f"projection on the {case['p']} ball", rtol=1e-9, atol=3e-7 + 1e-9 * sc)
    require(gn <= q + 1e-9 * sc, f"projection outside the {case['p']} ball", norm=gn, q=q)
    if nrm <= q:
        require(np.array_equal(got, x) or np.allclose(got, x, rtol=1e-12, atol=1e-12 * sc), "a point of the ball was moved")
    same(np.asarray(P(jnp.asarray(got))), got, "projection is not idempotent", rtol=1e-9, atol=3e-7)
    rng = np.random.RandomState(case["us"])
    for z in inside_samples(case["p"], case, x, rng):
        vi = np.dot(x - got, z - got)
        require(vi <= 1e-6 * (1 + np.linalg.norm(x - got)) * (1 + np.linalg.norm(z - got)), "a point of the ball is nearer", vi=vi)
    y = x + rng.standard_normal(x.shape)
    gy = np.asarray(P(jnp.asarray(y)))
    require(np.linalg.norm(gy - got) <= np.linalg.norm(y - x) * (1 + 1e-9) + 1e-6, "projection is expansive")
    return "outside" if nrm > q else False


R = ("drawn point, radius and centre (ties, zeros, several scales); reference = bisection / closed form in float64; plus membership, "
     "idempotence, variational inequality and non-expansiveness; non-trivial = the point lies outside the set")


@sub("C08", "l1_ball", gen_ball("l1"), 190, R)
def l1(case):
    return ball(case)


@sub("C08", "l2_ball", gen_ball("l2"), 130, R)
def l2(case):
    return ball(case)


# --------------------------------------------------------------- boxes
@st.composite
def gen_box(draw):
    x = draw(vec())
    n = x["sh"][0]
    k = draw(st.sampled_from(["both", "l", "u", "scalar"]))
    return {"x": x, "k": k, "l": draw(vec(n, kinds=("q", "g", "t"))), "w": draw(vec(n, kinds=("q", "g", "t"))),
            "sl": draw(st.sampled_from([-2.0, -0.5, 0.0])), "su": draw(st.sampled_from([0.0, 0.25, 3.0]))}


@sub("C08", "box", gen_box(), 130, "box with vector, scalar or one-sided bounds (also degenerate l = u); reference = clip; "
     "non-trivial = some bound is active")
def box(case):
    x = mk(case["x"])
    if case["k"] == "scalar":
        l, u = case["sl"], case["su"]
    else:
        l = mk(case["l"])
        u = l + np.abs(mk(case["w"]))
    jl = None if case["k"] == "u" else jnp.asarray(l)
    ju = None if case["k"] == "l" else jnp.asarray(u)
    got = np.asarray(opt.proj_box(jl, ju)(jnp.asarray(x)))
    want = x.copy()
    if jl is not None:
        want = np.maximum(want, l)
    if ju is not None:
        want = np.minimum(want, u)
    same(got, want, "projection on the box", rtol=1e-12, atol=1e-12)
    return bool(np.any(want != x))


# --------------------------------------------------------------- affine, cone, singleton, trivial sets
@st.composite
def gen_aff(draw):
    n = draw(st.integers(1, 10))
    m = draw(st.integers(1, n))
    return {"m": m, "n": n, "us": draw(SEED), "x": draw(vec(n)), "b0": draw(st.booleans()),
            "scale": draw(st.sampled_from([0.01, 1.0, 50.0]))}


@sub("C08", "affine", gen_aff(), 100, "solution set of a well conditioned full row rank system; reference = "
     "x - A^+(Ax - b); non-trivial = the point is not a solution and n > m")
def affine(case):
    rng = np.random.RandomState(case["us"])
    m, n = case["m"], case["n"]
    U, V = np.linalg.qr(rng.standard_normal((m, m)))[0], np.linalg.qr(rng.standard_normal((n, n)))[0]
    A = U @ np.diag(rng.uniform(0.5, 2, m)) @ V[:m] * case["scale"]
    x = mk(case["x"])
    b = np.zeros(m) if case["b0"] else A @ rng.standard_normal(n)
    P = opt.proj_affine(jnp.asarray(A)) if case["b0"] else opt.proj_affine(jnp.asarray(A), jnp.asarray(b))
    got = np.asarray(P(jnp.asarray(x)))
    want = x - np.linalg.pinv(A) @ (A @ x - b)
    sc = 1 + np.abs(x).max()
    same(got, want, "projection on the affine set", rtol=1e-8, atol=1e-8 * sc)
    require(np.linalg.norm(A @ got - b) <= 1e-8 * case["scale"] * sc * 10, "projected point is not a solution")
    same(np.asarray(P(jnp.asarray(got))), got, "projection is not idempotent", rtol=1e-8, atol=1e-8 * sc)
    return bool(np.linalg.norm(A @ x - b) > 1e-6) and n > m


@st.composite
def gen_cone(draw):
    n = draw(st.sampled_from([2, 3, 4, 6, 10]))
    return {"x": draw(vec(n)), "t": draw(st.one_of(st.none(), st.sampled_from([-5.0, -1.0, 0.0, 0.5, 2.0, 10.0])))}


@sub("C08", "cone", gen_cone(), 130, "second order cone in R^2..R^10, points inside, outside and in the polar cone; "
     "reference = the three-case closed form; non-trivial = the point is outside the cone")
def cone(case):
    y = mk(case["x"])
    if case["t"] is not None:
        y[-1] = case["t"]
    x, t = y[:-1], y[-1]
    nx = np.linalg.norm(x)
    if nx <= t:
        want = y
    elif nx <= -t:
        want = np.zeros_like(y)
    else:
        a = (nx + t) / 2
        want = np.append(a * x / nx, a)
    P = opt.proj_conic()
    got = np.asarray(P(jnp.asarray(y)))
    sc = 1 + np.abs(y).max()
    same(got, want, "projection on the second order cone", rtol=1e-9, atol=1e-9 * sc)
    require(np.linalg.norm(got[:-1]) <= got[-1] + 1e-9 * sc, "projection outside the cone")
    require(abs(np.dot(y - got, got)) <= 1e-8 * sc ** 2, "residual not orthogonal to the projection")
    return "polar" if nx <= -t and np.any(y) else ("outside" if nx > t else False)


@st.composite
def gen_triv(draw):
    x = draw(arr(draw(st.sampled_from([(1,), (4,), (2, 3), (2, 2, 2)]))))
    return {"f": draw(st.sampled_from(["zero", "identity", "singleton"])), "x": x, "c": draw(st.sampled_from([-1.5, 0.0, 4.0])),
            "vecc": draw(st.booleans()), "cs": draw(SEED), "int": draw(st.booleans())}


@sub("C08", "simple_sets", gen_triv(), 70, "zero, whole space and singleton sets on N-D input; non-trivial = input not "
     "in the set")
def simple(case):
    x = mk(case["x"])
    if case["int"]:
        x = np.round(x).astype(int)
    f = case["f"]
    if f == "zero":
        want = np.zeros_like(x)
        got = opt.proj_zero()(jnp.asarray(x))
    elif f == "identity":
        want = x
        got = opt.proj_identity()(jnp.asarray(x))
    else:
        c = np.random.RandomState(case["cs"]).standard_normal(x.shape) if case["vecc"] else case["c"]
        want = np.broadcast_to(c, x.shape)
        got = opt.proj_singleton(jnp.asarray(c))(jnp.asarray(x))
    same(np.asarray(got), want, f"proj_{f}", rtol=1e-12)
    return bool(np.any(want != x))


# --------------------------------------------------------------- plain functions
@st.composite
def gen_plain(draw):
    c = draw(st.booleans())
    return {"x": draw(arr(draw(st.sampled_from([(1,), (3,), (7,), (2, 3)])), cplx=c)), "q": draw(Q),
            "f": draw(st.sampled_from(["ball", "box", "upper"])), "d": draw(st.sampled_from([False, False, True])),
            "neg": draw(st.booleans())}


@sub("C08", "plain", gen_plain(), 130, "project_to_ball / project_to_box / project_to_real_upper_limit, real and complex "
     "arrays; reference = closed form; non-trivial = the input is changed")
def plain(case):
    x, q = mk(case["x"]), case["q"]
    if case["d"]:
        q = 1.0
    f = case["f"]
    if f == "upper" and case["neg"] and not case["d"]:
        q = -q
    a = () if case["d"] else (q,)
    if f == "ball":
        got = opt.project_to_ball(jnp.asarray(x), *a)
        nr = np.linalg.norm(x)
        want = x * (q / nr) if nr > q else x
    elif f == "box":
        got = opt.project_to_box(jnp.asarray(x), *a)
        ab = np.abs(x)
        want = np.where(ab > q, x * (q / np.maximum(ab, 1e-300)), x)
    else:
        got = opt.project_to_real_upper_limit(jnp.asarray(x), *a)
        want = np.minimum(x.real, q)
    same(np.asarray(got), want, f"project_to_{f}", rtol=1e-10, atol=1e-12)
    return bool(np.any(want != x))
