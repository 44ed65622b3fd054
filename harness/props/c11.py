"""C11: indicator functions are 0 on their set, +inf off it."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.opt as opt

from harness.core import sub, require, Fail
from harness.g import SEED

INTV = st.integers(-4, 4)


@st.composite
def iv(draw, n):
    return draw(st.lists(INTV, min_size=n, max_size=n))


def expect(ind, x, member, msg, **info):
    v = float(ind(jnp.asarray(x)))
    want = 0.0 if member else np.inf
    require(v == want, f"{msg}: indicator", got=v, expected=want, x=np.asarray(x).tolist(), **info)


# ---------------------------------------------------------------- balls
@st.composite
def gen_ball(draw):
    n = draw(st.integers(1, 6))
    m = draw(st.integers(1, 5))
    form = draw(st.sampled_from(["plain", "centre", "matrix", "full"]))
    dim = m if form in ("matrix", "full") else n
    return {"p": draw(st.sampled_from(["l1", "l2"])), "form": form, "x": draw(iv(n)), "b": draw(iv(dim)),
            "A": [draw(iv(n)) for _ in range(m)], "k": draw(st.sampled_from(["at", "in", "out", "fix"])),
            "q": draw(st.integers(1, 9)), "dflt": draw(st.booleans())}


@sub("C11", "balls", gen_ball(), 200, "l1 and l2 balls, with centre and matrix, on integer data (norms known exactly or to a "
     "relative gap of 1e-3); the radius is set at, just above, just below the norm or drawn; reference = exact norm; "
     "non-trivial = the norm is within 1% of the radius")
def balls(case):
    x = np.array(case["x"], float)
    A, b = np.array(case["A"], float), np.array(case["b"], float)
    kw = {}
    r = x
    if case["form"] in ("matrix", "full"):
        kw["A"] = jnp.asarray(A)
        r = A @ x
    if case["form"] in ("centre", "full"):
        kw["b"] = jnp.asarray(b)
        r = r - b
    nrm = np.abs(r).sum() if case["p"] == "l1" else np.linalg.norm(r)
    f = opt.indicator_l1_ball if case["p"] == "l1" else opt.indicator_l2_ball
    k = case["k"]
    if k == "fix" or nrm == 0:
        q = float(case["q"])
        k = "fix"
    elif k == "in":
        q = nrm * 1.001
    elif k == "out":
        q = nrm * 0.999
    else:
        if case["p"] == "l2" and nrm != round(nrm):
            q, k = nrm * (1 + 1e-9), "in"
        else:
            q = float(nrm)
    member = {"at": True, "in": True, "out": False}.get(k, None)
    if member is None:
        if case["dflt"]:
            q = 1.0
        if case["p"] == "l2" and abs(nrm - q) < 1e-9 and nrm != round(nrm):
            return False
        member = bool(nrm <= q + 1e-12)
    ind = f(**kw) if (k == "fix" and case["dflt"]) else f(q, **kw)
    expect(ind, x, member, f"{case['p']} ball {case['form']}", q=q, norm=nrm)
    return "at" if k == "at" else (k if abs(nrm - q) < 0.01 * q else False)


# ---------------------------------------------------------------- simple sets
@st.composite
def gen_simple(draw):
    n = draw(st.integers(1, 6))
    f = draw(st.sampled_from(["zero", "singleton", "singleton_scalar", "box", "lower", "upper", "conic", "badbox", "badball"]))
    return {"f": f, "x": draw(iv(n)), "c": draw(iv(n)), "w": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)),
            "member": draw(st.booleans()), "i": draw(st.integers(0, n - 1)), "eps": draw(st.sampled_from([1e-12, 1e-6, 0.1, 2.0])),
            "mat": draw(st.booleans()), "scal": draw(st.booleans()), "s": draw(st.sampled_from([-1, 1]))}


@sub("C11", "sets", gen_simple(), 220, "zero set, singletons (also broadcast), boxes (also one-sided, scalar bounds), second "
     "order cone; points in the set and the same points moved off it in one coordinate; non-trivial = the point is on the "
     "boundary or one small step outside")
def sets(case):
    n = len(case["x"])
    x, c = np.array(case["x"], float), np.array(case["c"], float)
    i, e = case["i"], case["eps"]
    f = case["f"]

    def sh(v):
        return np.asarray(v).reshape(1, n) if case["mat"] else np.asarray(v)
    if f == "badbox":
        try:
            opt.indicator_box()
        except ValueError:
            return False
        raise Fail("indicator_box without any bound was accepted")
    if f == "badball":
        try:
            opt.indicator_l2_ball(q=-e)
        except ValueError:
            return False
        raise Fail("indicator_l2_ball with a negative radius was accepted")
    if f == "zero":
        z = np.zeros(n)
        if not case["member"]:
            z[i] = case["s"] * e
            if case["scal"] and n > 1:
                z[i - 1] = -z[i]        # entries that cancel
        expect(opt.indicator_zero(), sh(z), case["member"], "zero set")
        return True
    if f.startswith("singleton"):
        t = np.full(n, c[0]) if f.endswith("scalar") else c
        y = t.copy()
        if not case["member"]:
            y[i] += case["s"] * e
            if case["scal"] and n > 1:
                y[i - 1] -= case["s"] * e
        ind = opt.indicator_singleton(float(c[0])) if f.endswith("scalar") else opt.indicator_singleton(jnp.asarray(sh(c)))
        expect(ind, sh(y), case["member"], f)
        return True
    if f in ("box", "lower", "upper"):
        l = np.full(n, c[0]) if case["scal"] else c
        w = np.array(case["w"], float)
        if case["scal"]:
            w = np.full(n, w[0])
        u = l + w
        y = np.clip(x, l, u)
        if f == "lower":
            y = np.maximum(x, l)
        if f == "upper":
            y = np.minimum(x, u)
        if not case["member"]:
            if f == "lower" or (f == "box" and case["s"] < 0):
                y[i] = l[i] - e
            else:
                y[i] = u[i] + e
        jl = float(l[0]) if case["scal"] else jnp.asarray(sh(l))
        ju = float(u[0]) if case["scal"] else jnp.asarray(sh(u))
        ind = {"box": lambda: opt.indicator_box(jl, ju), "lower": lambda: opt.indicator_box(l=jl),
               "upper": lambda: opt.indicator_box(u=ju)}[f]()
        expect(ind, sh(y), case["member"], f)
        return True
    nx = np.linalg.norm(x)
    if nx == round(nx):
        t = nx if case["member"] else nx - e
        edge = True
    else:
        t = nx * (1 + 1e-6) if case["member"] else nx - e
        edge = False
    expect(opt.indicator_conic(), np.append(x, t), case["member"], "second order cone")
    if nx > 0:
        expect(opt.indicator_conic(), np.append(x, -t), False if t > 0 else nx <= -t, "second order cone, reflected")
    return edge or not case["member"]


# ---------------------------------------------------------------- affine sets
@st.composite
def gen_aff(draw):
    n, m = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    return {"A": [draw(iv(n)) for _ in range(m)], "x": draw(iv(n)), "d": draw(iv(n)), "e": draw(st.sampled_from([1e-3, 1.0, 2.0])),
            "b0": draw(st.booleans())}


@sub("C11", "affine", gen_aff(), 80, "integer systems, so that members solve Ax = b exactly; non-members leave the solution "
     "set by an integer direction; reference = exact residual; non-trivial = A d is not zero")
def affine(case):
    A, x, d = (np.array(case[k], float) for k in ("A", "x", "d"))
    b = A @ x
    ind = opt.indicator_affine(jnp.asarray(A), jnp.asarray(b))
    expect(ind, x, True, "solution of the system")
    y = x + case["e"] * d
    r = np.abs(A @ d).max()
    if r > 0:
        expect(ind, y, False, "not a solution", residual=r * case["e"])
    if case["b0"]:
        ind = opt.indicator_affine(jnp.asarray(A))
        expect(ind, 0 * x, True, "zero solves Ax = 0")
        if np.any(b):
            expect(ind, x, False, "x does not solve Ax = 0")
    return bool(r > 0)


@st.composite
def gen_ba(draw):
    n = draw(st.integers(1, 6))
    return {"a": draw(iv(n)), "x": draw(iv(n)), "lo": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)),
            "hi": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), "k": draw(st.sampled_from(["in", "low", "high", "aff"])),
            "nl": draw(st.booleans()), "nu": draw(st.booleans()), "i": draw(st.integers(0, n - 1)),
            "tol": draw(st.sampled_from([None, 1e-3])), "t": draw(st.sampled_from([0.5, 2.0])), "e": draw(st.sampled_from([1e-3, 1.0]))}


@sub("C11", "box_affine", gen_ba(), 110, "box and hyperplane on integer data, one-sided boxes, the tolerance of the hyperplane "
     "probed at half and twice its value; non-trivial = every case but those with a = 0")
def box_affine(case):
    a, x = np.array(case["a"], float), np.array(case["x"], float)
    l, u = x - np.array(case["lo"]), x + np.array(case["hi"])
    alpha = float(a @ x)
    k, i = case["k"], case["i"]
    y = x.copy()
    tol = case["tol"] or 1e-6
    member = True
    if k == "low":
        y[i] = l[i] - case["e"]
        member = case["nl"]
        alpha = float(a @ y)
    elif k == "high":
        y[i] = u[i] + case["e"]
        member = case["nu"]
        alpha = float(a @ y)
    elif k == "aff":
        alpha = alpha + tol * case["t"]
        member = case["t"] < 1
    kw = {"tol": tol} if case["tol"] else {}
    ind = opt.indicator_box_affine(None if case["nl"] else jnp.asarray(l), None if case["nu"] else jnp.asarray(u), jnp.asarray(a),
                                   alpha, **kw)
    expect(ind, y, bool(member), f"box and hyperplane ({k})")
    return bool(np.any(a))
