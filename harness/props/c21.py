"""C21: 1-bit compressive sensing."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.cs.cs1bit as cs

from harness.core import sub, require
from harness.g import same, finite, SEED

J = jnp.asarray


def sensing(case, rng):
    m, n = case["m"], case["n"]
    P = rng.standard_normal((m, n)) * case["ps"] / np.sqrt(m)
    x = np.zeros(n)
    k = case["ktrue"]
    x[rng.permutation(n)[:k]] = rng.standard_normal(k) + 0.1
    return P, x


@st.composite
def gen(draw):
    m, n = draw(st.sampled_from([(1, 1), (4, 6), (12, 8), (30, 20), (60, 40)]))
    k = draw(st.integers(1, min(n, 5)))
    return {"m": m, "n": n, "k": k, "ktrue": draw(st.integers(1, k)), "us": draw(SEED), "ps": draw(st.sampled_from([1.0, 1.0, 20.0, 0.05])),
            "tau": draw(st.sampled_from([0.05, 1.0, 3.0])), "mi": draw(st.sampled_from([0, 1, 2, 3, 5, 10, 40])), "jit": draw(st.booleans()),
            "flip": draw(st.sampled_from([0, 0, 1, 3])), "scale": draw(st.sampled_from([1.0, 1e3, 1e-3])), "dflt": draw(st.sampled_from([False, False, True]))}


@sub("C21", "biht", gen(), 250, "drawn sensing matrices, K, step, sign flips; reference = the iteration x <- H_K(x + tau/2 Phi^T (y - sgn(Phi x))) in numpy; every "
     "reported quantity compared; metamorphic: the answer is proportional to tau and ignores the scale of x; non-trivial = at least two iterations")
def t_biht(case):
    rng = np.random.RandomState(case["us"])
    P, x = sensing(case, rng)
    m, n, k, tau = case["m"], case["n"], case["k"], case["tau"]
    u = P @ x
    if np.abs(u).min() == 0:
        return False
    y = np.array(cs.measure_1bit(J(P), J(x * case["scale"])))
    same(y, np.sign(u), "measure_1bit")
    for i in rng.permutation(m)[:case["flip"]]:
        y[i] = -y[i]
    fn = cs.biht_jit if case["jit"] else cs.biht
    mi = case["mi"]
    s = fn(J(P), J(y), k, tau) if case["dflt"] else fn(J(P), J(y), k, tau, mi)
    if case["dflt"]:
        mi = 1000
    # reference
    z, it = np.zeros(n), 0
    r = y - np.sign(P @ z)
    while np.any(r != 0) and it < mi:
        w = z + tau / 2 * (P.T @ r)
        o = np.argsort(-np.abs(w), kind="stable")
        if k < n and np.abs(w[o[k - 1]]) - np.abs(w[o[k]]) <= 1e-9 * (np.abs(w[o[0]]) + tau * case["ps"]):
            return False                # a tie
        z = np.zeros(n)
        z[o[:k]] = w[o[:k]]
        v = P @ z
        if np.abs(v).min() <= 1e-9 * np.abs(v).max():
            return False                # a sign decided by rounding
        r = y - np.sign(v)
        it += 1
    I, xI = np.asarray(s.I), np.asarray(s.x_I)
    require(I.shape == (k,) and xI.shape == (k,) and len(set(I.tolist())) == k and I.min() >= 0 and I.max() < n, "support", I=I)
    got = np.zeros(n)
    got[I] = xI
    require(int(s.iterations) == it, "iterations", got=int(s.iterations), want=it)
    same(got, z, f"x after {it} iterations", rtol=1e-8, atol=1e-10 * tau * case["ps"])
    same(np.asarray(s.r), r, "residual of the bits")
    require(int(s.n_mismatched_bits) == int(np.sum(r != 0)), "number of mismatched bits", got=int(s.n_mismatched_bits), want=int(np.sum(r != 0)))
    return it >= 2


@st.composite
def gen_rfp(draw):
    m, n = draw(st.sampled_from([(4, 3), (12, 8), (40, 16), (20, 30)]))
    return {"m": m, "n": n, "ktrue": draw(st.integers(1, 3)), "us": draw(SEED), "ps": draw(st.sampled_from([1.0, 3.0])),
            "lam": draw(st.sampled_from([None, 5.0, 30.0, 200.0])), "delta": draw(st.sampled_from([None, 0.02, 0.3])),
            "ii": draw(st.sampled_from([1, 2, 4])), "oi": draw(st.sampled_from([1, 2, 3])), "start": draw(st.sampled_from(["lsqr", "random", "own"])), "flip": draw(st.sampled_from([0, 0, 2]))}


@sub("C21", "rfp", gen_rfp(), 120, "drawn sensing matrices, starts and parameters; reference = the published renormalised fixed point iteration (gradient of the one-sided "
     "quadratic penalty, projection on the tangent plane, shrinkage delta/lambda, renormalisation; lambda grows by 1.5 per outer round); non-trivial = some bit is wrong at the start")
def t_rfp(case):
    rng = np.random.RandomState(case["us"])
    P, x = sensing(case, rng)
    m, n = case["m"], case["n"]
    y = np.sign(P @ x)
    if np.any(y == 0):
        return False
    for i in rng.permutation(m)[:case["flip"]]:
        y[i] = -y[i]
    if case["start"] == "lsqr":
        x0 = np.asarray(cs.rfp_lsqr_guess(J(P), J(y)))
        w = np.linalg.lstsq(P, y, rcond=None)[0]
        same(x0, w / np.linalg.norm(w), "least squares guess", rtol=1e-6, atol=1e-7)
    elif case["start"] == "random":
        x0 = np.asarray(cs.rfp_random_guess(J(P)))
        require(x0.shape == (n,), "shape of the random guess")
        same(np.linalg.norm(x0), 1.0, "norm of the random guess")
    else:
        x0 = rng.standard_normal(n)
        x0 /= np.linalg.norm(x0)
    kw = {}
    lam, delta = case["lam"], case["delta"]
    if lam is not None:
        kw["lambda_"] = lam
    if delta is not None:
        kw["delta"] = delta
    lam, delta = lam or 1.0, delta or 0.1
    # reference
    z, bad = x0.copy(), False
    for _ in range(case["oi"]):
        for _ in range(case["ii"]):
            c = y * (P @ z)
            if np.abs(c).min() <= 1e-10:
                return False
            bad = bad or np.any(c < 0)
            g = P.T @ (y * np.minimum(c, 0))
            g = g - (g @ z) * z
            h = z - delta * g
            u = np.sign(h) * np.maximum(np.abs(h) - delta / lam, 0)
            if np.linalg.norm(u) <= 1e-3:
                return False            # the threshold kills everything
            prev, z = z, u / np.linalg.norm(u)
        lam *= 1.5
    with contextlib.redirect_stdout(io.StringIO()):
        s = cs.rfp(J(P), J(y), J(x0), inner_iters=case["ii"], outer_iters=case["oi"], **kw)
    got = np.asarray(s.x)
    finite(got, "x")
    same(got, z, "x", rtol=1e-6, atol=1e-7)
    same(np.asarray(s.x_prev), prev, "x_prev", rtol=1e-6, atol=1e-7)
    require(int(s.iterations) == case["ii"], "inner iterations", got=int(s.iterations))
    same(np.linalg.norm(got), 1.0, "the estimate is not on the sphere")
    return bool(bad)


@st.composite
def gen_quality(draw):
    return {"us": draw(SEED), "n": draw(st.sampled_from([20, 40])), "ratio": draw(st.sampled_from([6, 10])), "k": draw(st.integers(1, 4)), "scale": draw(st.sampled_from([1.0, 50.0])),
            "algo": draw(st.sampled_from(["biht", "biht", "rfp"])), "dyn": draw(st.sampled_from([1.0, 4.0]))}


@sub("C21", "recover", gen_quality(), 80, "noiseless signs of a K-sparse vector with many (6 to 10 times N) Gaussian measurements: the direction is recovered within 0.35 rad, "
     "oracle = the planted vector; non-trivial = all")
def t_quality(case):
    rng = np.random.RandomState(case["us"])
    n, k = case["n"], case["k"]
    m = case["ratio"] * n
    P = rng.standard_normal((m, n)) / np.sqrt(m)
    x = np.zeros(n)
    x[rng.permutation(n)[:k]] = np.where(rng.random_sample(k) < 0.5, -1, 1) * rng.uniform(1, case["dyn"] + 1e-9, k)
    x /= np.linalg.norm(x)
    y = np.asarray(cs.measure_1bit(J(P), J(case["scale"] * x)))
    if case["algo"] == "biht":
        s = cs.biht_jit(J(P), J(y), k, 1.0, 300)
        z = np.zeros(n)
        z[np.asarray(s.I)] = np.asarray(s.x_I)
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            s = cs.rfp(J(P), J(y), cs.rfp_lsqr_guess(J(P), J(y)), lambda_=30.0, delta=0.3, inner_iters=15, outer_iters=4)
        z = np.asarray(s.x)
    finite(z, "x")
    z = z / np.linalg.norm(z)
    ang = np.arccos(np.clip(z @ x, -1, 1))
    require(ang <= 0.35, "the direction was not recovered", angle=ang, bits=int(np.sum(np.sign(P @ z) != y)))
    return True
