"""C06: sensing matrix constructors deliver the promised structure, deterministically per key."""
import numpy as np
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.dict as crd

from harness.core import sub, require
from harness.g import same, SEED

FS = ["gaussian", "rademacher", "sparse_binary", "onb", "orows"]


@st.composite
def gen(draw):
    f = draw(st.sampled_from(FS))
    m = draw(st.one_of(st.integers(1, 24), st.integers(1, 3)))
    n = draw(st.integers(m, 40)) if f == "orows" else draw(st.one_of(st.integers(1, 40), st.integers(1, 2)))
    return {"f": f, "m": m, "n": n, "key": draw(SEED), "norm": draw(st.booleans()), "d": draw(st.integers(1, m)),
            "dense": draw(st.booleans()), "sq": draw(st.sampled_from([False, False, False, True]))}


def dense(A):
    return np.asarray(A.todense() if hasattr(A, "todense") else A)


def build(case, key):
    f, m, n = case["f"], case["m"], case["n"]
    if f == "gaussian":
        return crd.gaussian_mtx(key, m, n, normalize_atoms=case["norm"])
    if f == "rademacher":
        return crd.rademacher_mtx(key, m, n, normalize_atoms=case["norm"])
    if f == "sparse_binary":
        return crd.sparse_binary_mtx(key, m, n, d=case["d"], normalize_atoms=case["norm"], dense=case["dense"])
    if f == "onb":
        return crd.random_onb(key, m)
    return crd.random_orthonormal_rows(key, m, n)


def as_op(case, key):
    f, m, n = case["f"], case["m"], case["n"]
    nn = None if case["sq"] else n
    if f == "gaussian":
        return lop.gaussian_dict(key, m, nn, normalize_atoms=case["norm"])
    if f == "rademacher":
        return lop.rademacher_dict(key, m, nn, normalize_atoms=case["norm"])
    if f == "sparse_binary":
        return lop.sparse_binary_dict(key, m, nn, d=case["d"], normalize_atoms=case["norm"], dense=case["dense"])
    if f == "onb":
        return lop.random_onb_dict(key, m)
    return lop.random_orthonormal_rows_dict(key, m, nn)


def structure(case, tol):
    f, m = case["f"], case["m"]
    if case["sq"]:
        case["n"] = m
    n = case["n"]
    key = jax.random.PRNGKey(case["key"])
    A = build(case, key)
    D = dense(A)
    cols = m if f == "onb" else n
    require(D.shape == (m, cols), f"{f}: shape", got=D.shape, want=(m, cols))
    require(np.all(np.isfinite(D)), f"{f}: non-finite entries")
    require(np.array_equal(dense(build(case, key)), D), f"{f}: the same key gives different matrices")
    if f == "gaussian":
        G = dense(crd.gaussian_mtx(key, m, n, normalize_atoms=False))
        nr = np.linalg.norm(G, axis=0)
        if case["norm"]:
            same(np.linalg.norm(D, axis=0), np.ones(n), "gaussian: atoms not unit norm", rtol=tol)
            same(D, G / nr, "gaussian: normalized atoms are not the normalized columns", rtol=tol)
        require(np.unique(G).size > 0.9 * G.size, "gaussian: repeated entries")
    elif f == "rademacher":
        s = 1 / np.sqrt(m) if case["norm"] else 1.0
        same(np.abs(D), np.full((m, n), s), "rademacher: entries are not +-s", rtol=tol)
    elif f == "sparse_binary":
        d = case["d"]
        v = 1 / np.sqrt(d) if case["norm"] else 1.0
        require(np.array_equal((D != 0).sum(axis=0), np.full(n, d)), "sparse_binary: not exactly d ones per column",
                got=(D != 0).sum(axis=0).tolist(), d=d)
        same(D[D != 0].astype(float), np.full(d * n, v), "sparse_binary: wrong value of the ones", rtol=tol)
        require(hasattr(A, "todense") == (not case["dense"]), "sparse_binary: dense flag", got=type(A).__name__)
    elif f == "onb":
        same(D.T @ D, np.eye(m), "random_onb: not orthonormal", rtol=tol * 10, atol=tol * 10)
        same(D @ D.T, np.eye(m), "random_onb: not orthonormal", rtol=tol * 10, atol=tol * 10)
    else:
        same(D @ D.T, np.eye(m), "rows are not orthonormal", rtol=tol * 10, atol=tol * 10)
    # the operator is the same matrix
    T = as_op(case, key)
    require(tuple(T.shape) == D.shape, f"{f}: operator shape", got=T.shape)
    same(np.asarray(lop.to_matrix(T)), D.astype(float), f"{f}: operator and matrix differ", rtol=tol)
    same(np.asarray(lop.to_adjoint_matrix(T)), D.T.astype(float), f"{f}: operator adjoint and matrix differ", rtol=tol)
    return f if D.size > 1 else False


R = "shape, key and options drawn; non-trivial = more than one entry"


@sub("C06", "structure", gen(), 170, R)
def s1(case):
    return structure(case, 1e-9)


@sub("C06", "structure32", gen(), 110, R + "; single precision", x64=False)
def s2(case):
    return structure(case, 2e-6)


@st.composite
def gen_stat(draw):
    f = draw(st.sampled_from(FS))
    return {"f": f, "m": draw(st.sampled_from([40, 64, 100])), "n": draw(st.sampled_from([100, 200])),
            "d": draw(st.integers(3, 12)), "key": draw(SEED), "key2": draw(SEED), "norm": False, "dense": True, "sq": False}


@sub("C06", "randomness", gen_stat(), 60, "large matrices: entry statistics within 7 standard errors of the documented "
     "distribution, different keys give different matrices; non-trivial = keys differ")
def rnd(case):
    f, m, n = case["f"], case["m"], case["n"]
    D = dense(build(case, jax.random.PRNGKey(case["key"]))).astype(float)
    N = D.size
    if f == "gaussian":
        z = D * np.sqrt(m)
        require(abs(z.mean()) < 7 / np.sqrt(N), "gaussian: mean", got=z.mean())
        require(abs(z.var() - 1) < 7 * np.sqrt(2 / N), "gaussian: variance is not 1/m", got=z.var() / m)
        require(abs(np.mean(z ** 4) - 3) < 7 * np.sqrt(96 / N), "gaussian: kurtosis", got=np.mean(z ** 4))
    elif f == "rademacher":
        require(abs(D.mean()) < 7 / np.sqrt(N), "rademacher: signs unbalanced", got=D.mean())
    elif f == "sparse_binary":
        p = case["d"] / m
        row = D.sum(axis=1)
        require(np.all(np.abs(row - n * p) < 7 * np.sqrt(n * p * (1 - p)) + 3), "sparse_binary: rows hit unevenly",
                got=row.tolist())
    C = D if f != "onb" else D
    # no two columns identical or opposite, rows neither (independent draws)
    for M, nm in ((C, "columns"), (C.T, "rows")):
        if f == "sparse_binary" and nm == "columns":
            continue
        U = M / np.maximum(np.linalg.norm(M, axis=0), 1e-12)
        if f == "sparse_binary":
            U = U - U.mean(axis=0)
            U = U / np.maximum(np.linalg.norm(U, axis=0), 1e-12)
        g = np.abs(U.T @ U)
        np.fill_diagonal(g, 0)
        require(g.max() < 0.999, f"{f}: two {nm} coincide", got=g.max())
    if case["key"] == case["key2"]:
        return False
    E = dense(build(case, jax.random.PRNGKey(case["key2"]))).astype(float)
    require(not np.array_equal(D, E), f"{f}: different keys give the same matrix")
    return f


@st.composite
def gen_alg(draw):
    m = draw(st.integers(1, 7))
    return {"m": m, "n": draw(st.one_of(st.none(), st.integers(1, 7))), "key": draw(SEED)}


@sub("C06", "binary_alg", gen_alg(), 40, "binary_dict_alg: 0/1 entries, fixed per key, trans is the transpose; "
     "non-trivial = more than one entry")
def alg(case):
    n = case["m"] if case["n"] is None else case["n"]
    T = lop.binary_dict_alg(jax.random.PRNGKey(case["key"]), case["m"], case["n"])
    D = np.asarray(lop.to_matrix(T))
    require(D.shape == (case["m"], n) == tuple(T.shape), "binary_dict_alg: shape", got=D.shape)
    require(np.all((D == 0) | (D == 1)), "binary_dict_alg: entries not 0/1")
    same(np.asarray(lop.to_adjoint_matrix(T)), D.T, "binary_dict_alg: adjoint")
    return D.size > 1
