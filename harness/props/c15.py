"""C15: every greedy pursuit returns a consistent K-sparse approximation, iterate for iterate."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
from cr.sparse import lop
import cr.sparse.pursuit.mp as mp
import cr.sparse.pursuit.omp as omp
import cr.sparse.pursuit.sp as sp
import cr.sparse.pursuit.cosamp as cosamp
import cr.sparse.pursuit.htp as htp
import cr.sparse.pursuit.iht as iht

from harness.core import sub, require
from harness.g import same, finite, SEED

SHAPES = [(6, 9, 1), (8, 8, 2), (12, 20, 2), (12, 20, 3), (16, 30, 4), (20, 10, 3)]


@st.composite
def gen(draw, kinds, cplx):
    m, n, k = draw(st.sampled_from(SHAPES))
    kind = draw(st.sampled_from(kinds))
    return {"m": m, "n": n, "K": k, "us": draw(SEED), "kind": kind, "c": cplx and kind == "op" and draw(st.booleans()),
            "s": draw(st.sampled_from([1, k, k, 2 * k])), "noise": draw(st.sampled_from([0.0, 0.0, 0.05, 1.0])),
            "scale": draw(st.sampled_from([1.0, 1.0, 100.0, 0.01])), "unit": draw(st.booleans()),
            "mi": draw(st.sampled_from([1, 2, 3, 5, None, None])), "rtol": draw(st.sampled_from([1e-6, 1e-3, 0.1, 0.4])),
            "jit": draw(st.booleans()), "norm": draw(st.sampled_from([False, False, True])), "step": draw(st.sampled_from([None, None, 0.3]))}


def problem(case, unit=None):
    rng = np.random.RandomState(case["us"])
    m, n, c = case["m"], case["n"], case["c"]

    def g(*s):
        return rng.standard_normal(s) + (1j * rng.standard_normal(s) if c else 0)
    A = g(m, n)
    if case["unit"] if unit is None else unit:
        A = A / np.linalg.norm(A, axis=0)
    else:
        A = A / np.sqrt(m)
    x = np.zeros(n, A.dtype)
    I = rng.permutation(n)[:min(case["s"], n)]
    x[I] = g(I.size) + 0.5
    y = A @ x + case["noise"] * g(m) / np.sqrt(m)
    return A, y * case["scale"]


def consistent(case, s, A, y, mx, size=None):
    """The facts every solution must satisfy; returns x."""
    n = A.shape[1]
    I = np.asarray(s.I)
    xI = np.asarray(s.x_I)
    x = np.asarray(s.x)
    ny = np.linalg.norm(y)
    finite(xI, "coefficients")
    require(int(s.length) == n and x.shape == (n,), "length of the solution", length=int(s.length), shape=x.shape)
    require(I.shape == xI.shape and np.all((0 <= I) & (I < n)) and np.unique(I).size == I.size, "the support is not a set of distinct indices", I=I)
    if size is not None:
        require(I.size == size, "size of the support", got=I.size, expected=size)
    z = np.zeros(n, xI.dtype)
    z[I] = xI
    same(x, z, "x is not x_I on I and zero elsewhere")
    r = y - A @ z
    same(np.asarray(s.r), r, "reported residual is not y - Phi x", rtol=1e-8, atol=1e-9 * ny)
    same(float(np.real(s.r_norm_sqr)), np.linalg.norm(r) ** 2, "reported squared residual norm", rtol=1e-6, atol=1e-15 * ny ** 2)
    require(abs(np.imag(np.asarray(s.r_norm_sqr))) == 0, "the squared residual norm is not real")
    require(1 <= int(s.iterations) <= max(mx, 1), "iteration count", it=int(s.iterations), max_iters=mx)
    return z, r


def ls(A, I, y):
    return np.linalg.lstsq(A[:, I], y, rcond=None)[0]


def top(v, k):
    return np.argsort(np.abs(v), kind="stable")[::-1][:k]


def gap(v, k):
    """relative separation between the k-th and the next largest magnitude"""
    a = np.sort(np.abs(v))[::-1]
    return np.inf if k >= a.size else (a[k - 1] - a[k]) / (a[0] + 1e-300)


class Ambiguous(Exception):
    pass


def need_gap(v, k):
    if gap(v, k) < 1e-7:
        raise Ambiguous


def compare(case, s, A, y, ref, lsfit):
    """Replay the reference pursuit for the reported number of iterations."""
    ny = np.linalg.norm(y)
    K, rtol = case["K"], case["rtol"]
    it = int(s.iterations)
    mi = y.size if case["mi"] is None else case["mi"]
    z, r = consistent(case, s, A, y, mi, K)
    if lsfit and (it > 1 or lsfit == 2):
        I = np.asarray(s.I)
        same(A[:, I].conj().T @ r, np.zeros(I.size), "the residual is not orthogonal to the selected atoms", atol=1e-8 * ny)
    try:
        x, sup, prev = np.zeros(A.shape[1], A.dtype), list(range(K)), None
        for k in range(1, it + 1):
            prev = list(sup)
            x, sup = ref(A, y, K, k, x, sup)
            rk = np.linalg.norm(y - A @ x)
            if not np.isfinite(rk) or rk > 1e8 * ny:
                raise Ambiguous
            if k < it:
                require(rk > rtol * ny * (1 - 1e-7), "went on although the residual tolerance was met", k=k, r=rk)
        same(z, x, f"the approximation after {it} iterations", rtol=1e-6, atol=1e-7 * np.abs(x).max())
    except Ambiguous:
        return False
    if it < mi:
        met = np.linalg.norm(r) <= rtol * ny * (1 + 1e-7)
        stable = case["algo_stable"] and it >= min(3 * K, 20) and set(sup) == set(prev)
        require(met or stable, "stopped early for no reason", it=it, r=np.linalg.norm(r), tol=rtol * ny)
    return it >= 2


def ref_sp(A, y, K, k, x, sup):
    if k == 1:
        h = A.conj().T @ y
        need_gap(h, K)
        I = top(h, K)
    else:
        h = A.conj().T @ (y - A @ x)
        h[sup] = 0
        if np.abs(h).max() < 1e-9 * np.linalg.norm(y):
            raise Ambiguous
        need_gap(h, K)
        J = np.concatenate([sup, top(h, K)]).astype(int)
        c = ls(A, J, y)
        need_gap(c, K)
        I = J[top(c, K)]
    z = np.zeros_like(x)
    z[I] = ls(A, I, y)
    return z, list(I)


def ref_cosamp(A, y, K, k, x, sup):
    h = A.conj().T @ (y - A @ x)
    if k == 1:
        need_gap(h, 3 * K)
        J = top(h, 3 * K)
    else:
        h[sup] = 0
        if np.abs(h).max() < 1e-9 * np.linalg.norm(y):
            raise Ambiguous
        need_gap(h, 2 * K)
        J = np.concatenate([sup, top(h, 2 * K)]).astype(int)
    c = ls(A, J, y)
    need_gap(c, K)
    Ia = top(c, K)
    z = np.zeros_like(x)
    z[J[Ia]] = c[Ia]
    return z, list(J[Ia])


def ref_hard(fit, case, A0):
    smax = np.linalg.norm(A0, 2)

    def f(A, y, K, k, x, sup):
        h = A.conj().T @ (y - A @ x)
        if case["norm"]:
            mu = np.linalg.norm(h[sup]) ** 2 / np.linalg.norm(A[:, sup] @ h[sup]) ** 2
            if np.linalg.norm(h[sup]) < 1e-7 * np.linalg.norm(y):
                raise Ambiguous
        else:
            mu = 0.98 / smax if case["step"] is None else case["step"]
        w = x + mu * h
        need_gap(w, K)
        I = top(w, K)
        z = np.zeros_like(x)
        z[I] = ls(A, I, y) if fit and k > 1 else w[I]
        return z, list(I)
    return f


def call(mod, case, A, y):
    kw = {"max_iters": case["mi"], "res_norm_rtol": case["rtol"]}
    if mod in (htp, iht):
        kw["normalized"] = case["norm"]
        if case["step"] is not None and not case["norm"]:
            kw["step_size"] = case["step"]
    if case["kind"] == "op":
        f = mod.operator_solve_jit if case["jit"] else mod.operator_solve
        return f(lop.matrix(jnp.asarray(A)), jnp.asarray(y), case["K"], **kw)
    f = mod.matrix_solve_jit if case["jit"] else mod.matrix_solve
    return f(jnp.asarray(A), jnp.asarray(y), case["K"], **kw)


def run(mod, case, ref, lsfit, stable):
    A, y = problem(case)
    if case["norm"] and case["mi"] is None and mod is iht:
        case = dict(case, mi=8)
    if mod is cosamp and 3 * case["K"] > min(A.shape):
        case = dict(case, K=min(A.shape) // 3)
    if mod is sp and 2 * case["K"] > min(A.shape):
        case = dict(case, K=min(A.shape) // 2)
    case["algo_stable"] = stable(case)
    s = call(mod, case, A, y)
    return compare(case, s, A, y, ref, lsfit)


RULE = ("drawn dictionary (unit-norm or not; real, and complex for operators), sparse-plus-noise data of drawn scale, sparsity, iteration limit "
        "and tolerance; reference = the pursuit in numpy run for the reported number of iterations, with the stopping rules checked at every "
        "iterate; non-trivial = at least two iterations and no near-tie in a selection")


@sub("C15", "sp", gen(["mat", "op"], True), 60, RULE)
def t_sp(case):
    return run(sp, case, ref_sp, 2, lambda c: c["kind"] == "op")


@sub("C15", "cosamp", gen(["mat", "op"], True), 60, RULE)
def t_cosamp(case):
    return run(cosamp, case, ref_cosamp, 0, lambda c: c["kind"] == "op")


@sub("C15", "htp", gen(["mat", "op"], False), 60, RULE)
def t_htp(case):
    A, _ = problem(case)
    return run(htp, case, ref_hard(True, case, A), 1, lambda c: True)


@sub("C15", "iht", gen(["mat", "op"], False), 60, RULE)
def t_iht(case):
    A, _ = problem(case)
    return run(iht, case, ref_hard(False, case, A), 0, lambda c: False)


@st.composite
def gen_omp(draw):
    d = draw(gen(["mat", "op", "multi"], True))
    d["K"] = draw(st.sampled_from([1, 2, 3, 5]))
    return d


@sub("C15", "omp", gen_omp(), 70, "unit-norm dictionaries; as above, with the greedy choice checked atom by atom and the least squares fit on "
     "every prefix; matrix, jitted matrix, multi-vector and operator entry points; non-trivial = at least two atoms")
def t_omp(case):
    A, y = problem(case, True)
    K, ny = min(case["K"], A.shape[0] - 1), np.linalg.norm(y)
    if case["noise"] == 0:
        K = min(K, case["s"])     # past exact recovery the residual is rounding noise
    rng = np.random.RandomState(case["us"] + 1)
    if case["kind"] == "multi":
        Y = np.stack([y, rng.standard_normal(y.size), case["scale"] * rng.standard_normal(y.size)], 1)
        s = omp.matrix_solve_multi(jnp.asarray(A), jnp.asarray(Y), K)
        I, XI, R, RN = (np.asarray(v) for v in (s.I, s.x_I, s.r, s.r_norm_sqr))
        require(I.shape == (3, K) and R.shape == (3, y.size), "shapes of the multi-vector solution", I=I.shape, r=R.shape)
        todo = [(Y[:, j], I[j], XI[j], R[j], RN[j], K, 0) for j in range(3)]
        its = None
    elif case["kind"] == "mat":
        s = (omp.solve if case["jit"] else omp.matrix_solve)(jnp.asarray(A), jnp.asarray(y), K)
        consistent(case, s, A, y, K, K)
        require(int(s.iterations) == K, "iterations of omp")
        todo = [(y, np.asarray(s.I), np.asarray(s.x_I), np.asarray(s.r), s.r_norm_sqr, K, 0)]
    else:
        s = omp.operator_solve(lop.matrix(jnp.asarray(A)), jnp.asarray(y), K, res_norm_rtol=case["rtol"])
        it = int(s.iterations)
        consistent(case, s, A, y, K, it)
        todo = [(y, np.asarray(s.I), np.asarray(s.x_I), np.asarray(s.r), s.r_norm_sqr, it, case["rtol"])]
        if it < K:
            require(np.sqrt(float(s.r_norm_sqr)) <= case["rtol"] * ny * (1 + 1e-7), "stopped early for no reason", it=it)
    for (b, I, xI, r, rn, it, rtol) in todo:
        nb = np.linalg.norm(b)
        res = b
        for k in range(it):
            h = np.abs(A.conj().T @ res)
            require(h[I[k]] >= h.max() * (1 - 1e-6) - 1e-10 * nb, "a less correlated atom was selected", step=k, chosen=int(I[k]), best=int(h.argmax()))
            c = ls(A, I[:k + 1], b)
            res = b - A[:, I[:k + 1]] @ c
            if rtol and k + 1 < it:
                require(np.linalg.norm(res) > rtol * nb * (1 - 1e-7), "went on although the residual tolerance was met", k=k)
        same(xI, c, "coefficients are not the least squares fit on the support", rtol=1e-6, atol=1e-8 * nb)
        same(r, res, "residual", rtol=1e-6, atol=1e-8 * nb)
        same(float(np.real(rn)), np.linalg.norm(res) ** 2, "squared residual norm", rtol=1e-6, atol=1e-12 * nb ** 2)
    return it >= 2


@st.composite
def gen_mp(draw):
    d = draw(gen(["mat", "op"], False))
    d["mi"] = draw(st.sampled_from([1, 2, 4, 9, 30]))
    return d


@sub("C15", "mp", gen_mp(), 60, "unit-norm dictionaries; reference = matching pursuit in numpy with the stopping rule checked at every iterate; the "
     "tracker must see every state; non-trivial = at least two iterations")
def t_mp(case):
    A, y = problem(case, True)
    ny, rtol, mi = np.linalg.norm(y), case["rtol"], case["mi"]
    f = mp.solve if case["kind"] == "op" else mp.matrix_solve
    Phi = lop.matrix(jnp.asarray(A)) if case["kind"] == "op" else jnp.asarray(A)
    s = f(Phi, jnp.asarray(y), max_iters=mi, res_norm_rtol=rtol)
    x, it = np.asarray(s.x), int(s.iterations)
    finite(x, "coefficients")
    require(0 <= it <= mi, "iteration count", it=it)
    require(int(s.length) == A.shape[1], "length")
    I = np.asarray(s.I)
    require(sorted(I.tolist()) == np.nonzero(x)[0].tolist(), "support", I=I)
    same(np.asarray(s.x_I), x[I], "x_I")
    z, r = np.zeros(A.shape[1]), y
    for k in range(it):
        require(np.linalg.norm(r) > rtol * ny * (1 - 1e-7), "went on although the residual tolerance was met", k=k)
        h = A.T @ r
        if gap(h, 1) < 1e-7:
            return False
        i = np.abs(h).argmax()
        z[i] += h[i]
        r = r - h[i] * A[:, i]
    same(x, z, "representation", rtol=1e-7, atol=1e-8 * ny)
    same(np.asarray(s.r), y - A @ x, "reported residual is not y - Phi x", rtol=1e-8, atol=1e-9 * ny)
    same(float(s.r_norm_sqr), np.linalg.norm(r) ** 2, "reported squared residual norm", rtol=1e-6, atol=1e-14 * ny ** 2)
    if it < mi:
        require(np.linalg.norm(r) <= rtol * ny * (1 + 1e-7), "stopped early for no reason", it=it)
    return it >= 2


@st.composite
def gen_util(draw):
    from harness.g import arr
    n = draw(st.sampled_from([1, 2, 5, 9]))
    return {"h": draw(arr((n,), cplx=draw(st.booleans()))), "K": draw(st.integers(1, n)), "m": draw(st.integers(2, 7)), "us": draw(SEED)}


@sub("C15", "selection", gen_util(), 60, "abs_max_idx and largest_indices on vectors with ties and zeros, and growing a Cholesky factor of a Gram "
     "matrix atom by atom; reference = sorted magnitudes / the Gram matrix itself; non-trivial = more than one entry")
def t_util(case):
    from harness.g import mk
    import cr.sparse.pursuit as pursuit
    h, K = mk(case["h"]), case["K"]
    a = np.sort(np.abs(h))[::-1]
    require(np.abs(h[int(pursuit.abs_max_idx(jnp.asarray(h)))]) == a[0], "abs_max_idx")
    I = np.asarray(pursuit.largest_indices(jnp.asarray(h), K))
    require(I.shape == (K,) and np.unique(I).size == K, "largest_indices: not K distinct indices", I=I)
    same(np.abs(h[I]), a[:K], "largest_indices: not the K largest in descending order")
    m = case["m"]
    rng = np.random.RandomState(case["us"])
    A = rng.standard_normal((m + 1, m)) + (1j * rng.standard_normal((m + 1, m)) if case["us"] % 2 else 0)
    A = A / np.linalg.norm(A, axis=0)
    L = jnp.ones((1, 1))
    for k in range(1, m):
        L = pursuit.gram_chol_update(L, jnp.asarray(A[:, :k].conj().T @ A[:, k]))
        Ln = np.asarray(L)
        same(Ln @ Ln.conj().T, A[:, :k + 1].conj().T @ A[:, :k + 1], "updated Cholesky factor", rtol=1e-6, atol=1e-8)
        same(Ln, np.tril(Ln), "factor not lower triangular")
    return h.size > 1
