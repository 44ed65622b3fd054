"""C07: norm / eigenvalue / singular value estimation."""
import numpy as np
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import cr.nimble as cnb
import cr.sparse.lop as lop
import cr.sparse.sls as sls
import cr.sparse.sls.svd as crsvd

from harness.core import sub, require
from harness.g import same, SEED
from harness import ops


def spectral(rng, m, n, s, cx):
    def q(k):
        a = rng.standard_normal((k, k))
        if cx:
            a = a + 1j * rng.standard_normal((k, k))
        return np.linalg.qr(a)[0]
    r = min(m, n)
    U, V = q(m)[:, :r], q(n)[:, :r]
    return (U * s) @ V.conj().T


@st.composite
def gen_sv(draw):
    m, n = draw(st.integers(1, 20)), draw(st.integers(1, 20))
    return {"m": m, "n": n, "scale": draw(st.sampled_from([1e-3, 0.1, 1.0, 7.0, 300.0])), "us": draw(SEED),
            "gap": draw(st.sampled_from([0.0, 0.3, 0.6])), "cx": draw(st.booleans()), "jit": draw(st.booleans()),
            "scaled": draw(st.booleans())}


def singular(case, rng):
    r = min(case["m"], case["n"])
    s = np.concatenate(([1.0], case["gap"] * rng.random_sample(r - 1))) * case["scale"]
    return s


@sub("C07", "normest_gap", gen_sv(), 110, "matrices with prescribed singular values (second at most 0.6 of the first), "
     "real and complex, any scale; normest must be within 1e-4 of the operator norm; non-trivial = rank > 1")
def normest_gap(case):
    rng = np.random.RandomState(case["us"])
    s = singular(case, rng)
    A = spectral(rng, case["m"], case["n"], s, case["cx"])
    T = lop.matrix(jnp.asarray(A))
    est = float((lop.normest_jit if case["jit"] else lop.normest)(T))
    require(abs(est - s[0]) <= 1e-4 * s[0], "normest is not the operator norm", got=est, want=s[0])
    require(est <= s[0] * (1 + 1e-9), "normest exceeds the operator norm", got=est, want=s[0])
    ub = float(lop.upper_frame_bound(T))
    require(abs(ub - s[0]) <= 1e-9 * s[0], "upper_frame_bound", got=ub, want=s[0])
    # homogeneity: ||c T|| = |c| ||T||
    if case["scaled"]:
        c = -2.5
        e2 = float(lop.normest(lop.scale(T, c)))
        require(abs(e2 - 2.5 * est) <= 1e-6 * e2, "normest(cT) != |c| normest(T)", got=e2, want=2.5 * est)
    return min(case["m"], case["n"]) > 1 and case["gap"] > 0


NE = ["real_matrix", "matrix", "diagonal", "convolve", "convolve2D", "fir_filter", "heaviside", "running_average", "fourier_basis",
      "dirac_fourier_basis", "walsh_hadamard_basis", "fft", "tv", "first_derivative", "second_derivative", "restriction",
      "pad_zeros", "symmetrize", "identity", "dwt", "cosine_basis", "circulant", "sum", "reshape", "convolveND"]


@st.composite
def gen_any(draw):
    return {"op": draw(ops.any_op(NE))}


@sub("C07", "normest_any", gen_any(), 110, "any operator of the catalogue: the estimate never exceeds the norm and is at "
     "least 85% of it (power iteration from a random start); non-trivial = non-zero operator with n > 1")
def normest_any(case):
    r = ops.build(case["op"])
    if not np.any(r.M != 0):
        return False
    s = np.linalg.svd(r.M, compute_uv=False)[0]
    est = float(lop.normest(r.op))
    require(np.isfinite(est) and est <= s * (1 + 1e-9), "normest exceeds the operator norm", got=est, want=s)
    require(est >= 0.85 * s, "normest far below the operator norm", got=est, want=s)
    if isinstance(r.op.shape[1], int):
        require(abs(float(lop.upper_frame_bound(r.op)) - s) <= 1e-8 * s, "upper_frame_bound of an operator",
                got=float(lop.upper_frame_bound(r.op)), want=s)
    return r.M.shape[1] > 1


# ------------------------------------------------------------ power iterations
@st.composite
def gen_pi(draw):
    return {"n": draw(st.integers(1, 16)), "us": draw(SEED), "gap": draw(st.sampled_from([0.0, 0.3, 0.6])),
            "scale": draw(st.sampled_from([1e-3, 1.0, 50.0])), "neg": draw(st.booleans()),
            "max": draw(st.sampled_from([1, 5, 100, 100, 100, 300])), "tol": draw(st.sampled_from([1e-6, 1e-6, 1e-9])),
            "jit": draw(st.booleans()), "nd": draw(st.booleans())}


@sub("C07", "power_iterations", gen_pi(), 110, "symmetric operators with a dominant eigenvalue of either sign: unit norm "
     "vector, Rayleigh quotient inside the spectrum, converged value within 1e-3 (gap 0.6) of the dominant eigenvalue, "
     "iteration limit respected; non-trivial = n > 1 and enough iterations")
def power(case):
    n = case["n"]
    rng = np.random.RandomState(case["us"])
    Q = np.linalg.qr(rng.standard_normal((n, n)))[0]
    lam = np.concatenate(([1.0], case["gap"] * rng.uniform(-1, 1, n - 1))) * case["scale"] * (-1 if case["neg"] else 1)
    A = (Q * lam) @ Q.conj().T
    A = (A + A.conj().T) / 2
    b = rng.standard_normal(n)
    if abs(np.vdot(Q[:, 0], b)) < 1e-3 * np.linalg.norm(b):
        return False
    T = lop.matrix(jnp.asarray(A))
    if case["nd"] and n % 2 == 0:
        sh = (2, n // 2)
        R = lop.reshape(sh, (n,))
        T = lop.compose(lop.reshape((n,), sh), lop.compose(T, R, ignore_compatibility=True), ignore_compatibility=True)
        b = b.reshape(sh)
    f = sls.power_iterations_jit if case["jit"] else sls.power_iterations
    r = f(T, jnp.asarray(b), case["max"], case["tol"])
    v, s = np.asarray(r.v), float(r.s)
    require(v.shape == b.shape, "eigen vector shape", got=v.shape)
    v = v.ravel()
    require(abs(np.linalg.norm(v) - 1) <= 1e-9, "eigen vector is not normalized", got=np.linalg.norm(v))
    require(0 <= int(r.iterations) <= case["max"], "iteration limit exceeded", got=int(r.iterations))
    require(lam.min() - 1e-9 * abs(lam).max() <= s <= lam.max() + 1e-9 * abs(lam).max(), "estimate outside the spectrum", got=s)
    if case["max"] >= 100:
        t = 2e-3
        require(abs(s - lam[0]) <= t * abs(lam[0]), "dominant eigenvalue", got=s, want=lam[0])
        require(np.linalg.norm(A @ v - lam[0] * v) <= 5e-2 * abs(lam[0]), "not an eigen vector")
        if int(r.iterations) < case["max"] and case["tol"] <= 1e-9:
            require(abs(s - lam[0]) <= 1e-6 * abs(lam[0]), "dominant eigenvalue at a tight tolerance", got=s, want=lam[0])
        return n > 1
    return False


# ------------------------------------------------------------ Lanczos
@st.composite
def gen_lan(draw):
    m, n = draw(st.integers(2, 40)), draw(st.integers(2, 40))
    return {"m": m, "n": n, "k": draw(st.integers(1, min(m, n))), "us": draw(SEED), "decay": draw(st.sampled_from([1.0, 0.9])),
            "scale": draw(st.sampled_from([0.01, 1.0, 100.0])), "jit": draw(st.booleans())}


@sub("C07", "lanbpro", gen_lan(), 11, "k Lanczos bidiagonalization steps on full rank matrices: U, V orthonormal, "
     "A V = U B + p e_k^T, A^T U = V B^T; non-trivial = k > 2")
def lanbpro(case):
    m, n, k = case["m"], case["n"], case["k"]
    rng = np.random.RandomState(case["us"])
    A = rng.standard_normal((m, n)) * case["decay"] ** np.arange(n) * case["scale"]
    T = lop.matrix(jnp.asarray(A))
    p0 = jnp.asarray(rng.uniform(size=m) - 0.5)
    s = (crsvd.lanbpro_jit if case["jit"] else crsvd.lanbpro)(T, k, p0)
    U, V, a, b = (np.asarray(z) for z in (s.U, s.V, s.alpha, s.beta))
    nr = np.linalg.norm(A, 2)
    same(U.T @ U, np.eye(k), "left Lanczos vectors not orthonormal", rtol=0, atol=1e-7)
    same(V.T @ V, np.eye(k), "right Lanczos vectors not orthonormal", rtol=0, atol=1e-7)
    B = np.diag(a) + np.diag(b[1:k], -1)
    require(np.abs(A.T @ U - V @ B.T).max() <= 1e-7 * nr, "A^T U != V B^T", got=np.abs(A.T @ U - V @ B.T).max())
    R = A @ V - U @ B
    require(np.abs(R[:, :-1]).max(initial=0) <= 1e-7 * nr, "A V != U B", got=np.abs(R[:, :-1]).max(initial=0))
    if k < min(m, n):
        require(np.abs(R[:, -1] - np.asarray(s.p)).max() <= 1e-7 * nr, "A V - U B != p e_k^T")
    require(int(s.iterations) == k, "number of steps", got=int(s.iterations))
    return k > 2


@sub("C07", "lansvd", gen_lan(), 11, "k largest singular values by Lanczos: never above the true ones, exact when the "
     "Krylov space is full, V orthonormal; non-trivial = k > 1")
def lansvd(case):
    m, n = case["m"], case["n"]
    rng = np.random.RandomState(case["us"])
    r = min(m, n)
    k = min(case["k"], 12)
    A = rng.standard_normal((m, n)) * case["decay"] ** np.arange(n) * case["scale"]
    T = lop.matrix(jnp.asarray(A))
    p0 = jnp.asarray(rng.uniform(size=m) - 0.5)
    U, S, V, bnd, nconv, state = (crsvd.lansvd_simple_jit if case["jit"] else crsvd.lansvd_simple)(T, k, p0)
    U, S, V = np.asarray(U), np.asarray(S), np.asarray(V)
    sv = np.linalg.svd(A, compute_uv=False)
    require(S.shape == (k,) and U.shape == (m, k) and V.shape == (n, k), "lansvd: shapes", got=(U.shape, S.shape, V.shape))
    require(np.all(np.diff(S) <= 1e-9 * sv[0]), "singular values not sorted")
    require(np.all(S <= sv[:k] + 1e-8 * sv[0]), "Ritz values above the singular values", got=S.tolist(), want=sv[:k].tolist())
    require(S[0] >= 0.7 * sv[0], "largest singular value far off", got=S[0], want=sv[0])
    same(V.T @ V, np.eye(k), "right singular vectors not orthonormal", rtol=0, atol=1e-7)
    j = min(k + max(8, k), min(r, max(20, 4 * k)))
    if j == r:
        same(S, sv[:k], "singular values", rtol=1e-8, atol=1e-8 * sv[0])
        require(np.abs(A.T @ (A @ V) - V * S ** 2).max() <= 1e-6 * sv[0] ** 2, "not right singular vectors")
        if m <= n:
            require(np.abs(A @ V - U * S).max() <= 1e-6 * sv[0], "A V != U S")
            same(U.T @ U, np.eye(k), "left singular vectors not orthonormal", rtol=0, atol=1e-6)
    return k > 1 and j == r
