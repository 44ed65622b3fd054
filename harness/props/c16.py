"""C16: pursuits recover the true sparse vector whenever theory guarantees it."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import hadamard
import jax.numpy as jnp
from cr.sparse import lop
import cr.sparse.pursuit.mp as mp
import cr.sparse.pursuit.omp as omp
import cr.sparse.pursuit.sp as sp
import cr.sparse.pursuit.cosamp as cosamp
import cr.sparse.pursuit.htp as htp
import cr.sparse.pursuit.iht as iht

from harness.core import sub, require
from harness.g import same, finite, SEED

# largest restricted isometry constant (of order c K) the guarantee tolerates
#          coherence condition (2K-1) mu < 1 for the first two
NEED = {"sp": (3, 0.45), "cosamp": (4, 0.45), "htp": (3, 0.35), "iht": (3, 0.35)}
TWO = [(16, "dh"), (64, "dh"), (256, "dh"), (64, "df")]
TALL = [(6, 4), (12, 12), (24, 20), (40, 32)]


@st.composite
def gen(draw, algo, cplx):
    kind = draw(st.sampled_from(["tall", "tall", "two"]))
    d = {"algo": algo, "kind": kind, "us": draw(SEED), "entry": draw(st.sampled_from(["mat", "op"])), "range": draw(st.sampled_from([0, 1, 2])),
         "K": draw(st.sampled_from([1, 2, 3, 4, 6])), "scale": draw(st.sampled_from([1.0, 1e3, 1e-3])), "jit": draw(st.booleans()),
         "sub": draw(st.booleans())}
    if kind == "tall":
        d["mn"] = list(draw(st.sampled_from(TALL)))
        d["c"] = cplx and d["entry"] == "op" and draw(st.booleans())
    else:
        d["mn"] = list(draw(st.sampled_from(TWO if cplx else TWO[:3])))
        d["c"] = d["mn"][1] == "df"
        if d["c"]:
            d["entry"] = "op"
    return d


def build(case):
    rng = np.random.RandomState(case["us"])
    c = case["c"]

    def g(*s):
        return rng.standard_normal(s) + (1j * rng.standard_normal(s) if c else 0)
    if case["kind"] == "tall":
        m, n = case["mn"]
        U = np.linalg.qr(g(m, n))[0]
        V = np.linalg.qr(g(n, n))[0]
        A = U @ np.diag(rng.uniform(0.97, 1.03, n)) @ V.conj().T
    else:
        m = case["mn"][0]
        B = np.fft.fft(np.eye(m)) / np.sqrt(m) if c else hadamard(m) / np.sqrt(m)
        A = np.concatenate([np.eye(m), B], 1)[:, rng.permutation(2 * m)]
        if case["sub"]:
            A = A[:, :m + m // 2]
    A = A / np.linalg.norm(A, axis=0)
    n = A.shape[1]
    G = np.abs(A.conj().T @ A)
    np.fill_diagonal(G, 0)
    mu = G.max()
    rip = max(np.abs(np.linalg.svd(A, compute_uv=False) ** 2 - 1).max(), 0) if case["kind"] == "tall" else np.inf
    K = min(case["K"], n, m)
    algo = case["algo"]
    while K > 0:
        if algo in ("omp", "mp"):
            ok = (2 * K - 1) * mu < 0.999
        else:
            q, lim = NEED[algo]
            ok = min(rip, (min(q * K, n) - 1) * mu) < lim and {"sp": 2, "cosamp": 3}.get(algo, 1) * K <= min(m, n)
        if ok:
            break
        K -= 1
    x = np.zeros(n, complex if c else float)
    if K > 0:
        I = rng.permutation(n)[:K]
        x[I] = (1 + rng.random_sample(K)) * 10.0 ** (-case["range"] * rng.random_sample(K)) * \
            (np.exp(2j * np.pi * rng.random_sample(K)) if c else rng.choice([-1, 1], K)) * case["scale"]
    return A, x, K


def run(case):
    A, x, K = build(case)
    if K == 0:
        return False
    y = A @ x
    m = y.size
    J = jnp.asarray
    algo = case["algo"]
    Phi = lop.matrix(J(A)) if case["entry"] == "op" else J(A)
    op = case["entry"] == "op"
    if algo == "omp":
        if op:
            s = omp.operator_solve(Phi, J(y), K, res_norm_rtol=1e-10)
        else:
            s = (omp.solve if case["jit"] else omp.matrix_solve)(Phi, J(y), K)
    elif algo == "mp":
        s = (mp.solve if op else mp.matrix_solve)(Phi, J(y), max_iters=1500, res_norm_rtol=1e-9)
    else:
        mod = {"sp": sp, "cosamp": cosamp, "htp": htp, "iht": iht}[algo]
        kw = {"max_iters": 500, "res_norm_rtol": 1e-9}
        if op:
            s = (mod.operator_solve_jit if case["jit"] else mod.operator_solve)(Phi, J(y), K, **kw)
        else:
            s = (mod.matrix_solve_jit if case["jit"] else mod.matrix_solve)(Phi, J(y), K, **kw)
    z = np.asarray(s.x)
    finite(z, "solution")
    nx = np.abs(x).max()
    same(z, x, "the sparse vector was not recovered", rtol=1e-5, atol=1e-7 * nx)
    require(np.linalg.norm(y - A @ z) <= 1e-6 * np.linalg.norm(y), "residual", r=np.linalg.norm(y - A @ z))
    big = np.nonzero(np.abs(z) > 1e-4 * np.abs(x[x != 0]).min())[0]
    require(big.tolist() == np.nonzero(x)[0].tolist(), "support of the solution", got=big, expected=np.nonzero(x)[0])
    return K >= 2


R = ("y = Phi x with x exactly K-sparse of drawn support, signs/phases, dynamic range and scale; Phi unit-norm and near-orthonormal, or a two-basis "
     "dictionary (Dirac with Hadamard or Fourier); K reduced until the published recovery condition (%s) holds for this Phi; oracle = x itself; "
     "non-trivial = K >= 2")


@sub("C16", "omp", gen("omp", True), 60, R % "(2K-1) mu < 1")
def t_omp(case):
    return run(case)


@sub("C16", "mp", gen("mp", False), 40, R % "(2K-1) mu < 1")
def t_mp(case):
    return run(case)


@sub("C16", "sp", gen("sp", True), 50, R % "delta_3K < 0.45")
def t_sp(case):
    return run(case)


@sub("C16", "cosamp", gen("cosamp", True), 50, R % "delta_4K < 0.45")
def t_cosamp(case):
    return run(case)


@sub("C16", "htp", gen("htp", False), 50, R % "delta_3K < 0.35")
def t_htp(case):
    return run(case)


@sub("C16", "iht", gen("iht", False), 50, R % "delta_3K < 0.35")
def t_iht(case):
    return run(case)
