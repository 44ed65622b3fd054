"""C25: synthetic data generators."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
import jax
import jax.numpy as jnp
import cr.sparse.data as crdata

from harness.core import Fail, sub, require
from harness.g import arr, mk, same, finite, SEED

J = jnp.asarray


def key(us):
    return jax.random.PRNGKey(us)


def make(case, us=None):
    k = key(case["us"] if us is None else us)
    D, K, S = case["D"], case["K"], case["S"]
    if case["fn"] == "normal":
        return crdata.sparse_normal_representations(k, D, K, S)
    if case["fn"] == "biuniform":
        return crdata.sparse_biuniform_representations(k, case["a"], case["b"], D, K, S)
    return crdata.sparse_spikes(k, D, K, S)


@st.composite
def gen_sparse(draw):
    D = draw(st.integers(2, 60))
    a = draw(st.sampled_from([0.1, 1.0, 3.0]))
    return {"fn": draw(st.sampled_from(["normal", "biuniform", "spikes"])), "D": D, "K": draw(st.one_of(st.integers(1, D), st.just(D), st.just(1))),
            "S": draw(st.integers(1, 5)), "us": draw(SEED), "a": a, "b": a + draw(st.sampled_from([0.0, 0.5, 4.0]))}


@sub("C25", "sparse", gen_sparse(), 200, "drawn generator, D, K, S, key: the support is K sorted distinct indices shared by all vectors, entries are zero elsewhere and within the promised set on it, S = 1 gives a "
     "plain vector, same key same data, other key other data; non-trivial = K < D and S > 1")
def t_sparse(case):
    X, om = make(case)
    D, K, S = case["D"], case["K"], case["S"]
    X, om = np.asarray(X), np.asarray(om)
    require(X.shape == ((D,) if S == 1 else (D, S)), "shape of the representations", got=X.shape)
    require(om.shape == (K,), "shape of the support", got=om.shape)
    require(bool(np.all(np.diff(om) > 0)) and om.min() >= 0 and om.max() < D, "support is sorted, distinct and in range", om=om)
    M = X.reshape(D, S)
    off = np.setdiff1d(np.arange(D), om)
    require(not np.any(M[off]), "zero off the support")
    V = M[om]
    finite(V, "values")
    require(bool(np.all(V != 0)), "K-sparse vectors", V=V)
    if case["fn"] == "spikes":
        require(bool(np.all(np.abs(V) == 1)), "spikes are +-1", V=V)
    if case["fn"] == "biuniform":
        m = np.abs(V)
        require(m.min() >= case["a"] * (1 - 1e-6) and m.max() <= case["b"] * (1 + 1e-6), "magnitudes within [a, b]", lo=m.min(), hi=m.max())
    X2, om2 = make(case)
    require(np.array_equal(np.asarray(X2), X) and np.array_equal(np.asarray(om2), om), "same key, same data")
    vary = case["fn"] == "normal" or (case["fn"] == "biuniform" and case["b"] > case["a"])
    X3, om3 = make(case, case["us"] + 1)
    if vary or (case["fn"] == "spikes" and K * S > 40):
        require(not np.array_equal(np.asarray(X3), X), "another key, other data")
        for i in range(S):
            for j in range(i):
                require(not vary or not np.array_equal(M[:, i], M[:, j]), "vectors of a set differ", i=i, j=j)
    return K < D and S > 1


def zcheck(sample_mean, mean, sd, n, what):
    require(abs(sample_mean - mean) <= 6.5 * sd / np.sqrt(n), f"{what}: sample mean {sample_mean} expected {mean}", n=n)


@sub("C25", "dist", st.fixed_dictionaries({"fn": st.sampled_from(["normal", "biuniform", "spikes"]), "us": SEED, "a": st.sampled_from([0.5, 2.0]), "w": st.sampled_from([1.0, 5.0])}), 40,
     "large samples (D = 1000, K = 300, S = 3): values follow the promised law (Kolmogorov-Smirnov p > 1e-9), both signs equally likely, the support is spread uniformly over the D positions; non-trivial = all")
def t_dist(case):
    c = dict(case, D=1000, K=300, S=3, b=case["a"] + case["w"])
    X, om = make(c)
    om = np.asarray(om)
    V = np.asarray(X)[om].ravel()
    n = V.size
    if c["fn"] == "normal":
        p = stats.kstest(V, "norm").pvalue
        require(p > 1e-9, "values are standard normal", p=p)
    if c["fn"] == "biuniform":
        p = stats.kstest((np.abs(V) - c["a"]) / (c["b"] - c["a"]), "uniform").pvalue
        require(p > 1e-9, "magnitudes are uniform", p=p)
    zcheck(np.mean(np.sign(V)), 0, 1, n, "sign")
    for j in range(3):
        zcheck(np.mean(np.sign(np.asarray(X)[om][:, j])), 0, 1, 300, f"sign in vector {j}")
    p = stats.kstest((om + 0.5) / 1000, "uniform").pvalue
    require(p > 1e-9, "support is spread uniformly", p=p)
    # consecutive positions are not favoured: gaps of a random 30 % subset
    frac = np.mean(np.diff(om) == 1)
    require(abs(frac - 0.3) < 0.2, "support positions are not contiguous runs", frac=frac)
    a, b = np.asarray(X)[om][:, 0], np.asarray(X)[om][:, 1]
    require(abs(np.corrcoef(a, b)[0, 1]) < 0.4, "vectors are uncorrelated")
    if c["fn"] != "spikes":
        require(abs(np.corrcoef(np.sign(V), np.abs(V))[0, 1]) < 0.25, "sign and magnitude are independent", got=np.corrcoef(np.sign(V), np.abs(V))[0, 1])
    require(abs(np.corrcoef(om, a)[0, 1]) < 0.4 and abs(np.corrcoef(om, np.abs(a) + 1e-9 * om)[0, 1]) < (0.4 if c["fn"] != "spikes" else 2), "values do not depend on the position")
    return True


@st.composite
def gen_uni(draw):
    D = draw(st.sampled_from([3, 7, 12, 20]))
    return {"fn": draw(st.sampled_from(["normal", "biuniform", "spikes", "blocks", "index_sets"])), "D": D, "K": draw(st.sampled_from([1, 2, max(1, D // 2), D - 1])), "us": draw(SEED)}


@sub("C25", "uniform", gen_uni(), 24, "400 keys at once: every position (block, index) is chosen equally often within 6.5 standard deviations, and every pair of neighbours too; non-trivial = K > 1")
def t_uni(case):
    D, K, fn = case["D"], case["K"], case["fn"]
    n = 400
    keys = jax.random.split(key(case["us"]), n)
    if fn == "index_sets":
        om = np.asarray(crdata.index_sets(keys[0], D, K, n))
    else:
        g = {"normal": lambda k: crdata.sparse_normal_representations(k, D, K, 1)[1], "biuniform": lambda k: crdata.sparse_biuniform_representations(k, 1., 2., D, K, 1)[1],
             "spikes": lambda k: crdata.sparse_spikes(k, D, K, 1)[1], "blocks": lambda k: crdata.sparse_normal_blocks(k, 2 * D, K, 2)[1]}[fn]
        om = np.asarray(jax.vmap(g)(keys))
    require(om.shape == (n, K), "shape", got=om.shape)
    H = np.zeros((n, D))
    H[np.arange(n)[:, None], om] = 1
    p = K / D
    c = H.sum(axis=0)
    require(np.all(np.abs(c - n * p) <= 6.5 * np.sqrt(n * p * (1 - p)) + 1e-9), "every position is chosen equally often", counts=c, want=n * p)
    q = p * (K - 1) / (D - 1)
    c = (H[:, 1:] * H[:, :-1]).sum(axis=0)
    require(np.all(np.abs(c - n * q) <= 6.5 * np.sqrt(n * q * (1 - q)) + 1), "neighbours are chosen together as often as other pairs", counts=c, want=n * q)
    return K > 1


@st.composite
def gen_idx(draw):
    N = draw(st.integers(1, 40))
    return {"N": N, "K": draw(st.integers(1, N)), "S": draw(st.integers(1, 6)), "ax": draw(st.sampled_from([0, 1])), "us": draw(SEED)}


@sub("C25", "index_sets", gen_idx(), 120, "drawn N, K, S, axis: every set has K distinct indices in range along the requested axis; sets differ between signals when collisions are improbable; non-trivial = S > 1, K < N")
def t_idx(case):
    N, K, S = case["N"], case["K"], case["S"]
    I = np.asarray(crdata.index_sets(key(case["us"]), N, K, S, case["ax"]))
    require(I.shape == ((S, K) if case["ax"] == 0 else (K, S)), "shape", got=I.shape)
    if case["ax"] == 1:
        I = I.T
    if case["ax"] == 0:
        same(np.asarray(crdata.index_sets(key(case["us"]), N, K, S)), I, "default axis")
    for r in I:
        require(len(set(r.tolist())) == K and r.min() >= 0 and r.max() < N, "K distinct indices in range", r=r)
    from math import comb
    if comb(N, K) > 10**6:
        require(len({tuple(sorted(r.tolist())) for r in I}) == S, "index sets differ between signals")
    return S > 1 and K < N


@st.composite
def gen_orth(draw):
    n = draw(st.integers(2, 12))
    return {"x": draw(arr((n,), nonzero=True)), "S": draw(st.integers(1, 15)), "us": draw(SEED), "c": draw(st.sampled_from([-2.0, 1e-3, 1e4]))}


@sub("C25", "orthogonal", gen_orth(), 120, "drawn x: S points orthogonal to x, spanning the complement, unchanged when x is rescaled; non-trivial = S > 1")
def t_orth(case):
    x, S = mk(case["x"]), case["S"]
    P = np.asarray(crdata.points_orthogonal_to(key(case["us"]), J(x), S))
    require(P.shape == (S, x.size), "shape", got=P.shape)
    finite(P, "points")
    u = x / np.linalg.norm(x)
    require(bool(np.all(np.abs(P @ u) <= 1e-12 * (1 + np.linalg.norm(P, axis=1)))), "orthogonal to x", dots=P @ u)
    require(np.linalg.matrix_rank(P, tol=1e-9) == min(S, x.size - 1), "points span the orthogonal complement")
    P2 = np.asarray(crdata.points_orthogonal_to(key(case["us"]), J(case["c"] * x), S))
    same(P2, P, "only the direction of x matters", rtol=1e-9)
    return S > 1


@st.composite
def gen_blk(draw):
    B, C = draw(st.integers(1, 8)), draw(st.integers(1, 10))
    return {"B": B, "C": C, "K": draw(st.integers(1, C)), "S": draw(st.integers(1, 4)), "us": draw(SEED),
            "cor": draw(st.sampled_from([0.0, 0.0, 0.5, 0.95, -0.8, 1.0])), "nz": draw(st.booleans()), "bad": draw(st.integers(0, 5))}


@sub("C25", "blocks", gen_blk(), 160, "drawn block structure, correlation, normalisation: K sorted distinct active blocks, indices and non-zeros exactly on them, unit-norm blocks when asked, the AR-1 recursion with innovations of "
     "the uncorrelated draw of the same key; a length that is no multiple of B is refused; non-trivial = K < C")
def t_blk(case):
    B, C, K, S = case["B"], case["C"], case["K"], case["S"]
    D = B * C
    k = key(case["us"])
    x, bl, idx = [np.asarray(v) for v in crdata.sparse_normal_blocks(k, D, K, B, S, cor=case["cor"], normalize_blocks=case["nz"])]
    if D > 1:
        require(x.shape == ((D,) if S == 1 else (D, S)), "shape", got=x.shape)
    X = x.reshape(D, S)
    require(bl.shape == (K,) and bool(np.all(np.diff(bl) > 0)) and bl.min() >= 0 and bl.max() < C, "active blocks sorted, distinct, in range", bl=bl)
    same(idx, np.concatenate([np.arange(b * B, (b + 1) * B) for b in bl]), "indices of the non-zeros")
    require(not np.any(X[np.setdiff1d(np.arange(D), idx)]), "zero off the active blocks")
    require(bool(np.all(X[idx] != 0)), "active blocks are non-zero")
    V = X[idx].reshape(K, B, S)
    x0, bl0, idx0 = crdata.sparse_normal_blocks(k, D, K, B, S)
    require(np.array_equal(np.asarray(bl0), bl), "the blocks do not depend on the correlation")
    W = np.asarray(x0).reshape(D, S)[idx].reshape(K, B, S).copy()
    c = case["cor"]
    for i in range(1, B):
        W[:, i, :] = c * W[:, i - 1, :] + np.sqrt(1 - c * c) * W[:, i, :]
    if case["nz"]:
        require(bool(np.all(np.abs(np.linalg.norm(V, axis=1) - 1) < 1e-9)), "unit norm blocks", n=np.linalg.norm(V, axis=1))
        W = W / np.linalg.norm(W, axis=1, keepdims=True)
    same(V, W, "AR-1 coefficients inside the blocks", rtol=1e-9)
    if B > 1 and case["bad"] % B:
        try:
            crdata.sparse_normal_blocks(k, D + case["bad"] % B, K, B, S)
        except ValueError:
            pass
        else:
            raise Fail("a length that is not a multiple of the block length was accepted")
    return K < C


@sub("C25", "blocks_dist", st.fixed_dictionaries({"us": SEED, "cor": st.sampled_from([0.0, 0.3, 0.9, -0.7]), "B": st.sampled_from([2, 5, 8])}), 30,
     "300 blocks per draw: every position has unit variance and lag-1 / lag-2 correlations cor, cor^2 (within 0.25); non-trivial = cor != 0")
def t_blkdist(case):
    B, c = case["B"], case["cor"]
    x, bl, idx = crdata.sparse_normal_blocks(key(case["us"]), 200 * B, 100, B, 3, cor=c)
    V = np.asarray(x)[np.asarray(idx)].reshape(100, B, 3).transpose(0, 2, 1).reshape(300, B)
    for i in range(B):
        require(abs(np.mean(V[:, i] ** 2) - 1) < 6.5 * np.sqrt(2 / 300), "unit variance at every position", i=i, var=np.mean(V[:, i] ** 2))
    for lag in (1, 2):
        for i in range(B - lag):
            r = np.corrcoef(V[:, i], V[:, i + lag])[0, 1]
            require(abs(r - c ** lag) < 0.35, "AR-1 correlation", lag=lag, i=i, r=r)
    p = stats.kstest((np.asarray(bl) + 0.5) / 200, "uniform").pvalue
    require(p > 1e-9, "active blocks spread uniformly", p=p)
    return c != 0


@st.composite
def gen_sub(draw):
    N = draw(st.integers(2, 10))
    return {"N": N, "D": draw(st.integers(1, N)), "K": draw(st.sampled_from([1, 2, 3, 4, 2, 3, 4, 11])), "n": draw(st.one_of(st.integers(1, 7), st.just(20))), "us": draw(SEED), "jit": draw(st.booleans()), "mix": draw(st.booleans())}


@sub("C25", "subspaces", gen_sub(), 25, "drawn ambient and subspace dimensions: orthonormal bases of distinct subspaces; points have unit norm, lie in the subspace of their group (in order), also for bases of different "
     "dimensions; jitted and plain versions agree; non-trivial = K > 1 and D < N")
def t_sub(case):
    N, D, K, n = case["N"], case["D"], case["K"], case["n"]
    k = key(case["us"])
    bases = crdata.random_subspaces(k, N, D, K)
    require(len(bases) == K, "number of subspaces")
    if case["jit"]:
        for a, b in zip(bases, crdata.random_subspaces_jit(k, N, D, K)):
            same(b, a, "jit version")
    for Q in bases:
        Q = np.asarray(Q)
        same(Q.T @ Q, np.eye(D), "orthonormal basis", atol=1e-10)
        require(Q.shape == (N, D), "shape")
    if D < N:
        for i in range(K):
            for j in range(i):
                A, B = np.asarray(bases[i]), np.asarray(bases[j])
                require(np.linalg.norm(A @ A.T - B @ B.T) > 1e-6, "the subspaces differ", i=i, j=j)
    if case["mix"]:
        bases = [b[:, :max(1, D - i)] for i, b in enumerate(bases)]
    X = np.asarray(crdata.uniform_points_on_subspaces(jax.random.PRNGKey(case["us"] + 5), bases, n))
    require(X.shape == (N, K * n), "shape of the points", got=X.shape)
    same(np.linalg.norm(X, axis=0), np.ones(K * n), "unit norm points")
    for i, Q in enumerate(bases):
        Q, P = np.asarray(Q), X[:, i * n:(i + 1) * n]
        same(Q @ (Q.T @ P), P, "points lie in their subspace", atol=1e-10)
        if Q.shape[1] > 1:
            require(np.linalg.matrix_rank(P, tol=1e-9) == min(n, Q.shape[1]), "points are spread over the subspace")
            for j in range(i):
                Q2 = np.asarray(bases[j])
                if Q2.shape == Q.shape:
                    require(np.abs(np.abs(Q.T @ P) - np.abs(Q2.T @ X[:, j * n:(j + 1) * n])).max() > 1e-6, "subspaces get points of their own", i=i, j=j)
    if case["jit"]:
        same(crdata.uniform_points_on_subspaces_jit(jax.random.PRNGKey(case["us"] + 5), bases, n), X, "jit version of the points")
    return K > 1 and D < N


@sub("C25", "sub_dist", st.fixed_dictionaries({"N": st.sampled_from([2, 3, 5]), "D": st.integers(1, 3), "us": SEED}), 16, "400 random subspaces: mean projector D/N I, columns of random sign; 500 points on a "
     "subspace: mean zero and second moment I/D of their coefficients (all within 6.5 standard deviations); non-trivial = D > 1")
def t_subdist(case):
    N, D = case["N"], min(case["D"], case["N"] - 1)
    n = 400
    Q = np.asarray(jax.vmap(lambda k: crdata.random_subspaces(k, N, D, 1)[0])(jax.random.split(key(case["us"]), n)))
    t = 6.5 / np.sqrt(n)
    require(np.abs(np.mean(Q @ Q.transpose(0, 2, 1), axis=0) - D / N * np.eye(N)).max() <= t * 0.6, "subspaces have no preferred direction", got=np.mean(Q @ Q.transpose(0, 2, 1), axis=0))
    require(np.abs(Q.mean(axis=0)).max() <= t / np.sqrt(N) * 1.2, "basis vectors have no preferred sign", got=Q.mean(axis=0))
    B = [J(Q[0]), J(Q[1])]
    X = np.asarray(crdata.uniform_points_on_subspaces(key(case["us"] + 3), B, 500))
    for i in range(2):
        C = Q[i].T @ X[:, 500 * i:500 * (i + 1)]
        require(np.abs(C.mean(axis=1)).max() <= 6.5 / np.sqrt(500 * D), "points are centred", got=C.mean(axis=1))
        require(np.abs(C @ C.T / 500 - np.eye(D) / D).max() <= 6.5 / np.sqrt(500) * 0.71, "points are isotropic", got=C @ C.T / 500)
    return D > 1


@st.composite
def gen_ang(draw):
    m = draw(st.sampled_from([2, 3]))
    D = draw(st.integers(1, 4))
    return {"m": m, "D": D, "N": m * D + draw(st.sampled_from([0, 0, 1, 4])), "th": draw(st.sampled_from([1.0, 5.0, 15, 37.5, 45.0, 60.0, 89.0, 90.0])), "us": draw(SEED), "jit": draw(st.booleans())}


@sub("C25", "angle", gen_ang(), 90, "drawn N, D, angle: every basis is orthonormal and all pairs have principal angles theta, 90, ..., 90; jit agrees; oracle = singular values of A^T B; non-trivial = D > 1")
def t_ang(case):
    N, D, th = case["N"], case["D"], case["th"]
    f, fj = (crdata.two_subspaces_at_angle, crdata.two_subspaces_at_angle_jit) if case["m"] == 2 else (crdata.three_subspaces_at_angle, crdata.three_subspaces_at_angle_jit)
    k = key(case["us"])
    bases = [np.asarray(b) for b in (fj if case["jit"] else f)(k, N, D, th)]
    require(len(bases) == case["m"], "number of bases")
    for Q in bases:
        require(Q.shape == (N, D), "shape", got=Q.shape)
        same(Q.T @ Q, np.eye(D), "orthonormal basis", atol=1e-10)
    want = np.zeros(D)
    want[0] = np.cos(np.deg2rad(th))
    for i in range(len(bases)):
        for j in range(i):
            same(np.linalg.svd(bases[i].T @ bases[j], compute_uv=False), want, "principal angles", atol=1e-9)
    other = [np.asarray(b) for b in f(jax.random.PRNGKey(case["us"] + 1), N, D, th)]
    require(not np.allclose(other[0], bases[0]), "another key gives another pair")
    return D > 1
