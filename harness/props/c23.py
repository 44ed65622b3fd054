"""C23: k-means and spectral clustering."""
import numpy as np
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
from jax.experimental.sparse import BCOO
import cr.sparse.cluster.vq as vq
import cr.sparse.cluster.spectral as sp

from harness.core import PROPS, sub, require
from harness.g import arr, mk, same, finite, SEED

J = jnp.asarray


def nearest(X, C):
    D = np.linalg.norm(X[:, None, :] - C[None, :, :], axis=2)
    return D.argmin(1), D


def centroids(X, a, k):
    out = np.zeros((k, X.shape[1]))
    for j in range(k):
        if np.any(a == j):
            out[j] = X[a == j].mean(0)
    return out


@st.composite
def gen_km(draw):
    n, d, k = draw(st.sampled_from([(2, 1, 2), (4, 3, 1), (7, 2, 3), (15, 1, 2), (15, 2, 5), (40, 3, 4), (70, 2, 3)]))
    return {"n": n, "d": d, "k": k, "us": draw(SEED), "key": draw(SEED), "mi": draw(st.sampled_from([0, 1, 2, 3, 100])),
            "thr": draw(st.sampled_from([1e-5, 1e-5, 0.05])), "blob": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 50.0])), "jit": draw(st.sampled_from([True, True, True, False])), "it": draw(st.sampled_from([1, 3, 20])),
            "dflt": draw(st.booleans())}


def points(case):
    rng = np.random.RandomState(case["us"])
    n, d = case["n"], case["d"]
    X = rng.standard_normal((n, d))
    if case["blob"]:
        X = 0.2 * X + 3 * rng.standard_normal((case["k"], d))[rng.randint(case["k"], size=n)]
    return X * case["scale"]


def check_sol(X, k, C, a, dist):
    """centroids, assignment and distortion belong together"""
    require(C.shape == (k, X.shape[1]) and a.shape == (len(X),), "shapes", C=C.shape, a=a.shape)
    require(a.min() >= 0 and a.max() < k, "label out of range", a=a)
    _, D = nearest(X, C)
    own = D[np.arange(len(X)), a]
    require(np.all(own <= D.min(1) + 1e-9 * (1 + np.abs(X).max())), "a point is not assigned to its nearest centroid", gap=float((own - D.min(1)).max()))
    same(dist, own.mean(), "distortion is not the mean distance", rtol=1e-9, atol=1e-12)


@sub("C23", "kmeans_seed", gen_km(), 160, "drawn points, k, keys, thresholds; start = k distinct data points; reference = Lloyd's iteration replayed in numpy with its stopping rule; non-trivial = at "
     "least two iterations with k > 1")
def t_seed(case):
    X, k, thr, mi = points(case), case["k"], case["thr"], case["mi"]
    key = jax.random.PRNGKey(case["key"])
    fn = vq.kmeans_with_seed_jit if case["jit"] else vq.kmeans_with_seed
    s0 = fn(key, J(X), k, thr, 0)
    C = np.asarray(s0.centroids)
    idx = []
    for c in C:
        hit = [i for i in range(len(X)) if i not in idx and np.allclose(X[i], c, rtol=1e-12, atol=1e-12)]
        require(hit, "an initial centroid is not a data point of its own", c=c)
        idx.append(hit[0])
    check_sol(X, k, C, np.asarray(s0.assignment), float(s0.distortion))
    require(int(s0.iterations) == 0, "iterations")
    s = fn(key, J(X), k, thr, mi)
    a, D = nearest(X, C)
    dist, prev, it = D.min(1).mean(), np.inf, 0
    while True:
        gap = prev - dist
        if np.isfinite(gap) and abs(gap - thr) <= 1e-9 * (1 + abs(dist)):
            return False
        if not (gap > thr and it < mi):
            break
        C = centroids(X, a, k)
        a, D = nearest(X, C)
        srt = np.sort(D, axis=1)
        if k > 1 and np.any(srt[:, 1] - srt[:, 0] <= 1e-10 * (1 + srt[:, 1])):
            return False                # a tie
        prev, dist = dist, D.min(1).mean()
        it += 1
    require(int(s.iterations) == it, "iterations", got=int(s.iterations), want=it)
    same(np.asarray(s.centroids), C, "centroids", rtol=1e-9, atol=1e-10 * case["scale"])
    require(np.array_equal(np.asarray(s.assignment), a), "assignment", got=np.asarray(s.assignment), want=a)
    same(float(s.distortion), dist, "distortion", rtol=1e-9)
    if it:
        same(float(s.prev_distortion), prev, "previous distortion", rtol=1e-9)
    return it >= 2 and k > 1


@sub("C23", "kmeans", gen_km(), 30, "drawn points and keys; the answer is self-consistent, reproduced by its reported key and no worse than any single restart (replayed with the split keys); "
     "non-trivial = restarts differ")
def t_km(case):
    X, k, it = points(case), case["k"], case["it"]
    key = jax.random.PRNGKey(case["key"])
    fn = vq.kmeans_jit if case["jit"] else vq.kmeans
    if case["dflt"]:
        it, thr, mi = 20, 1e-5, 100
        s = fn(key, J(X), k)
    else:
        thr, mi = case["thr"], case["mi"]
        s = fn(key, J(X), k, it, thr, mi)
    C, a = np.asarray(s.centroids), np.asarray(s.assignment)
    check_sol(X, k, C, a, float(s.distortion))
    t = vq.kmeans_with_seed_jit(s.key, J(X), k, thr, mi)
    same(float(t.distortion), float(s.distortion), "the reported key does not reproduce the distortion", rtol=1e-9)
    require(int(t.iterations) == int(s.iterations), "iterations of the reported key", a=int(t.iterations), b=int(s.iterations))
    ds = [float(vq.kmeans_with_seed_jit(q, J(X), k, thr, mi).distortion) for q in jax.random.split(key, it)]
    require(float(s.distortion) <= min(ds) * (1 + 1e-9) + 1e-12, "a restart was better than the answer", got=float(s.distortion), best=min(ds))
    if case["blob"] and mi == 100 and it == 20 and k == 1:
        same(C[0], X.mean(0), "one cluster: the centroid is the mean", rtol=1e-9, atol=1e-9 * case["scale"])
    return len(set(np.round(ds, 9))) > 1


@st.composite
def gen_parts(draw):
    n, d = draw(st.sampled_from([1, 3, 8, 15])), draw(st.integers(1, 3))
    return {"X": draw(arr((n, d), kinds=("g", "t", "e"))), "us": draw(SEED), "k": draw(st.integers(1, 6)), "jit": draw(st.booleans())}


@sub("C23", "parts", gen_parts(), 150, "find_nearest, find_assignment, assignment_counts, find_new_centroids on drawn points (ties allowed), labels and empty clusters; reference = numpy; non-trivial = k > 1")
def t_parts(case):
    X, k = mk(case["X"]), case["k"]
    rng = np.random.RandomState(case["us"])
    C = rng.standard_normal((k, X.shape[1])) * (np.abs(X).max() + 0.1)
    if k > 2:
        C[1] = X[rng.randint(len(X))]
    a, dist = (vq.find_assignment_jit if case["jit"] else vq.find_assignment)(J(X), J(C))
    a, dist = np.asarray(a), np.asarray(dist)
    _, D = nearest(X, C)
    same(dist, D[np.arange(len(X)), a], "distances", rtol=1e-9, atol=1e-12)
    same(dist, D.min(1), "not the nearest", rtol=1e-9, atol=1e-12)
    i = int((vq.find_nearest_jit if case["jit"] else vq.find_nearest)(J(X[0]), J(C)))
    same(D[0, i], D[0].min(), "find_nearest", rtol=1e-9, atol=1e-12)
    lab = rng.randint(k, size=len(X))
    cnt = np.asarray(vq.assignment_counts(J(lab), k))
    same(cnt.ravel(), np.maximum(np.bincount(lab, minlength=k), 1), "counts")
    same(np.asarray((vq.find_new_centroids_jit if case["jit"] else vq.find_new_centroids)(J(lab), J(X), k)), centroids(X, lab, k), "centroids", rtol=1e-9, atol=1e-12 + 1e-12 * np.abs(X).max())
    return k > 1


# ------------------------------------------------------------------ spectral

@st.composite
def gen_sp(draw, fam):
    sz = draw(st.sampled_from([(12, 8), (8, 14, 8), (10, 8, 12, 10)] if fam in ("symmetric", "sparse") else [(10, 10), (12, 8), (8, 12), (16, 14), (10, 10, 10), (8, 14, 8), (15, 8, 7), (10, 8, 12, 10)]))
    return {"f": fam, "k": len(sz), "sz": list(sz), "us": draw(SEED), "key": draw(SEED), "jit": draw(st.sampled_from([True, True, False])),
            "eps": draw(st.sampled_from([0.0, 0.0, 1e-3, 5e-3])), "scale": draw(st.sampled_from([1.0, 1.0, 20.0])), "diag": draw(st.booleans())}


def same_partition(a, b):
    return len(set(zip(a.tolist(), b.tolist()))) == len(set(a.tolist())) == len(set(b.tolist()))


def t_sp(case):
    rng = np.random.RandomState(case["us"])
    k = case["k"]
    lab = np.repeat(np.arange(k), case["sz"])
    lab = lab[rng.permutation(len(lab))]
    n = len(lab)
    W = rng.uniform(0.5, 1.5, (n, n)) * np.where(lab[:, None] == lab[None, :], 1, case["eps"])
    W = (W + W.T) / 2 * case["scale"]
    if not case["diag"]:
        np.fill_diagonal(W, 0)
    key = jax.random.PRNGKey(case["key"])
    d = W.sum(0)
    f = case["f"]
    if f == "unnormalized":
        s = sp.unnormalized(key, J(W))
    elif f == "random_walk":
        s = sp.normalized_random_walk(key, J(W))
    elif f == "unnormalized_k":
        s = (sp.unnormalized_k_jit if case["jit"] else sp.unnormalized_k)(key, J(W), k)
    elif f == "random_walk_k":
        s = (sp.normalized_random_walk_k_jit if case["jit"] else sp.normalized_random_walk_k)(key, J(W), k)
    elif f == "symmetric":
        s = (sp.normalized_symmetric_fast_k_jit if case["jit"] else sp.normalized_symmetric_fast_k)(key, J(W), k)
    else:
        s = (sp.normalized_symmetric_sparse_fast_k_jit if case["jit"] else sp.normalized_symmetric_sparse_fast_k)(key, BCOO.fromdense(J(W)), k)
    L = s.laplancian
    L = np.asarray(L.todense() if hasattr(L, "todense") else L)
    if f.startswith("unnorm"):
        ref = np.diag(d) - W
    elif f.startswith("random"):
        ref = np.eye(n) - W / d[:, None]
        same(np.asarray(sp.normalized_random_walk_laplacian_jit(J(W))), ref, "random walk Laplacian", rtol=1e-9)
    else:
        ref = W / np.sqrt(np.outer(d, d))
    same(L, ref, "Laplacian", rtol=1e-9, atol=1e-11 * case["scale"])
    sv = np.linalg.svd(ref, compute_uv=False)
    if f in ("symmetric", "sparse"):
        same(np.max(np.asarray(s.singular_values)), 1.0, "largest singular value of the normalised affinity", rtol=1e-6, atol=1e-6)
    else:
        same(np.asarray(s.singular_values), sv, "singular values of the Laplacian", rtol=1e-8, atol=1e-9 * case["scale"])
        same(float(s.connectivity), sv[-2], "connectivity", rtol=1e-8, atol=1e-9 * case["scale"])
    require(int(s.num_clusters) == k, "number of clusters", got=int(s.num_clusters), want=k)
    a = np.asarray(s.assignment)
    require(a.shape == (n,) and a.min() >= 0 and a.max() < k, "labels", a=a)
    require(same_partition(a, lab), "the groups of points were not recovered", got=a, want=lab)
    return True


for _f, _n in (("unnormalized", 25), ("random_walk", 25), ("unnormalized_k", 25), ("random_walk_k", 25), ("symmetric", 14), ("sparse", 9)):
    sub("C23", "sp_" + _f, gen_sp(_f), _n,
        "similarity graphs with 2 to 4 dense groups of 7 to 16 shuffled points, cross links at most 0.5 %; oracle = the planted groups, Laplacian and singular values by definition; non-trivial = all")(t_sp)
PROPS["C23"].sort(key=lambda s: s.name not in ("sp_sparse", "sp_symmetric"))      # the slow ones first
