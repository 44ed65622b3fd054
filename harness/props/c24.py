"""C24: clustering metrics and the sparse subspace clustering tool box."""
import itertools
import numpy as np
from hypothesis import strategies as st
from jax.experimental.sparse import BCOO
import jax.numpy as jnp
import cr.sparse.cluster as cl
import cr.sparse.cluster.ssc as ssc

from harness.core import sub, require
from harness.g import same, finite, SEED

J = jnp.asarray


@st.composite
def gen_lab(draw):
    k1, k2 = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.just(9))), draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.just(9)))
    n = draw(st.one_of(st.integers(1, 16), st.integers(1, 16), st.just(30)))
    return {"t": draw(st.lists(st.integers(0, k1 - 1), min_size=n, max_size=n)), "p": draw(st.lists(st.integers(0, k2 - 1), min_size=n, max_size=n)),
            "off": draw(st.sampled_from([0, 0, 1, 5])), "gap": draw(st.sampled_from([1, 1, 3])), "rel": draw(st.booleans()), "us": draw(SEED)}


def best_agreement(t, p):
    """most points that agree over all one to one matchings of predicted with true labels (brute force)"""
    T, P = sorted(set(t)), sorted(set(p))
    G = np.array([[sum(1 for a, b in zip(t, p) if a == x and b == y) for y in P] for x in T])
    if len(T) > len(P):
        G = G.T
    r, c = G.shape
    return max(sum(G[i, q[i]] for i in range(r)) for q in itertools.permutations(range(c), r))


@sub("C24", "error", gen_lab(), 140, "drawn true and predicted labels (any numbers of clusters, gaps, offsets); oracle = brute force over all one to one matchings; metamorphic: renaming predicted "
     "labels changes nothing; non-trivial = some but not all points agree")
def t_err(case):
    t = np.array([case["off"] + case["gap"] * a for a in case["t"]])
    p = np.array([case["off"] + case["gap"] * a for a in case["p"]])
    n = len(t)
    good = best_agreement(t.tolist(), p.tolist())
    e = cl.clustering_error(J(t), J(p))
    m = np.asarray(e.mapped_labels)
    require(int(e.num_missed) == n - good, "number of missed points", got=int(e.num_missed), want=n - good)
    same(float(e.error), (n - good) / n, "error", rtol=1e-6)
    same(float(e.error_perc), 100 * (n - good) / n, "error in percent", rtol=1e-6)
    require(int(np.sum(m != t)) == n - good, "mapped labels do not have that error")
    require(len(set(zip(p.tolist(), m.tolist()))) == len(set(p.tolist())) == len(set(m.tolist())), "the mapping is not one to one", p=p, m=m)
    m2, cols, G = cl.best_map(J(t), J(p))
    require(np.array_equal(np.asarray(m2), m), "best_map and clustering_error differ")
    # renaming the predicted labels
    perm = np.random.RandomState(case["us"]).permutation(50)
    e2 = cl.clustering_error(J(t), J(perm[p]))
    require(int(e2.num_missed) == n - good, "renaming the predicted labels changes the error", got=int(e2.num_missed), want=n - good)
    e3 = cl.clustering_error(J(t), J(t))
    require(int(e3.num_missed) == 0 and float(e3.error) == 0, "labels do not match themselves")
    # known number of clusters, labels 0..k-1
    a, b = np.array(case["t"]), np.array(case["p"])
    k = max(a.max(), b.max()) + 1
    ek = cl.clustering_error_k(J(a), J(b), int(k))
    require(int(ek.num_missed) == n - good, "clustering_error_k: number of missed points", got=int(ek.num_missed), want=n - good)
    same(float(ek.error_perc), 100 * (n - good) / n, "clustering_error_k: percent", rtol=1e-6)
    mk_, ck, Gk = cl.best_map_k(J(a), J(b), int(k))
    require(int(np.sum(np.asarray(mk_) != a)) == n - good, "best_map_k")
    same(np.asarray(Gk), np.array([[np.sum((a == i) & (b == j)) for j in range(k)] for i in range(k)]), "best_map_k: confusion matrix")
    return 0 < good < n


@sub("C24", "labels", st.fixed_dictionaries({"sz": st.lists(st.integers(0, 6), min_size=1, max_size=6).filter(any), "us": SEED}), 60,
     "labels, sizes, start and end indices of drawn clusters convert into each other; non-trivial = at least two clusters of different sizes")
def t_lab(case):
    sz = np.array(case["sz"])
    k = len(sz)
    lab = np.asarray(cl.labels_from_sizes(J(sz)))
    same(lab, np.repeat(np.arange(k), sz), "labels_from_sizes")
    perm = np.random.RandomState(case["us"]).permutation(len(lab))
    same(np.asarray(cl.sizes_from_labels(J(lab[perm]), k)), sz, "sizes_from_labels")
    same(np.asarray(cl.sizes_from_labels_jit(J(lab[perm]), k + 2)), np.append(sz, [0, 0]), "sizes_from_labels with empty clusters")
    s, e = (np.asarray(v) for v in cl.start_end_indices(J(sz)))
    same(s, np.cumsum(sz) - sz, "start indices")
    same(e, np.cumsum(sz), "end indices")
    return len(set(case["sz"])) > 1


@st.composite
def gen_rep(draw):
    K = draw(st.integers(1, 4))
    n = draw(st.one_of(st.integers(max(K + 1, 3), 9), st.integers(max(K + 1, 3), 9), st.just(21)))
    return {"K": K, "n": n, "us": draw(SEED), "nc": draw(st.integers(1, 3)), "zero": draw(st.booleans()), "pure": draw(st.booleans())}


@sub("C24", "rep", gen_rep(), 75, "drawn sparse representations (values and row indices per column): dense, BCOO and affinity forms agree, conversions round trip; subspace preservation statistics against "
     "their definition; non-trivial = some columns preserve and some do not")
def t_rep(case):
    rng = np.random.RandomState(case["us"])
    K, n = case["K"], case["n"]
    lab = rng.randint(case["nc"], size=n)
    I = np.stack([rng.permutation([i for i in range(n) if i != j])[:K] for j in range(n)], axis=1)
    Z = np.where(rng.random_sample((K, n)) < 0.5, -1, 1) * rng.uniform(0.01, 2, (K, n))
    if case["zero"] and K > 1:
        Z[1:] *= rng.random_sample((K - 1, n)) < 0.6
    if case["pure"]:
        for j in range(0, n, 2):
            for q in range(K):
                if lab[I[q, j]] != lab[j] and np.count_nonzero(Z[:, j]) > 1:
                    Z[q, j] = 0
    C = np.zeros((n, n))
    for j in range(n):
        for q in range(K):
            C[I[q, j], j] = Z[q, j]
    same(np.asarray(ssc.sparse_to_full_rep(J(Z), J(I))), C, "sparse_to_full_rep")
    B = ssc.sparse_to_bcoo(J(Z), J(I))
    require(B.shape == (n, n), "shape")
    same(np.asarray(B.todense()), C, "sparse_to_bcoo")
    for fn in (ssc.bcoo_to_sparse, ssc.bcoo_to_sparse_jit):
        Z2, I2 = fn(B, K)
        same(np.asarray(Z2), Z, "bcoo_to_sparse values")
        same(np.asarray(I2), I, "bcoo_to_sparse indices")
    W = np.abs(C) + np.abs(C).T
    same(np.asarray(ssc.rep_to_affinity(J(C))), W, "rep_to_affinity (dense)")
    same(np.asarray(ssc.rep_to_affinity(B).todense()), W, "rep_to_affinity (sparse)")
    flags = np.array([all(lab[i] == lab[j] for i in range(n) if C[i, j] != 0) for j in range(n)])
    errs = np.array([1 - np.abs(C[lab == lab[j], j]).sum() / np.abs(C[:, j]).sum() for j in range(n)])
    for s, w in ((ssc.subspace_preservation_stats(J(C), J(lab)), "dense"), (ssc.subspace_preservation_stats_jit(J(C), J(lab)), "dense, jit"),
                 (ssc.sparse_subspace_preservation_stats(J(Z), J(I), J(lab)), "sparse"), (ssc.sparse_subspace_preservation_stats_jit(J(Z), J(I), J(lab)), "sparse, jit")):
        require(np.array_equal(np.asarray(s.spr_flags), flags), f"{w}: preservation flags", got=np.asarray(s.spr_flags), want=flags)
        same(np.asarray(s.spr_errors), errs, f"{w}: preservation errors", rtol=1e-9, atol=1e-9)
        same(float(s.spr_error), errs.mean(), f"{w}: mean error", rtol=1e-9, atol=1e-9)
        require(bool(s.spr_flag) == bool(flags.all()), f"{w}: overall flag")
        same(float(s.spr_perc), 100 * flags.mean(), f"{w}: percentage", rtol=1e-9)
    return bool(flags.any() and not flags.all())


@st.composite
def gen_ang(draw):
    return {"sz": draw(st.lists(st.integers(2, 5), min_size=2, max_size=4)), "d": draw(st.integers(2, 6)), "us": draw(SEED), "scale": draw(st.booleans()), "anti": draw(st.booleans())}


@sub("C24", "angles", gen_ang(), 60, "drawn points in clusters (also antipodal pairs): angles in degrees, nearest neighbours inside and outside the cluster, sorted neighbours and the rank of the first one "
     "inside; reference = numpy; non-trivial = some nearest neighbour is outside the cluster")
def t_ang(case):
    rng = np.random.RandomState(case["us"])
    sz = np.array(case["sz"])
    n, d = sz.sum(), case["d"]
    X = rng.standard_normal((d, n))
    if case["anti"]:
        X[:, -1] = -X[:, 0]
    if case["scale"]:
        X = X * 10.0 ** rng.uniform(-2, 2, n)
    U = X / np.linalg.norm(X, axis=0)
    A = np.rad2deg(2 * np.arcsin(np.clip(0.5 * np.linalg.norm(U[:, :, None] - U[:, None, :], axis=0), 0, 1)))
    G = np.asarray(ssc.angles_between_points(J(X)))
    finite(G, "angles")
    same(G, A, "angles between points", rtol=1e-9, atol=3e-6)
    lab = np.repeat(np.arange(len(sz)), sz)
    same_ = lab[:, None] == lab[None, :]
    ins = np.where(same_ & ~np.eye(n, dtype=bool), A, np.inf)
    out = np.where(same_, np.inf, A)
    srt = np.sort(np.where(np.eye(n, dtype=bool), np.inf, A), axis=1)
    if n > 2 and np.any(np.diff(srt[:, :n - 1], axis=1) < 1e-4) or srt[:, 0].min() < 1e-3:
        return False                    # ties
    JA, JS = J(A), J(sz)
    same(np.asarray(ssc.min_angles_inside_cluster(JA, JS)), ins.min(1), "smallest angle inside the cluster", rtol=1e-9)
    same(np.asarray(ssc.min_angles_outside_cluster(JA, JS)), out.min(1), "smallest angle to other clusters", rtol=1e-9)
    require(np.array_equal(np.asarray(ssc.nearest_neighbors_inside_cluster(JA, JS)), ins.argmin(1)), "nearest neighbour inside the cluster")
    require(np.array_equal(np.asarray(ssc.nearest_neighbors_outside_cluster(JA, JS)), out.argmin(1)), "nearest neighbour in other clusters")
    N = np.asarray(ssc.sorted_neighbors(JA))
    B = np.where(np.eye(n, dtype=bool), -1, A)
    want = np.argsort(B, axis=1)[:, 1:]
    require(np.array_equal(N, want), "sorted neighbours", got=N, want=want)
    pos = np.asarray(ssc.inn_positions(J(lab), J(lab[want])))
    wp = np.array([np.argmax(lab[want[i]] == lab[i]) for i in range(n)])
    require(np.array_equal(pos, wp), "position of the first neighbour inside the cluster", got=pos, want=wp)
    return bool(np.any(out.min(1) < ins.min(1)))


@st.composite
def gen_omp(draw):
    D, n, K = draw(st.sampled_from([(4, 7, 1), (4, 9, 2), (6, 12, 3), (8, 20, 4), (5, 23, 3)]))
    return {"D": D, "n": n, "K": K, "us": draw(SEED), "scale": draw(st.booleans()), "bs": draw(st.sampled_from([1, 4, 5, 7, 30])), "jit": draw(st.booleans())}


@sub("C24", "omp", gen_omp(), 26, "drawn point sets (also with unequal norms), sparsity and batch sizes (also ones that do not divide the number of points); reference = OMP of every point over the other "
     "normalised points in numpy; plain and batch versions agree; non-trivial = K > 1")
def t_omp(case):
    rng = np.random.RandomState(case["us"])
    D, n, K = case["D"], case["n"], case["K"]
    X = rng.standard_normal((D, n))
    if case["scale"]:
        X = X * 10.0 ** rng.uniform(-1, 1, n)
    else:
        X = X / np.linalg.norm(X, axis=0)
    U = X / np.linalg.norm(X, axis=0)
    Zr, Ir, Rr = np.zeros((K, n)), np.zeros((K, n), int), np.zeros((D, n))
    for j in range(n):
        r, I = U[:, j], []
        for q in range(K):
            c = np.abs(U.T @ r)
            c[j] = 0
            o = np.argsort(-c)
            if c[o[0]] - c[o[1]] <= 1e-7 * c[o[0]] or o[0] in I:
                return False
            I.append(o[0])
            z = np.linalg.lstsq(U[:, I], X[:, j], rcond=None)[0]
            r = X[:, j] - U[:, I] @ z
            if np.linalg.norm(r) <= 1e-6 * np.linalg.norm(X[:, j]) and q + 1 < K:
                return False
        Zr[:, j], Ir[:, j], Rr[:, j] = z, I, r
    f, g = (ssc.build_representation_omp_jit, ssc.batch_build_representation_omp_jit) if case["jit"] else (ssc.build_representation_omp, ssc.batch_build_representation_omp)
    outs = [("plain", f(J(X), K))]
    if case["bs"] <= n:
        outs.append(("batch", g(J(X), K, case["bs"])))
    sc = np.linalg.norm(X, axis=0).max()
    for w, (Z, I, R) in outs:
        require(np.array_equal(np.asarray(I), Ir), f"{w}: selected points", got=np.asarray(I), want=Ir)
        same(np.asarray(Z), Zr, f"{w}: coefficients", rtol=1e-7, atol=1e-8 * sc)
        same(np.asarray(R), Rr, f"{w}: residuals", rtol=1e-7, atol=1e-8 * sc)
    return K > 1


@st.composite
def gen_e2e(draw):
    return {"us": draw(SEED), "nc": draw(st.integers(2, 3)), "d": draw(st.integers(1, 3)), "s": draw(st.sampled_from([8, 12])), "scale": draw(st.booleans())}


@sub("C24", "preserve", gen_e2e(), 40, "points on orthogonal subspaces: every OMP representation uses points of the same subspace only and reproduces the point; oracle = the planted labels; non-trivial = all")
def t_e2e(case):
    rng = np.random.RandomState(case["us"])
    nc, d, s = case["nc"], case["d"], case["s"]
    Q = np.linalg.qr(rng.standard_normal((nc * d + 2, nc * d)))[0]
    X = np.hstack([Q[:, i * d:(i + 1) * d] @ rng.standard_normal((d, s)) for i in range(nc)])
    lab = np.repeat(np.arange(nc), s)
    p = rng.permutation(nc * s)
    X, lab = X[:, p], lab[p]
    if not case["scale"]:
        X = X / np.linalg.norm(X, axis=0)
    Z, I, R = ssc.build_representation_omp_jit(J(X), d)
    same(np.asarray(R), 0 * X, "the point is not represented", atol=1e-7 * np.abs(X).max())
    st_ = ssc.sparse_subspace_preservation_stats_jit(Z, I, J(lab))
    require(bool(st_.spr_flag), "a representation uses points of another subspace")
    same(float(st_.spr_perc), 100.0, "percentage")
    return True
