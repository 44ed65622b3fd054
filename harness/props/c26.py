"""C26: properties of dictionaries and comparison of dictionaries."""
import itertools
import numpy as np
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import cr.sparse.dict as cd

from harness.core import sub, require
from harness.g import arr, mk, same, finite, SEED

J = jnp.asarray


@st.composite
def gen_dict(draw):
    m, n = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.just(17))), draw(st.one_of(st.integers(2, 8), st.integers(2, 8), st.sampled_from([18, 33])))
    c = draw(st.booleans())
    return {"A": draw(arr((m, n), cplx=c)), "B": draw(arr((m, draw(st.integers(1, 8))), cplx=draw(st.booleans()))), "us": draw(SEED),
            "dup": draw(st.sampled_from([False, False, True]))}


def unit(A, rng):
    A = A.copy()
    for j in range(A.shape[1]):
        if np.linalg.norm(A[:, j]) < 1e-9:
            A[:, j] = rng.standard_normal(A.shape[0])
    return A / np.linalg.norm(A, axis=0)


@sub("C26", "props", gen_dict(), 250, "drawn real and complex matrices (ties, duplicate atoms up to a phase): gram, frame, frame bounds on any matrix, coherence, its index, babel (brute force over all subsets) and mutual "
     "coherence on unit-norm atoms against numpy; invariance under unitary maps and atom permutations / phases; non-trivial = the coherence is neither 0 nor 1")
def t_props(case):
    rng = np.random.default_rng(case["us"])
    A0 = mk(case["A"])
    m, n = A0.shape
    same(cd.gram(J(A0)), A0.conj().T @ A0, "gram")
    same(cd.frame(J(A0)), A0 @ A0.conj().T, "frame")
    s = np.linalg.svd(A0, compute_uv=False)
    same(cd.frame_bounds(J(A0)), np.array([s[0], s[-1]]), "frame_bounds", scale=s[0])
    same(cd.upper_frame_bound(J(A0)), s[0], "upper_frame_bound", scale=s[0])
    same(cd.lower_frame_bound(J(A0)), s[-1], "lower_frame_bound", scale=s[0])
    A = unit(A0, rng)
    if case["dup"]:
        A[:, n - 1] = A[:, 0] * (np.exp(0.7j) if np.iscomplexobj(A) else -1.0)
    G = np.abs(A.conj().T @ A)
    np.fill_diagonal(G, 0)
    mu = G.max()
    same(cd.coherence(J(A)), mu, "coherence")
    v, (i, j) = cd.coherence_with_index(J(A))
    same(v, mu, "coherence_with_index value")
    i, j = int(i), int(j)
    require(mu < 1e-9 or (i != j and abs(G[i, j] - mu) <= 1e-9), "coherence_with_index names the most correlated pair", i=i, j=j)
    b = np.asarray(cd.babel(J(A)))
    if n <= 6:
        want = [max(sum(G[a, x] for x in S) for a in range(n) for S in itertools.combinations([q for q in range(n) if q != a], k)) for k in range(1, n)]
    else:
        want = [max(np.sort(np.delete(G[a], a))[::-1][:k].sum() for a in range(n)) for k in range(1, n)]
    same(b, np.array(want), "babel function")
    require(bool(np.all(b <= np.arange(1, n) * mu + 1e-9)), "babel(k) <= k mu")
    B = unit(mk(case["B"]), rng)
    H = np.abs(A.conj().T @ B)
    same(cd.mutual_coherence(J(A), J(B)), H.max(), "mutual_coherence")
    v, (i, j) = cd.mutual_coherence_with_index(J(A), J(B))
    require(abs(float(v) - H.max()) <= 1e-9 and abs(H[int(i), int(j)] - H.max()) <= 1e-9, "mutual_coherence_with_index names the pair", i=int(i), j=int(j))
    Q = np.linalg.qr(rng.standard_normal((m, m)) + (1j * rng.standard_normal((m, m)) if np.iscomplexobj(A) else 0))[0]
    p = rng.permutation(n)
    A2 = (Q @ A)[:, p] * np.where(rng.random(n) < 0.5, -1.0, 1.0)
    same(cd.babel(J(A2)), b, "babel is invariant under unitary maps, permutations and signs")
    return 1e-6 < mu < 1 - 1e-6


@st.composite
def gen_match(draw):
    m = draw(st.integers(2, 8))
    return {"m": m, "n": draw(st.integers(1, 10)), "nb": draw(st.integers(1, 12)), "c": draw(st.booleans()), "us": draw(SEED),
            "th": draw(st.sampled_from([None, 0.01, 0.1, 0.5])), "noise": draw(st.sampled_from([0.0, 0.05, 0.3]))}


@sub("C26", "matching", gen_match(), 160, "dictionary B made of some atoms of A (permuted, with signs or phases and noise) and new ones: the ratio of atoms of A with a match in B, against numpy (Hermitian inner products; cases "
     "with a distance within 1e-9 of the threshold dropped); non-trivial = some but not all match")
def t_match(case):
    rng = np.random.default_rng(case["us"])

    def atoms(k):
        X = rng.standard_normal((case["m"], k)) + (1j * rng.standard_normal((case["m"], k)) if case["c"] else 0)
        return X / np.linalg.norm(X, axis=0)
    A = atoms(case["n"])
    k = int(rng.integers(0, case["n"] + 1))
    ph = np.exp(2j * np.pi * rng.random(k)) if case["c"] else np.sign(rng.standard_normal(k))
    B = np.column_stack([A[:, rng.permutation(case["n"])[:k]] * ph, atoms(case["nb"])])[:, rng.permutation(k + case["nb"])]
    B = B + case["noise"] * atoms(B.shape[1])
    B = B / np.linalg.norm(B, axis=0)
    d = 1 - np.abs(A.conj().T @ B).max(1)
    th = 0.01 if case["th"] is None else case["th"]
    if np.any(np.abs(d - th) < 1e-9):
        return False
    got = cd.matching_atoms_ratio(J(A), J(B)) if case["th"] is None else cd.matching_atoms_ratio(J(A), J(B), case["th"])
    same(got, np.mean(d < th), "ratio of matching atoms")
    if not case["noise"]:
        require(float(got) >= k / case["n"] - 1e-9, "every copied atom is found", k=k)
    return 0 < np.mean(d < th) < 1


def grass_step(g, m, mu, frac, flips):
    """one published alternating projection step on the Gram matrix; flips: how the (rounding-level) ties with the two thresholds are resolved"""
    n = g.shape[0]
    off = n * n - n
    a = np.abs(g)
    srt = np.sort(a.ravel())
    hi, lo = srt[round(frac * off) - 1], srt[round((1 - frac) * off) - 1]
    up = (a > hi * (1 + 1e-9)) & ~np.eye(n, dtype=bool)
    dn = a < lo * (1 - 1e-9)
    for k, (th, mask) in enumerate(((hi, up), (lo, dn))):
        tie = np.argwhere(np.abs(a - th) <= 1e-9 * th)
        for q, (i, j) in enumerate(tie[:2]):
            mask[i, j] = bool(flips >> (2 * k + q) & 1)
    g = np.where(up, g * mu, g)
    g = np.where(dn, g / mu, g)
    U, s, V = np.linalg.svd(g)
    if s[m - 1] - s[m] < 1e-6:
        return None
    g = (U[:, :m] * s[:m]) @ V[:m]
    d = np.diag(g)
    if d.min() < 1e-3:
        return None
    g = g / np.sqrt(d)[:, None] / np.sqrt(d)[None, :]
    U, s, V = np.linalg.svd(g)
    return (U[:, :m] * s[:m]) @ U[:, :m].T


@st.composite
def gen_grass(draw):
    m = draw(st.integers(3, 8))
    return {"m": m, "n": draw(st.integers(m + 2, 2 * m + 4)), "us": draw(SEED), "it": draw(st.sampled_from([1, 1, 5, 25])), "mu": draw(st.sampled_from([0.9, 0.9, 0.8])),
            "frac": draw(st.sampled_from([0.9, 0.9, 0.75]))}


@sub("C26", "grassmann", gen_grass(), 60, "drawn unit-norm starts: one iteration equals the published alternating projection step on the Gram matrix (either resolution of entries tied with a threshold); after more, eight starts at "
     "once: finite, right shape, coherence (normalised) never below the Welch bound minimum_coherence, which an equiangular simplex attains, and lower on average than at the start; non-trivial = one iteration replayed")
def t_grass(case):
    rng = np.random.default_rng(case["us"])
    m, n = case["m"], case["n"]
    w = cd.minimum_coherence(m, n)
    same(w, np.sqrt((n - m) / (m * (n - 1))), "Welch bound")
    S = np.eye(n) - 1.0 / n                      # n simplex vertices in n-1 dimensions
    same(cd.coherence(J(S / np.linalg.norm(S, axis=0))), cd.minimum_coherence(n - 1, n), "the simplex attains the bound")
    X = rng.standard_normal((8, m, n))
    X /= np.linalg.norm(X, axis=1, keepdims=True)

    def run(Y):
        kw = {} if (case["mu"], case["frac"]) == (0.9, 0.9) else {"shrink_mu": case["mu"], "frac": case["frac"]}
        if case["it"] != 25:
            kw["iterations"] = case["it"]
        return cd.build_grassmannian_frame(Y, **kw)
    if case["it"] == 1:
        F = np.asarray(run(J(X[0])))
        require(F.shape == (m, n), "shape", got=F.shape)
        finite(F, "frame")
        cand = [grass_step(X[0].T @ X[0], m, case["mu"], case["frac"], f) for f in range(16)]
        if any(c is None for c in cand):
            return False
        err = min(np.abs(F.T @ F - c).max() for c in cand)
        require(err < 1e-6, "one alternating projection step", err=err)
        return True
    F = np.asarray(jax.vmap(run)(J(X)))
    require(F.shape == (8, m, n), "shape", got=F.shape)
    finite(F, "frame")

    def coh(Y):
        Y = Y / np.linalg.norm(Y, axis=0)
        G = np.abs(Y.T @ Y)
        np.fill_diagonal(G, 0)
        return G.max()
    a, b = np.array([coh(x) for x in X]), np.array([coh(f) for f in F])
    require(bool(np.all(b >= w - 1e-9)), "no frame beats the Welch bound")
    if m >= 5 and case["frac"] == 0.9:
        require(b.mean() < a.mean(), "the coherence of random starts goes down on average", start=a, end=b)
    return False
