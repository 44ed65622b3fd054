"""C22: block sparse Bayesian learning."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.block.bsbl as bsbl
import cr.sparse.block.block as blk

from harness.core import sub, require
from harness.g import same, finite, SEED

J = jnp.asarray
ALGOS = ["em", "bo", "np"]


def ref_step(algo, P, y, b, st_, o):
    """One published BSBL step; st_ = (mu, gam, Sig, lam). Returns new state, or None when rounding decides."""
    mu0, gam, Sig, lam = st_
    m, n = P.shape
    nb = n // b
    act = np.ones(nb, bool) if algo == "np" else gam > o["prune"]
    if algo != "np" and np.any(np.abs(gam - o["prune"]) <= 1e-6 * o["prune"]):
        return None
    S = np.zeros((m, m))
    for i in range(nb):
        if act[i]:
            Pi = P[:, i * b:(i + 1) * b]
            S += Pi @ Sig[i] @ Pi.T
    Sy = S + lam * np.eye(m)
    if np.linalg.cond(Sy) > 1e9:
        return None
    W = np.linalg.solve(Sy, np.column_stack([y, P]))
    q, SP = W[:, 0], W[:, 1:]
    mu = np.zeros((nb, b))
    B0 = np.zeros((b, b))
    Sx, cov, Hy, HP = [None] * nb, [None] * nb, [None] * nb, [None] * nb
    for i in range(nb):
        Pi = P[:, i * b:(i + 1) * b]
        Hy[i], HP[i] = Pi.T @ q, Pi.T @ SP[:, i * b:(i + 1) * b]
        if act[i]:
            mu[i] = Sig[i] @ Hy[i]
            Sx[i] = Sig[i] - Sig[i] @ HP[i] @ Sig[i]
            cov[i] = Sx[i] + np.outer(mu[i], mu[i])
            B0 += cov[i] / gam[i]
    if not act.any():
        return None
    r = 0.0
    if b > 1 and o["corr"]:
        r = np.mean(np.diag(B0, 1)) / np.mean(np.diag(B0))
        r = float(np.clip(r, -0.99, 0.99))
    B = r ** np.abs(np.subtract.outer(np.arange(b), np.arange(b))) if r != 0 else np.eye(b)
    Bi = np.linalg.inv(B)
    res = y - P @ mu.ravel()
    rn = res @ res
    if o["ll"] == 0:
        lam2 = lam
    elif o["ll"] == 1:
        lam2 = (rn + sum(np.trace(P[:, i * b:(i + 1) * b] @ Sx[i] @ P[:, i * b:(i + 1) * b].T) for i in range(nb) if act[i])) / m
    else:
        lam2 = (rn + lam * sum(b - np.trace(Sx[i] @ Bi) / gam[i] for i in range(nb) if act[i])) / m
    g2 = np.zeros(nb)
    w, V = np.linalg.eigh(B)
    root = V @ np.diag(np.sqrt(w)) @ V.T
    for i in range(nb):
        if act[i]:
            if algo == "em":
                g2[i] = np.trace(Bi @ cov[i]) / b
            else:
                g2[i] = gam[i] * np.linalg.norm(root @ Hy[i]) / np.sqrt(np.trace(HP[i] @ B))
    Sig2 = np.array([g * B for g in g2])
    return (mu, g2, Sig2, lam2), res, act


@st.composite
def gen(draw, algo):
    m, n, b = draw(st.sampled_from([(3, 4, 2), (6, 12, 3), (10, 12, 4), (8, 8, 1), (12, 24, 4), (16, 30, 5), (9, 6, 2)]))
    return {"a": algo, "m": m, "n": n, "b": b, "k": draw(st.integers(1, 3)), "us": draw(SEED), "ll": draw(st.integers(0, 2)), "corr": draw(st.sampled_from([1, 1, 0])),
            "lam": draw(st.sampled_from([1e-3, 1e-2, 0.3])), "prune": draw(st.sampled_from([1e-3, 1e-2, 0.3, 0.7])), "mi": draw(st.sampled_from([1, 2, 3, 5, 8])),
            "noise": draw(st.sampled_from([0.0, 0.01, 0.2])), "jit": draw(st.booleans()), "eps": draw(st.sampled_from([1e-8, 1e-8, 0.3]))}


def data(case):
    rng = np.random.RandomState(case["us"])
    m, n, b = case["m"], case["n"], case["b"]
    nb = n // b
    P = rng.standard_normal((m, n)) / np.sqrt(m)
    x = np.zeros((nb, b))
    k = min(case["k"], nb)
    x[rng.permutation(nb)[:k]] = np.cumsum(rng.standard_normal((k, b)), axis=1)
    y = P @ x.ravel() + case["noise"] * rng.standard_normal(m)
    return P, x.ravel(), y


def solver(case):
    name = {"em": "bsbl_em", "bo": "bsbl_bo", "np": "bsbl_bo_np"}[case["a"]]
    return getattr(bsbl, name + ("_jit" if case["jit"] else ""))


def body(case):
    P, x, y = data(case)
    b, n, m = case["b"], case["n"], case["m"]
    nb = n // b
    mk = bsbl.bsbl_em_options if case["a"] == "em" else bsbl.bsbl_bo_options
    o = mk(learn_block_corr=case["corr"], learn_lambda=case["ll"], prune_gamma=case["prune"], lambda_val=case["lam"], max_iters=case["mi"], epsilon=case["eps"])
    s = solver(case)(J(P), J(y), b, o)
    mu, res = np.asarray(s.mu_x), np.asarray(s.r)
    require(mu.shape == (nb, b), "shape of the block means", got=mu.shape)
    same(np.asarray(s.x), mu.ravel(), "x is not the stacked block means")
    # facts about any state (rule 2 with learned correlation may drive the noise variance below zero)
    if case["ll"] != 2 or not case["corr"]:
        finite(mu, "block means")
    if np.all(np.isfinite(mu)):
        same(res, y - P @ mu.ravel(), "residual is not y - Phi x", rtol=1e-7, atol=1e-9)
        same(float(s.r_norm_sqr), res @ res, "squared residual norm", rtol=1e-7, atol=1e-12)
    # replay
    state, it, act = (np.zeros((nb, b)), np.ones(nb), np.array([np.eye(b)] * nb), case["lam"]), 0, None
    oo = {"prune": case["prune"], "ll": case["ll"], "corr": case["corr"]}
    while it < case["mi"]:
        out = ref_step(case["a"], P, y, b, state, oo)
        if out is None:
            return False
        dmu = np.abs(out[0][0] - state[0]).max()
        state, rr, act = out
        it += 1
        if state[3] < 1e-9 and case["ll"]:
            return False
        if abs(dmu - case["eps"]) <= 1e-5 * case["eps"]:
            return False
        if dmu <= case["eps"]:
            break
    require(int(s.iterations) == it, "iterations", got=int(s.iterations), want=it)
    for got, want, w in ((mu, state[0], "means"), (s.gammas, state[1], "gammas"), (s.Sigma0, state[2], "prior covariances"), (s.lambda_val, state[3], "noise variance"),
                         (s.dmu, dmu, "largest change")):
        got = np.asarray(got)
        same(got, np.asarray(want), f"{w} after {it} steps", rtol=1e-5, atol=1e-6)
    if case["a"] != "np":
        require(np.all(mu[~act] == 0) and np.all(np.asarray(s.gammas)[~act] == 0), "a pruned block is not zero")
    return it >= 2 and (case["a"] == "np" or act.sum() >= 1)


RULE = ("drawn sensing matrices, block lengths, noise rules, pruning thresholds and options; reference = the published BSBL step (posterior block moments, AR(1) "
        "correlation, noise and gamma updates) replayed in numpy, all state fields compared; non-trivial = at least two steps")
for _a in ALGOS:
    sub("C22", "step_" + _a, gen(_a), 80, RULE)(body)


def nll(P, y, b, gam, Sig, lam, thr):
    S = lam * np.eye(len(y))
    for i, g in enumerate(gam):
        if g > thr:
            Pi = P[:, i * b:(i + 1) * b]
            S += Pi @ Sig[i] @ Pi.T
    return np.linalg.slogdet(S)[1] + y @ np.linalg.solve(S, y)


@st.composite
def gen_ml(draw):
    c = draw(gen(draw(st.sampled_from(["em", "em", "bo", "np"]))))
    c["corr"], c["prune"], c["eps"] = 0, 0.0, 0.0
    c["ll"] = 0
    c["noise"] = draw(st.sampled_from([0.05, 0.3]))
    c["lam"] = draw(st.sampled_from([1e-2, 0.3]))
    c["k0"] = draw(st.sampled_from([0, 1, 2, 5, 12]))
    c["jit"] = True
    return c


@sub("C22", "likelihood", gen_ml(), 60, "no pruning, no correlation: the marginal likelihood log|Sy| + y' Sy^-1 y never gets worse from k to k+1 iterations (EM and BO, "
     "fixed noise); non-trivial = it improves")
def t_ml(case):
    P, x, y = data(case)
    b = case["b"]
    v = []
    for k in (case["k0"], case["k0"] + 1):
        s = solver(case)(J(P), J(y), b, bsbl.BSBL_Options(learn_block_corr=0, learn_lambda=case["ll"], prune_gamma=0.0, lambda_val=case["lam"], max_iters=k, epsilon=0.0))
        require(int(s.iterations) == k, "iterations", got=int(s.iterations), want=k)
        g = np.asarray(s.gammas)
        finite(g, "gammas")
        require(np.all(g >= 0), "negative gamma", g=g)
        if k and not float(s.lambda_val) > 1e-7:
            return False
        v.append(nll(P, y, b, g, np.asarray(s.Sigma0), float(s.lambda_val), -1.0))
    require(v[1] <= v[0] + 1e-7 * (1 + abs(v[0])), "an iteration made the marginal likelihood worse", before=v[0], after=v[1])
    return v[1] < v[0] - 1e-9


@st.composite
def gen_rec(draw):
    m, n, b, k = draw(st.sampled_from([(20, 40, 4, 2), (30, 48, 4, 2), (24, 40, 5, 1), (24, 48, 3, 3)]))
    a = draw(st.sampled_from(ALGOS))
    return {"a": a, "m": m, "n": n, "b": b, "k": k, "us": draw(SEED), "noise": 0.0, "ll": draw(st.sampled_from([0, 0, 1, 2])), "scale": draw(st.sampled_from([1.0, 30.0])),
            "corr": draw(st.sampled_from([1, 1, 0])), "jit": True, "dflt": draw(st.booleans())}


@sub("C22", "recover", gen_rec(), 50, "block sparse vectors (all block norms comparable) with at least twice as many measurements as non-zeros, helper options: recovered; with the noise rules, noise of 1 % "
     "is added and the error stays below 30 %; oracle = the planted vector; non-trivial = all")
def t_rec(case):
    rng = np.random.RandomState(case["us"])
    m, n, b = case["m"], case["n"], case["b"]
    nb = n // b
    P = rng.standard_normal((m, n)) / np.sqrt(m)
    x = np.zeros((nb, b))
    v = np.cumsum(rng.standard_normal((case["k"], b)), axis=1)
    x[rng.permutation(nb)[:case["k"]]] = v / np.linalg.norm(v, axis=1)[:, None] * rng.uniform(2, 5, (case["k"], 1))
    x = case["scale"] * x.ravel()
    y = P @ x
    if case["ll"]:
        e = rng.standard_normal(m)
        y = y + 0.01 * np.linalg.norm(y) * e / np.linalg.norm(e)
    mk = bsbl.bsbl_em_options if case["a"] == "em" else bsbl.bsbl_bo_options
    kw = {} if case["dflt"] else {"y": J(y)}
    corr = 0 if case["ll"] == 2 else case["corr"]
    s = solver(case)(J(P), J(y), b, mk(learn_lambda=case["ll"], learn_block_corr=corr, **kw))
    z = np.asarray(s.x)
    finite(z, "x")
    err = np.linalg.norm(z - x) / np.linalg.norm(x)
    require(err <= (1e-4 if case["ll"] == 0 else 0.3), "the block sparse vector was not recovered", err=err, it=int(s.iterations))
    return True


@sub("C22", "util", st.fixed_dictionaries({"b": st.integers(1, 6), "c": st.integers(1, 6), "us": SEED}), 40,
     "start and end locations of equal blocks, option helpers; reference = arithmetic; non-trivial = more than one block")
def t_util(case):
    b, c = case["b"], case["c"]
    s, e = np.asarray(blk.start_locations(b * c, b)), np.asarray(blk.end_locations(b * c, b))
    same(s, np.arange(c) * b, "start locations")
    same(e, np.arange(c) * b + b - 1, "end locations")
    y = np.random.RandomState(case["us"]).standard_normal(b + 1)
    for mk, mi, sc in ((bsbl.bsbl_em_options, 800, None), (bsbl.bsbl_bo_options, 300, np.std(y))):
        for ll in (0, 1, 2):
            o = mk(y=J(y), learn_lambda=ll)
            require(o.learn_lambda == ll and o.max_iters == mi and o.epsilon == 1e-8 and o.learn_block_corr == 1, "defaults", o=o)
            lam = 1e-12 if ll == 0 else (1e-3 if sc is None else sc * 1e-2)
            same(float(o.lambda_val), lam, "default noise variance", atol=0)
            same(float(o.prune_gamma), 1e-3 if ll == 0 else 1e-2, "default pruning threshold", atol=0)
    return c > 1
