"""C28: problem generators, the evaluation framework and trackers."""
import contextlib
import io
import os
import tempfile
from typing import NamedTuple
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import cr.sparse as crs
import cr.sparse.lop as lop
import cr.sparse.problems as problems
from cr.sparse.ef import RecoveryPerformance, RecoveryTrialsAtFixed_M_N
from cr.sparse._src.pursuit import phasetransition as pt

from harness.core import Fail, sub, require
from harness.g import same, finite, SEED

J = jnp.asarray

NAMES = ['heavi-sine:fourier:heavi-side', 'blocks:haar', 'cosine-spikes:dirac-dct', 'complex:sinusoid-spikes:dirac-fourier', 'cosine-spikes:dirac-dct:gaussian',
         'piecewise-cubic-poly:daubechies:gaussian', 'signed-spikes:dirac:gaussian', 'complex:signed-spikes:dirac:gaussian', 'blocks:heavi-side',
         'blocks:normalized-heavi-side', 'gaussian-spikes:dirac:gaussian']


class Full(NamedTuple):
    x: object
    iterations: int = 0


class Sparse(NamedTuple):
    x_I: object
    I: object
    iterations: int = 0


@st.composite
def gen_prob(draw):
    nm = draw(st.sampled_from(NAMES))
    n = draw(st.sampled_from([64, 128, 256]))
    a = {}
    if "spikes" in nm:
        a["k"] = draw(st.integers(1, 12))
    if "cosine" in nm or "sinusoid" in nm:
        a["c"] = draw(st.integers(1, 5))
    if nm.endswith("gaussian"):
        a["m"] = draw(st.integers(10, n // 2))
    if "piecewise" in nm:
        a["p"] = draw(st.integers(1, 6))
        a["level"] = draw(st.integers(1, 3))
    sc = 1
    if nm in NAMES[6:8] + NAMES[10:]:
        sc = draw(st.sampled_from([1, 1, 0.5, 2]))
        a["scale"] = sc
    a["n"] = n
    return {"name": nm, "args": a, "us": draw(SEED), "plot": draw(st.sampled_from([False, False, False, True])), "v": draw(SEED)}


@sub("C28", "problems", gen_prob(), 70, "every generator (prob401 needs a download and is left out) with drawn sizes, sparsity, keys: b = A x, A = Phi Psi on drawn vectors (forward and adjoint), reconstruct(x) = Psi x = y, b = Phi y, the "
     "promised number and kind of non-zeros, requested sizes, same key same problem, other key other problem for the random ones, all figures drawn; non-trivial = randomised problem")
def t_prob(case):
    nm, a = case["name"], case["args"]
    require(nm in problems.names() and problems.names() == sorted(problems.names()), "names lists the problem")
    key = jax.random.PRNGKey(case["us"])
    P = problems.generate(nm, key, **a)
    require(P.name == nm, "name", got=P.name)
    sc = a.get("scale", 1)
    n = round(sc * a["n"])
    x, b = np.asarray(P.x), np.asarray(P.b)
    m = round(sc * a["m"]) if "m" in a else n
    require(b.shape == (m,), "number of measurements", got=b.shape)
    require(P.A.shape == (m, x.size) and P.Phi.shape == (m, n) and P.Psi.shape == (n, x.size), "operator shapes", A=P.A.shape, Phi=P.Phi.shape, Psi=P.Psi.shape)
    rng = np.random.default_rng(case["v"])
    s = np.abs(b).max()
    same(np.asarray(P.A.times(J(x))), b.astype(np.asarray(P.A.times(J(x))).dtype), "b = A x", scale=s, rtol=1e-6)
    v = rng.standard_normal(x.size)
    same(P.A.times(J(v)), P.Phi.times(P.Psi.times(J(v))), "A = Phi Psi", rtol=1e-8)
    u = rng.standard_normal(m)
    same(P.A.trans(J(u)), P.Psi.trans(P.Phi.trans(J(u))), "A^H = Psi^H Phi^H", rtol=1e-8)
    sig = np.asarray(P.Psi.times(J(x)))
    got = np.asarray(P.reconstruct(J(x)))
    same(got, sig if np.iscomplexobj(got) else sig.real, "reconstruct(x) = Psi x", rtol=1e-7)
    if P.y is not None:
        same(np.asarray(P.y), got, "y = Psi x", rtol=1e-6, scale=s)
        same(P.Phi.times(P.y), b, "b = Phi y", rtol=1e-6, scale=s)
    require(P.both == (nm in (NAMES[4], NAMES[5])), "the flag for problems with both a sensing matrix and a dictionary", both=P.both)
    nz = np.count_nonzero(x)
    k = max(1, round(sc * a["k"])) if "k" in a else None
    if "cosine" in nm or "sinusoid" in nm:
        require(np.count_nonzero(x[:n]) == k and np.count_nonzero(x[n:]) == a["c"], "k spikes and c sinusoids", nz=nz)
    elif "spikes" in nm:
        require(nz == k, "k spikes", nz=nz, k=k)
        w = x[x != 0]
        if "signed" in nm:
            require(bool(np.all(np.abs(w.real) == 1) and (np.all(np.abs(w.imag) == 1) if nm.startswith("complex") else not np.iscomplexobj(w))), "signed spikes", w=w)
    elif "heavi-side" in nm:
        lim = 30 if nm.startswith("blocks") else 12
        require(np.sum(np.abs(x) > 1e-6 * np.abs(x).max()) <= lim, "few significant coefficients", got=int(np.sum(np.abs(x) > 1e-6 * np.abs(x).max())))
    elif "haar" in nm:
        require(np.sum(np.abs(x) > 1e-6 * np.abs(x).max()) <= n // 2 + 12, "few significant coefficients")
    if "piecewise" in nm:
        y = np.asarray(P.y)
        d4 = np.abs(np.diff(y, 4))
        require(np.sum(d4 > 1e-7 * (1 + np.abs(y).max())) <= 4 * (a["p"] - 1), "at most p cubic pieces", n=int(np.sum(d4 > 1e-7 * (1 + np.abs(y).max()))))
    Q = problems.generate(nm, key, **a)
    same(np.asarray(Q.b), b, "same key, same problem", rtol=1e-12)
    rnd = not ("blocks" in nm or "heavi-sine" in nm)
    if rnd:
        Q = problems.generate(nm, jax.random.PRNGKey(case["us"] + 1), **a)
        require(not np.allclose(np.asarray(Q.b), b), "another key gives another problem")
    if case["plot"]:
        fig, ax = problems.plot(P)
        require(len(ax) == len(P.figures), "one axis per figure")
        for t, z in zip(P.figures, ax):
            require(z.get_title() == t and z.has_data(), "figure drawn with its title", t=t)
        plt.close(fig)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        problems.analyze_solution(P, Full(x=P.x, iterations=7))
    o = out.getvalue()
    require(f"m: {m}, n: {x.size}" in o and "Iterations: 7" in o and "ratio: 1.000" in o, "analyze_solution reports the exact solution as exact", out=o[:300])
    return rnd


@sub("C28", "names", st.fixed_dictionaries({"s": st.text(min_size=0, max_size=8)}), 25, "an unknown problem name is refused; non-trivial = all")
def t_names(case):
    if case["s"] in problems.names():
        return False
    try:
        problems.generate(case["s"])
    except (AssertionError, KeyError, ValueError):
        return True
    raise Fail("an unknown problem name was accepted")


@st.composite
def gen_perf(draw):
    n = draw(st.one_of(st.integers(4, 16), st.integers(4, 16), st.integers(4, 16), st.just(40)))
    k = draw(st.integers(1, n // 2))
    if n >= 8 and draw(st.integers(0, 5)) == 0:
        # a support ratio of exactly 3/4 (or just above) together with a high SNR
        k = draw(st.sampled_from([4, 4, 5]))
        return {"m": draw(st.integers(2, 12)), "n": max(n, 10), "k": k, "us": draw(SEED), "err": 1e-4, "swap": 1, "how": draw(st.sampled_from(["x_hat", "full", "sparse"])), "op": draw(st.booleans()), "dense": False, "tiny": 1}
    return {"m": draw(st.integers(2, 12)), "n": n, "k": k, "us": draw(SEED), "err": draw(st.sampled_from([1e-4, 0.01, 0.02, 0.05, 0.3, 3.0])), "swap": draw(st.integers(0, k)),
            "how": draw(st.sampled_from(["x_hat", "full", "sparse"])), "op": draw(st.booleans()), "dense": draw(st.booleans())}


@sub("C28", "performance", gen_perf(), 160, "drawn sensing matrices or operators, K-sparse x and estimates with errors and wrong atoms, passed as vector, full solution or sparse solution: every field of RecoveryPerformance against numpy "
     "(norms, SNRs, supports, error split over T0 / T1 / rest, overlap, success rule); non-trivial = some wrong atoms")
def t_perf(case):
    rng = np.random.default_rng(case["us"])
    m, n, k = case["m"], case["n"], case["k"]
    Phi = rng.standard_normal((m, n))
    x = np.zeros(n)
    T = rng.permutation(n)
    x[T[:k]] = rng.choice([-1.0, 1.0], k) * (1 + rng.random(k))
    if case.get("tiny"):
        x[T[:case["tiny"]]] *= 1e-4
    y = Phi @ x
    xh = np.zeros(n)
    xh[T[:k]] = x[T[:k]] + case["err"] * rng.standard_normal(k)
    for q in range(min(case["swap"], n - k)):
        xh[T[k + q]], xh[T[q]] = xh[T[q]], 0
    if case["dense"] and case["how"] != "sparse":
        xh = xh + 1e-3 * case["err"] * rng.standard_normal(n)
    if case["how"] == "x_hat":
        kw = {"x_hat": J(xh)}
    elif case["how"] == "full":
        kw = {"sol": Full(x=J(xh))}
    else:
        I = rng.permutation(np.flatnonzero(xh))
        kw = {"sol": Sparse(x_I=J(xh[I]), I=J(I))}
    p = RecoveryPerformance(lop.matrix(J(Phi)) if case["op"] else J(Phi), J(y), J(x), **kw)
    require((p.M, p.N, p.K) == (m, n, k), "M, N, K", got=(p.M, p.N, p.K))
    h, r = x - xh, y - Phi @ xh
    nrm = np.linalg.norm
    for f, v in (("x_norm", nrm(x)), ("y_norm", nrm(y)), ("x_hat_norm", nrm(xh)), ("h", h), ("h_norm", nrm(h)), ("r", r), ("r_norm", nrm(r)), ("recovery_snr", 20 * np.log10(nrm(x) / nrm(h))),
                 ("measurement_snr", 20 * np.log10(nrm(y) / nrm(r))), ("h_by_r_norms", nrm(h) / nrm(r))):
        same(getattr(p, f), v, f, rtol=1e-7, atol=1e-9)
    T0 = np.flatnonzero(x)
    same(p.T0, T0, "T0")
    same(p.h_T0, h[T0], "h_T0")
    hc = h.copy()
    hc[T0] = 0
    same(p.h_T0C, hc, "h_T0C")
    same(p.T0C, np.setdiff1d(np.arange(n), T0), "T0C")
    T1 = np.asarray(p.T1)
    require(len(set(T1.tolist())) == k, "T1 has K distinct indices")
    same(np.sort(np.abs(hc[T1])), np.sort(np.abs(hc))[n - k:], "T1 holds the K largest errors off T0")
    same(p.h_T1, h[T1], "h_T1")
    same(p.TRest, np.setdiff1d(np.setdiff1d(np.arange(n), T0), T1), "TRest")
    same(p.h_TRest, h[np.asarray(p.TRest)], "h_TRest")
    R0 = np.asarray(p.R0)
    require(bool(np.all(np.diff(R0) > 0)) and R0.size == k, "R0 sorted with K entries")
    same(np.sort(np.abs(xh[R0])), np.sort(np.abs(xh))[n - k:], "R0 holds the K largest estimates")
    ov = np.intersect1d(T0, R0)
    same(p.overlap, ov, "overlap")
    require(p.num_correct_atoms == ov.size, "num_correct_atoms")
    same(p.support_recovery_ratio, ov.size / k, "support_recovery_ratio")
    require(bool(p.perfect_support_recovery) == (ov.size == k), "perfect_support_recovery")
    snr = 20 * np.log10(nrm(x) / nrm(h))
    require(abs(snr - 30) < 1e-6 or bool(p.success) == (ov.size / k > 0.75 and snr > 30), "success rule", snr=snr, ratio=ov.size / k)
    nzx = np.abs(x[x != 0])
    same(p.x_dr, 20 * np.log10(nzx.max() / nzx.min()), "dynamic range of x", atol=1e-7)
    return 0 < ov.size < k


@st.composite
def gen_trials(draw):
    nd, ns = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    Ks = draw(st.lists(st.integers(1, 5), min_size=1, max_size=3, unique=True))
    return {"nd": nd, "ns": ns, "Ks": Ks, "solvers": draw(st.integers(1, 2)), "out": draw(st.lists(st.sampled_from(["good", "bad", "noisy"]), min_size=1, max_size=7)),
            "it": draw(st.lists(st.integers(0, 50), min_size=1, max_size=5)), "sparse": draw(st.booleans()), "np": draw(st.booleans())}


@sub("C28", "trials", gen_trials(), 25, "recovery trials with recording solvers whose outcomes follow a drawn script (exact, zero, noisy): every trial has its own K-sparse signal (no repeats), num_dict_trials dictionaries per K, every solver gets "
     "the same problems; the rows (counts, success rate, iteration statistics) and the saved CSV match the script; non-trivial = more than one trial per K")
def t_trials(case):
    M, N = 14, 10                                   # tall, so that a solver can find x exactly
    log = {}

    def solver(name):
        seen = log.setdefault(name, [])

        def f(Phi, y, K):
            Phi, y = np.asarray(Phi), np.asarray(y)
            x = np.linalg.lstsq(Phi, y, rcond=None)[0]
            x[np.abs(x) < 1e-9] = 0
            i = len(seen)
            o = case["out"][i % len(case["out"])]
            it = case["it"][i % len(case["it"])]
            seen.append((int(K), Phi, x, o, it))
            if o == "bad":
                x = np.zeros(N)
            if o == "noisy":
                x = x * 1.1
            if case["sparse"]:
                I = np.argsort(-np.abs(x))[:int(K)]
                return Sparse(x_I=J(x[I]), I=J(I), iterations=it)
            return Full(x=J(x), iterations=it)
        return f
    ev = RecoveryTrialsAtFixed_M_N(M=M, N=N, Ks=np.array(case["Ks"]) if case["np"] else case["Ks"], num_dict_trials=case["nd"], num_signal_trials=case["ns"])
    names = [f"S{i}" for i in range(case["solvers"])]
    for nme in names:
        ev.add_solver(nme, solver(nme))
    with tempfile.TemporaryDirectory() as d:
        dest = os.path.join(d, "r.csv")
        with contextlib.redirect_stdout(io.StringIO()):
            ev(dest)
        csv = pd.read_csv(dest)
    df = ev.df
    T = case["nd"] * case["ns"]
    require(len(df) == len(case["Ks"]) * len(names), "one row per solver and sparsity level", got=len(df))
    row = 0
    for nme in names:
        L = log[nme]
        require(len(L) == T * len(case["Ks"]), "number of solver calls", got=len(L))
        for q, K in enumerate(case["Ks"]):
            tr = L[q * T:(q + 1) * T]
            phis = []
            for (k, Phi, x, o, it) in tr:
                require(k == K and Phi.shape == (M, N) and np.count_nonzero(x) == K, "problem of the requested size", k=k, nnz=int(np.count_nonzero(x)))
                if not any(np.array_equal(Phi, z) for z in phis):
                    phis.append(Phi)
            require(len(phis) == case["nd"], "number of dictionaries", got=len(phis))
            for i in range(T):
                for j in range(i):
                    require(not np.allclose(tr[i][2], tr[j][2]), "every trial has its own signal", i=i, j=j)
            good = sum(1 for t in tr if t[3] == "good")
            r = df.iloc[row]
            c = csv.iloc[row]
            its = [t[4] for t in tr]
            for z in (r, c):
                require((z["method"], z["m"], z["n"], z["k"], z["trials"], z["successes"], z["failures"]) == (nme, M, N, K, T, good, T - good), "row counts", got=list(z))
                same(float(z["success_rate"]), good / T, "success rate")
                require((z["min_iters"], z["max_iters"]) == (min(its), max(its)), "iteration range")
                same(float(z["mean_iters"]), np.mean(its), "mean iterations")
                require(float(z["runtime"]) >= 0 and float(z["mean_runtime"]) >= 0, "runtimes")
                if T > 1:
                    same(float(z["mean_runtime"]), float(z["runtime"]) * 1000 / (T - 1), "mean runtime in milliseconds", rtol=1e-6)
            row += 1
    for nme in names[1:]:
        for a, b in zip(log[names[0]], log[nme]):
            require(a[0] == b[0] and np.array_equal(a[1], b[1]) and np.allclose(a[2], b[2]), "all solvers see the same problems")
    return T > 1


@sub("C28", "phase", st.fixed_dictionaries({"e": st.integers(5, 10)}), 6, "every power of two from 32 to 1024: configurations are distinct (K, M) with K = ceil(rho M), eta = M/N, M up to N/2, K <= M/2, and the reverse map covers the grid; non-trivial = all")
def t_phase(case):
    N = 2 ** case["e"]
    with contextlib.redirect_stdout(io.StringIO()):
        C = pt.configuration(N)
    require(C.N == N, "N")
    Ms, etas, rhos = np.asarray(C.Ms), np.asarray(C.etas), np.asarray(C.rhos)
    require(Ms[-1] == N // 2 and bool(np.all(np.diff(Ms) == Ms[0])), "measurement counts up to N/2", Ms=Ms)
    same(etas, Ms / N, "undersampling ratios")
    require(abs(rhos[-1] - 0.5) < 1e-9 and bool(np.all(rhos > 0)), "sparsity ratios up to one half", rhos=rhos)
    seen = set()
    for c in C.configurations:
        require((c.K, c.M) not in seen, "configurations are distinct", K=c.K, M=c.M)
        seen.add((c.K, c.M))
        require(abs(c.eta - c.M / N) < 1e-9 and c.K == int(np.ceil(c.rho * c.M - 1e-9)) and 1 <= c.K <= c.M // 2, "K = ceil(rho M), eta = M/N", c=c)
    require(len(C.reverse_map) == len(Ms) * len(rhos), "reverse map covers the grid", got=len(C.reverse_map))
    for (r, e), (K, M) in C.reverse_map.items():
        require((K, M) in seen and abs(e - M / N) < 1e-9 and K == int(np.ceil(r * M - 1e-9)), "reverse map entries", r=r, e=e, K=K, M=M)
    return True


class StX(NamedTuple):
    x: object
    r: object
    iterations: int


class StI(NamedTuple):
    x_I: object
    I: object
    r_norm_sqr: float
    iterations: int


@st.composite
def gen_track(draw):
    return {"n": draw(st.integers(1, 8)), "steps": draw(st.integers(1, 9)), "every": draw(st.integers(1, 4)), "x0": draw(st.sampled_from(["no", "yes", "exact"])), "sp": draw(st.booleans()), "c": draw(st.booleans()), "us": draw(SEED)}


@sub("C28", "tracker", gen_track(), 120, "drawn histories of full or sparse solver states fed to ProgressTracker: iteration numbers, norms and SNRs are recorded for every state, lines are printed every `every` iterations and at the end; "
     "non-trivial = more than one state and a reference signal")
def t_track(case):
    rng = np.random.default_rng(case["us"])
    n = case["n"]

    def vec(k):
        return rng.standard_normal(k) + (1j * rng.standard_normal(k) if case["c"] else 0)
    x0 = vec(n)
    tr = crs.ProgressTracker(x0=None if case["x0"] == "no" else J(x0), every=case["every"])
    xs, rs, out = [], [], io.StringIO()
    with contextlib.redirect_stdout(out):
        for i in range(case["steps"]):
            x = x0.copy() if case["x0"] == "exact" else vec(n)
            r = vec(4)
            if case["sp"]:
                I = rng.permutation(n)[:rng.integers(1, n + 1)]
                f = np.zeros(n, x.dtype)
                f[I] = x[I]
                s = StI(x_I=J(x[I]), I=J(I), r_norm_sqr=float(np.vdot(r, r).real), iterations=i)
                x = f
            else:
                s = StX(x=J(x), r=J(r), iterations=i)
            xs.append(x)
            rs.append(r)
            tr(s, more=i < case["steps"] - 1)
    require(list(tr.iterations) == list(range(case["steps"])), "iteration numbers")
    same(np.array(tr.x_norms, float), np.array([np.linalg.norm(x) for x in xs]), "norms of x")
    same(np.array(tr.r_norms, float), np.array([np.linalg.norm(r) for r in rs]), "norms of r")
    if case["x0"] == "no":
        require(len(tr.snrs) == 0, "no SNR without a reference")
    else:
        require(len(tr.snrs) == case["steps"], "an SNR per state")
        finite(np.array(tr.snrs, float), "SNR")
        for x, s in zip(xs, tr.snrs):
            e = np.linalg.norm(x0 - x)
            if e:
                same(s, 20 * np.log10(np.linalg.norm(x0) / e), "SNR", rtol=1e-6, atol=1e-6)
    lines = [z for z in out.getvalue().splitlines() if z.startswith("[")]
    want = [i for i in range(case["steps"]) if i % case["every"] == 0 or i == case["steps"] - 1]
    require([int(z[1:z.index("]")]) for z in lines] == want, "printed iterations", lines=lines[:4])
    require(("SNR" in lines[0]) == (case["x0"] != "no") and "converged" in out.getvalue(), "printed report")
    return case["steps"] > 1 and case["x0"] != "no"
