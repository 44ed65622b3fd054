"""C29: trackers see every state in the units of the problem; results and analyses print their own numbers; plots draw the signal."""
import contextlib
import io
import math
import re
from typing import NamedTuple
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import cr.sparse as crs
import cr.sparse.lop as lop
import cr.sparse.opt as opt
import cr.sparse.sls as sls
import cr.sparse.fom as fom
import cr.sparse.problems as problems
import cr.sparse.plots as crplot
import cr.sparse.block.bsbl as bsbl
import cr.sparse.cluster as cluster
import cr.sparse.cluster.ssc as ssc
import cr.sparse.cvx.focuss as focuss
import cr.sparse.cvx.l1ls as l1ls
import cr.sparse.cvx.spgl1 as spgl1
import cr.sparse.cvx.adm.yall1 as yall1
import cr.sparse.opt.spg as spg
from cr.sparse.ef import RecoveryPerformance
from cr.sparse.pursuit import cosamp, htp, iht, mp, omp, sp

from harness.core import sub, require
from harness.g import same, SEED

J = jnp.asarray
NUM = re.compile(r"(?<![\w/])([A-Za-z_]\w*)\s*[=:]?\s*([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan))(?![\w.])")


def report(text):
    """every 'name number' pair of a report, in order"""
    return [(k, v) for k, v in NUM.findall(text)]


def shows(v, want):
    """the printed decimal v is the rounded value want"""
    want = complex(want)
    if abs(want.imag) > 1e-9 * (abs(want) + 1e-300):
        return True     # complex numbers are not parsed
    w = want.real
    if v in ("inf", "+inf", "-inf", "nan"):
        return not math.isfinite(w)
    man, _, ex = v.lower().partition("e")
    dec = len(man.partition(".")[2])
    unit = 10.0 ** (-dec + (int(ex) if ex else 0))
    return abs(float(v) - w) <= 0.501 * unit + 1e-6 * abs(w)


def check_report(text, want, what, need=()):
    rep = report(text)
    names = [k for k, _ in rep]
    for k in need:
        require(k in names, f"{what}: the report names {k}", text=text[:300])
    for k, v in rep:
        if k in want:
            require(shows(v, want[k]), f"{what}: the printed {k} is that of the result", printed=v, want=want[k], text=text[:300])
    return len([k for k in names if k in want])


def printed(f, *a, **k):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        f(*a, **k)
        jax.effects_barrier()
    return o.getvalue()


# ------------------------------------------------------------ trackers on real solvers
@st.composite
def gen_track(draw):
    m, n, K = draw(st.sampled_from([(12, 20, 2), (12, 20, 3), (20, 32, 4)]))
    w = draw(st.sampled_from(["mp", "mpm", "sp", "spj", "cosamp", "lasso", "bpic", "bp"]))
    return {"w": w, "m": m, "n": n, "K": K, "us": draw(SEED), "sc": draw(st.sampled_from([0.02, 1.0, 5.0, 80.0])), "noise": draw(st.sampled_from([0.0, 0.05])),
            "cx": draw(st.booleans()) if w not in ("mp", "mpm") else False, "every": draw(st.integers(1, 4)), "mi": draw(st.sampled_from([1, 2, 6, 30])), "ref": draw(st.booleans())}


def setup(case):
    m, n, K = case["m"], case["n"], case["K"]
    rng = np.random.default_rng(case["us"])

    def z(*s):
        return rng.standard_normal(s) + (1j * rng.standard_normal(s) if case["cx"] else 0)
    A = z(m, n)
    A = A / np.linalg.norm(A, axis=0)
    x0 = np.zeros(n, A.dtype)
    x0[rng.permutation(n)[:K]] = z(K) + 1
    x0 = x0 * case["sc"]
    b = A @ x0 + case["noise"] * case["sc"] * z(m)
    return A, x0, b


@sub("C29", "tracker", gen_track(), 45, "MP (operator, matrix), SP (plain, jitted), CoSaMP, SPGL1 (LASSO, BPIC, BP), real and complex data of any scale, with a recording tracker and a ProgressTracker: consecutive iteration numbers, every state has "
     "r = y - Phi x in the units of y, `more` is false for the last state only, the last state is the returned solution, the recorded norms and SNRs are those of the states, and only due lines are printed; non-trivial = more than two states")
def t_track(case):
    A, x0, b = setup(case)
    w, mi = case["w"], case["mi"]
    T = A if w == "mpm" else lop.matrix(J(A))
    Aj = J(A)
    states = []
    pt = crs.ProgressTracker(x0=x0 if case["ref"] else None, every=case["every"])

    def tracker(state, more=False):
        states.append((jax.tree_util.tree_map(np.asarray, state), bool(more)))
        pt(state, more)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        K, y = case["K"], J(b)
        if w in ("mp", "mpm"):
            s = mp.solve(T, y, max_iters=mi, tracker=tracker) if w == "mp" else mp.matrix_solve(Aj, y, max_iters=mi, tracker=tracker)
        elif w == "sp":
            s = sp.operator_solve(T, y, K, max_iters=mi, tracker=tracker)
        elif w == "spj":
            s = sp.operator_solve_jit(T, y, K, max_iters=mi, tracker=tracker)
        elif w == "cosamp":
            s = cosamp.operator_solve(T, y, K, max_iters=mi, tracker=tracker)
        else:
            o = spgl1.SPGL1Options(max_iters=mi)
            if w == "lasso":
                s = spgl1.solve_lasso(T, y, 0.7 * np.abs(x0).sum(), options=o, tracker=tracker)
            elif w == "bpic":
                s = spgl1.solve_bpic(T, y, 0.1 * np.linalg.norm(b), options=o, tracker=tracker)
            else:
                s = spgl1.solve_bp(T, y, options=o, tracker=tracker)
        jax.effects_barrier()
    its = [int(t.iterations) for t, _ in states]
    require(len(its) >= 1 and its == list(range(its[0], its[0] + len(its))), "the tracker is called for consecutive states", its=its[:8])
    require([f for _, f in states] == [True] * (len(states) - 1) + [False], "more is false for the last state and only for it", got=[f for _, f in states][:8])
    require(its[-1] == int(s.iterations), "the last tracked state is the returned one", got=its[-1], want=int(s.iterations))
    bn = np.linalg.norm(b)
    for k, (t, _) in enumerate(states):
        if hasattr(t, "I") and not hasattr(t, "f_past") and w not in ("mp", "mpm"):
            x = np.zeros(case["n"], A.dtype)
            x[t.I] = t.x_I
        else:
            x = t.x
        r = b - A @ x
        require(np.linalg.norm(np.asarray(t.r) - r) <= 1e-8 * bn, "the residual shown to the tracker is b - A x of the x shown to it", k=k, err=np.linalg.norm(t.r - r) / bn)
        require(abs(float(pt.r_norms[k]) - np.linalg.norm(r)) <= 1e-6 * bn, "recorded residual norm", got=float(pt.r_norms[k]), want=np.linalg.norm(r))
        require(abs(float(pt.x_norms[k]) - np.linalg.norm(x)) <= 1e-9 * np.linalg.norm(x), "recorded norm of x", got=float(pt.x_norms[k]), want=np.linalg.norm(x))
        e = np.linalg.norm(x0 - x)
        if case["ref"] and e > 1e-9 * np.linalg.norm(x0):
            same(float(pt.snrs[k]), 20 * np.log10(np.linalg.norm(x0) / e), "recorded SNR", rtol=1e-6, atol=1e-5)
    require(np.linalg.norm(np.asarray(s.x) - x) <= 1e-9 * max(np.linalg.norm(x), bn), "the last tracked x is the returned x", got=np.linalg.norm(np.asarray(s.x) - x))
    lines = [z for z in out.getvalue().splitlines() if z.startswith("[")]
    want = [i for i in its if i % case["every"] == 0 or i == its[-1]]
    require([int(z[1:z.index("]")]) for z in lines] == want, "printed iterations", lines=lines[:4], want=want)
    require(out.getvalue().count("converged") == 1, "convergence is announced once", got=out.getvalue().count("converged"))
    return len(its) > 2


# ------------------------------------------------------------ str of results
NAMES = ["omp", "omp_op", "sp", "cosamp", "htp", "iht", "mp", "focuss", "l1ls", "yall1", "lsqr", "lasso", "bpic", "bsbl_em", "bsbl_bo", "fom", "fomopt", "spg", "cerr", "spr"]


@st.composite
def gen_str(draw):
    w = draw(st.sampled_from(NAMES))
    m, n, K = draw(st.sampled_from([(12, 20, 2), (16, 24, 3)]))
    return {"w": w, "m": m, "n": n, "K": K, "us": draw(SEED), "sc": draw(st.sampled_from([0.05, 1.0, 30.0])), "noise": 0.05,
            "cx": draw(st.booleans()) if w in ("omp_op", "sp", "cosamp", "lsqr", "lasso", "bpic") else False, "mi": draw(st.sampled_from([1, 3, 8]))}


@sub("C29", "str", gen_str(), 66, "every result type of the solvers (20 kinds, real and complex): str() works and each named number in it is the rounded value of that quantity of the result; non-trivial = two numbers recognised")
def t_str(case):
    A, x0, b = setup(case)
    w, mi, K = case["w"], case["mi"], case["K"]
    m, n = A.shape
    T, y = lop.matrix(J(A)), J(b)
    nrm = np.linalg.norm
    want = {}
    need = ("iterations",)
    if w in ("omp", "omp_op", "sp", "cosamp", "htp", "iht", "mp"):
        s = {"omp": lambda: omp.matrix_solve(J(A), y, K), "omp_op": lambda: omp.operator_solve(T, y, K), "sp": lambda: sp.operator_solve(T, y, K, max_iters=mi),
             "cosamp": lambda: cosamp.operator_solve(T, y, K, max_iters=mi), "htp": lambda: htp.matrix_solve(J(A), y, K, max_iters=mi),
             "iht": lambda: iht.matrix_solve(J(A), y, K, max_iters=mi), "mp": lambda: mp.solve(T, y, max_iters=mi)}[w]()
        x = np.asarray(s.x)
        want = dict(iterations=int(s.iterations), m=m, n=n, r_norm=nrm(b - A @ x), x_norm=nrm(x), k=len(np.asarray(s.I)))
        need = ("iterations", "m", "n", "r_norm", "x_norm")
    elif w == "focuss":
        s = focuss.matrix_solve_noiseless(J(A), y, p=0.5, max_iters=mi)
        want = dict(iterations=int(s.iterations), m=m, n=n, x_norm=nrm(np.asarray(s.x)), k=len(np.asarray(s.I)))
    elif w == "l1ls":
        s = l1ls.solve(T, y, 0.1 * np.abs(A.T @ b).max(), max_iters=mi)
        want = dict(iterations=int(s.iterations), n_times=int(s.n_times), n_trans=int(s.n_trans), r_norm=nrm(b - A @ np.asarray(s.x)))
        need = tuple(want)
    elif w == "yall1":
        Q = np.linalg.qr(A.T)[0].T
        s = yall1.solve(lop.matrix(J(Q)), J(Q @ x0), rho=0.05 * case["sc"], max_iters=mi)
        want = dict(iterations=int(s.iterations), n_times=int(s.n_times), n_trans=int(s.n_trans), r_norm=nrm(Q @ x0 - Q @ np.asarray(s.x)))
    elif w == "lsqr":
        s = sls.lsqr(T, y, jnp.zeros(n, A.dtype), max_iters=mi)
        want = {f: float(np.real(getattr(s, f))) for f in ("A_norm", "A_cond", "x_norm", "r_norm", "atr_norm", "iterations", "n_times", "n_trans")}
    elif w in ("lasso", "bpic"):
        o = spgl1.SPGL1Options(max_iters=mi)
        s = spgl1.solve_lasso(T, y, 0.7 * np.abs(x0).sum(), options=o) if w == "lasso" else spgl1.solve_bpic(T, y, 0.1 * nrm(b), options=o)
        r = b - A @ np.asarray(s.x)
        want = dict(f_val=0.5 * nrm(r) ** 2, g_norm=nrm(A.conj().T @ r), r_norm=nrm(r), r_gap=float(np.real(s.r_gap)), lsi=int(s.n_ls_iters), alpha=float(s.alpha), alpha_n=float(s.alpha_next))
        if w == "bpic":
            want["tau"] = float(s.tau)
        need = ("f_val", "r_norm")
        require(f"[{int(s.iterations)}]" in str(s), "iteration number in the report", text=str(s)[:80])
    elif w in ("bsbl_em", "bsbl_bo"):
        s = (bsbl.bsbl_em if w == "bsbl_em" else bsbl.bsbl_bo)(J(A), y, 4, options=(bsbl.bsbl_em_options if w == "bsbl_em" else bsbl.bsbl_bo_options)(y, max_iters=mi))
        x = np.asarray(s.x)
        want = dict(iterations=int(s.iterations), size=4, blocks=n // 4, nonzero=int((np.asarray(s.gammas) > 0).sum()), r_norm=nrm(b - A @ x), x_norm=nrm(x), dmu=float(s.dmu))
        want["lambda"] = float(s.lambda_val)
    elif w == "fom":
        s = fom.l1rls(T, y, 0.1 * case["sc"], jnp.zeros(n), fom.FomOptions(max_iters=mi))
        want = {f: float(getattr(s, f)) for f in ("L", "theta", "f_x", "f_y", "f_z", "C_x", "C_y", "C_z", "norm_x", "norm_dx", "iterations")}
        check_report(s.at_str, want, "fom.at_str", need)
    elif w == "fomopt":
        s = fom.FomOptions(max_iters=mi, tol=10.0 ** -mi, L0=float(mi) + 0.5, alpha=0.25, beta=0.5, mu=0.1 * mi)
        want = dict(max_iters=mi, tol=10.0 ** -mi, L0=mi + 0.5, alpha=0.25, beta=0.5, mu=0.1 * mi)
        need = tuple(want)
    elif w == "spg":
        f = opt.smooth_quad_matrix(J(A.T @ A + np.eye(n)), J(A.T @ b))
        s = spg.solve(f, opt.proj_box(-case["sc"], case["sc"]), jnp.zeros(n), options=spg.SPGOptions(max_iters=mi)) if hasattr(spg, "solve") else \
            spg.solve_from(f, opt.proj_box(-case["sc"], case["sc"]), jnp.zeros(n), options=spg.SPGOptions(max_iters=mi))
        want = dict(iterations=int(s.iterations), f_calls=int(s.f_calls), delta=float(s.delta))
    elif w == "cerr":
        rng = np.random.default_rng(case["us"])
        t, p = rng.integers(0, K, n), rng.integers(0, K, n)
        t[:K] = p[:K] = np.arange(K)
        s = cluster.clustering_error(J(t), J(p))
        want = dict(num_missed=int(s.num_missed), error=float(s.error), error_perc=float(s.error_perc))
        need = tuple(want)
        require(abs(float(s.error) - int(s.num_missed) / n) < 1e-6 and abs(float(s.error_perc) - 100 * int(s.num_missed) / n) < 1e-4, "error fields agree")
    else:
        rng = np.random.default_rng(case["us"])
        C = rng.standard_normal((n, n)) * (rng.random((n, n)) < 0.3)
        labels = np.arange(n) % K
        s = ssc.subspace_preservation_stats(J(C), J(labels))
        want = dict(spr_error=float(s.spr_error), spr_perc=float(s.spr_perc))
        need = tuple(want)
    text = str(s)
    k = check_report(text, want, w, need)
    if w not in ("fomopt", "cerr", "spr", "lasso", "bpic"):
        o = printed(crs.print_tracker, s, True)
        require(o == text + "\n", "print_tracker prints the state", got=o[:100])
        o = printed(crs.print_tracker, s)
        require(o.startswith(text) and f"converged in {s.iterations} iterations" in o, "print_tracker announces the end", got=o[-100:])
    return k >= 2


# ------------------------------------------------------------ analyses
@st.composite
def gen_an(draw):
    return {"w": draw(st.sampled_from(["perf", "solution", "lasso", "bpic"])), "m": draw(st.integers(6, 20)), "n": draw(st.integers(20, 40)), "K": draw(st.integers(1, 6)), "us": draw(SEED), "sc": draw(st.sampled_from([0.3, 1.0, 20.0])),
            "noise": draw(st.sampled_from([0.0, 0.02])), "cx": draw(st.booleans()), "perc": draw(st.sampled_from([99.9, 99.0, 80.0])), "wrong": draw(st.integers(0, 3)), "err": draw(st.sampled_from([1e-6, 1e-3, 0.1])), "both": draw(st.booleans())}


class Full(NamedTuple):
    x: object
    iterations: int = 0
    n_times: int = 0
    n_trans: int = 0


class Prob(NamedTuple):
    A: object
    b: object
    x: object
    y: object
    both: bool
    reconstruct: object


def db(a, e):
    return 20 * np.log10(np.linalg.norm(a) / np.linalg.norm(e))


def pairs(text, name):
    return [v for k, v in report(text) if k == name]


@sub("C29", "analysis", gen_an(), 50, "RecoveryPerformance.print, problems.analyze_solution and SPGL1's analyze functions for drawn problems and inexact estimates with wrong atoms: every printed norm, SNR, count and ratio is the numpy value; "
     "non-trivial = wrong atoms or a solver run")
def t_an(case):
    if case["w"] in ("lasso", "bpic"):
        case = dict(case, m=12, n=24, K=2)
    A, x0, b = setup(case)
    m, n = A.shape
    rng = np.random.default_rng(case["us"] ^ 77)
    nrm = np.linalg.norm
    x = x0 + case["err"] * nrm(x0) * np.where(x0 != 0, rng.standard_normal(n), 0)
    off = rng.permutation(np.flatnonzero(x0 == 0))[:case["wrong"]]
    x[off] = case["err"] * nrm(x0) * 3
    T = lop.matrix(J(A))
    if case["w"] == "perf":
        P = RecoveryPerformance(T, J(b), J(x0), x_hat=J(x))
        o = printed(P.print, details=case["both"])
        want = dict(M=m, N=n, K=case["K"], x_norm=nrm(x0), y_norm=nrm(b), x_hat_norm=nrm(x), h_norm=nrm(x0 - x), r_norm=nrm(b - A @ x), recovery_snr=db(x0, x0 - x), measurement_snr=db(b, b - A @ x))
        check_report(o, want, "RecoveryPerformance.print", tuple(want))
        return case["wrong"] > 0
    if case["w"] == "solution":
        Q = np.linalg.qr(rng.standard_normal((n, n)))[0]
        P = Prob(A=T, b=J(b), x=J(x0), y=J(Q @ x0), both=case["both"], reconstruct=lambda v: J(Q) @ v)
        if nrm(b - A @ x) == 0:
            return False
        o = printed(problems.analyze_solution, P, Full(x=J(x), iterations=13, n_times=5, n_trans=6), perc=case["perc"])

        def count(v):
            e = np.sort(np.abs(v) ** 2)[::-1]
            c = 100 * np.cumsum(e) / e.sum()
            if np.any(np.abs(c - case["perc"]) < 1e-6):
                return None, None
            k = int(np.argmax(c >= case["perc"])) + 1
            a = np.sort(np.abs(v))[::-1]
            if k < n and a[k - 1] - a[k] < 1e-9 * a[0]:
                return None, None
            return k, set(np.argsort(-np.abs(v), kind="stable")[:k].tolist())
        (k1, s1), (k2, s2) = count(x0), count(x)
        want = dict(m=m, n=n, Iterations=13, n_times=5, n_trans=6)
        if k1 and k2:
            c = len(s1 & s2)
            want.update(reconstructed=k2, overlap=c, ratio=c / max(k1, k2))
        check_report(o, want, "analyze_solution", ("m", "n", "Iterations"))
        vs = [(b, A @ x), (x0, x)] + ([(Q @ x0, Q @ x)] if case["both"] else [])
        og, rc, sn = pairs(o, "original"), pairs(o, "reconstruction"), pairs(o, "SNR")
        require(len(rc) == len(vs) and len(sn) == len(vs), "a line for b, x and (when asked) y", got=o[:400])
        for (u, v), a, c, d in zip(vs, og, rc, sn):
            require(shows(a, nrm(u)) and shows(c, nrm(v)), "printed norms", a=a, c=c, want=(nrm(u), nrm(v)))
            require(nrm(u - v) < 1e-6 * nrm(u) or shows(d, db(u, u - v)), "printed SNR", d=d, want=db(u, u - v))
        if k1 and k2:
            require(shows(og[-1], k1), "printed sparsity", got=og[-1], want=k1)
        return case["wrong"] > 0
    o = spgl1.SPGL1Options(max_iters=25)
    if case["w"] == "lasso":
        tau = 0.7 * np.abs(x0).sum()
        s = spgl1.solve_lasso(T, J(b), tau, options=o)
        t = printed(spgl1.analyze_lasso_state, T, J(b), tau, o, s, J(x0))
        want = dict(tau=tau)
    else:
        sigma = 0.1 * nrm(b)
        s = spgl1.solve_bpic(T, J(b), sigma, options=o)
        t = printed(spgl1.analyze_bpic_state, T, J(b), sigma, o, s, J(x0))
        want = dict(sigma=sigma, tau=float(s.tau), newton=int(s.n_newton))
    x = np.asarray(s.x)
    r = b - A @ x
    want.update(m=m, n=n, b_norm=nrm(b), iterations=int(s.iterations), times=int(s.n_times), trans=int(s.n_trans), SNR=db(x0, x0 - x), PRD=100 * nrm(x0 - x) / nrm(x0), r_norm=nrm(r), f_val=0.5 * nrm(r) ** 2, g_norm=nrm(A.conj().T @ r),
                g_dnorm=np.abs(A.conj().T @ r).max(), alpha=float(s.alpha), alpha_n=float(s.alpha_next))
    check_report(t, want, "SPGL1 analysis", ("m", "n", "SNR", "r_norm", "iterations"))
    for name, q in (("l1", lambda v: np.abs(v).sum()), ("l2", nrm), ("linf", lambda v: np.abs(v).max())):
        got = pairs(t, name)
        require(len(got) == 2 and shows(got[0], q(x0)) and shows(got[1], q(x)), f"printed {name} norms of x0 and x", got=got, want=(q(x0), q(x)))
    return True


# ------------------------------------------------------------ plots
@st.composite
def gen_plot(draw):
    return {"w": draw(st.sampled_from(["one", "two", "many", "many1", "one2", "plain", "rows", "progress"])), "n": draw(st.integers(2, 12)), "s": draw(st.integers(1, 4)), "us": draw(SEED), "d": draw(st.sampled_from([0.0, 0.3, 1.0]))}


def stems(ax):
    return [(np.asarray(c.markerline.get_xdata(), float), np.asarray(c.markerline.get_ydata(), float)) for c in ax.containers]


@sub("C29", "plots", gen_plot(), 60, "cr.sparse.plots on drawn signals (zero, sparse, dense; one or several): every stem plot has a stem exactly at the non-zero positions with the signal's values, every line plot is the signal, and ProgressTracker plots "
     "its history; non-trivial = some but not all entries zero")
def t_plot(case):
    rng = np.random.default_rng(case["us"])
    n, s, w = case["n"], case["s"], case["w"]
    X = rng.standard_normal((n, s)) * (rng.random((n, s)) < case["d"])
    X[rng.integers(n), :] = 1.5

    def chk(got, x, what):
        t = np.flatnonzero(x)
        require(np.array_equal(got[0], t), what + ": stems at the non-zero positions", got=got[0], want=t)
        same(got[1], x[t], what + ": stem heights", rtol=1e-5, atol=1e-6)
    try:
        if w == "one":
            ax = crplot.one_plot(height=3)
            crplot.plot_sparse_signal(ax, J(X[:, 0]))
            chk(stems(ax)[0], X[:, 0], w)
        elif w == "one2":
            ax = crplot.one_plot()
            crplot.plot_sparse_signal(ax, J(X))
            g = stems(ax)
            require(len(g) == s, "a stem plot per signal")
            for i in range(s):
                chk(g[i], X[:, i], w)
        elif w == "two":
            ax = crplot.h_plots(2, height=2)
            crplot.plot_sparse_signals(ax, J(X[:, 0]), J(X[:, -1]))
            chk(stems(ax[0])[0], X[:, 0], w)
            chk(stems(ax[1])[0], X[:, -1], w)
        elif w == "many1":
            ax = crplot.one_plot()
            crplot.plot_sparse_n_signals(ax, J(X[:, 0]))
            chk(stems(ax)[0], X[:, 0], w)
        elif w == "many":
            ax = crplot.h_plots(s + 1)
            crplot.plot_sparse_n_signals(ax, J(X))
            for i in range(s):
                chk(stems(ax[i])[0], X[:, i], w)
        elif w == "plain":
            ax = crplot.one_plot()
            crplot.plot_signal(ax, J(X[:, 0]))
            same(np.asarray(ax.lines[0].get_ydata(), float), X[:, 0], "plot_signal")
        elif w == "rows":
            ax = crplot.h_plots(s + 1)
            crplot.plot_n_signals(ax, J(X.T))
            for i in range(s):
                same(np.asarray(ax[i].lines[0].get_ydata(), float), X[:, i], "plot_n_signals: each row is a signal")
        else:
            tr = crs.ProgressTracker(x0=X[:, 0] if s > 1 else None)
            with contextlib.redirect_stdout(io.StringIO()):
                for i in range(n):
                    tr(Trk(x=X[:, 0] + 1.0 / (i + 1), r=X[:, 0] * i, iterations=i + 1), more=i < n - 1)
            ax = crplot.one_plot()
            tr.plot_progress(ax)
            same(np.asarray(ax.lines[0].get_ydata(), float), np.array(tr.r_norms, float), "residual norms are plotted")
            same(np.asarray(ax.lines[0].get_xdata(), float), np.arange(1.0, n + 1), "iterations are plotted")
            other = [z for z in ax.figure.axes if z is not ax]
            require(len(other) == (1 if s > 1 else 0), "SNR axis exactly when there is a reference")
            if other:
                same(np.asarray(other[0].lines[0].get_ydata(), float), np.array(tr.snrs, float), "SNRs are plotted")
    finally:
        plt.close("all")
    return 0 < np.count_nonzero(X) < X.size


class Trk(NamedTuple):
    x: object
    r: object
    iterations: int
