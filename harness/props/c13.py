"""C13: LSQR."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
from cr.sparse import lop
import cr.sparse.sls as sls

from harness.core import sub, require
from harness import count
from harness.g import same, finite, SEED


TOLS = [None, None, None, [1e-2, 1e-10, 1e8], [1e-10, 1e-2, 1e8], [1e-8, 1e-8, 6.0], [1e-3, 1e-3, 0.0], [1e-6, 0.0, 30.0]]


@st.composite
def gen(draw, c=False):
    m, n = draw(st.sampled_from([(1, 1), (3, 2), (2, 3), (5, 5), (8, 3), (9, 6), (4, 9), (12, 7), (20, 10), (40, 30)]))
    d = {"m": m, "n": n, "us": draw(SEED), "c": c, "rank": draw(st.sampled_from(["full", "full", "def"])),
            "cond": draw(st.sampled_from([1.0, 5.0, 50.0])), "b": draw(st.sampled_from(["rand", "range", "zero", "orth"])),
            "x0": draw(st.sampled_from(["zero", "rand", "far"])), "damp": draw(st.sampled_from([0, 0, 0.1, 2.0])),
            "mi": draw(st.sampled_from([None, 1, 2, 3, 60, 60, 60])), "jit": draw(st.booleans()), "sc": draw(st.sampled_from([0.01, 1.0, 100.0])),
            "op": draw(st.sampled_from(["matrix", "compose", "diag"])), "tols": draw(st.sampled_from(TOLS)),
            "int": draw(st.sampled_from(["", "", "", "b", "x0"]))}
    if d["m"] == 40:
        d["mi"] = draw(st.sampled_from([9, 14, 120]))
    if d["b"] == "orth":
        d["rank"] = "full"      # with A^H(b - A x0) = 0 the null space of A is noise
    return d


def bidiag(A, r0, k):
    """lower bidiagonal (k + 1) x k matrix of k steps, None when the process ends before"""
    u = r0 / np.linalg.norm(r0)
    v = A.conj().T @ u
    sc = np.linalg.norm(A)
    al = np.linalg.norm(v)
    v = v / al
    B = np.zeros((k + 1, k))
    U, V = [u], [v]
    for i in range(k):
        B[i, i] = al
        u = A @ V[-1] - al * U[-1]
        be = np.linalg.norm(u)
        B[i + 1, i] = be
        if be < 1e-4 * sc:
            return None
        U.append(u / be)
        v = A.conj().T @ U[-1] - be * V[-1]
        al = np.linalg.norm(v)
        if al < 1e-4 * sc:
            return None
        V.append(v / al)
    return B


RULE = ("over-, under- and square systems, real and complex, full and deficient rank, condition <= 50, with "
     "drawn start, damping, tolerances and iteration limit; reference = SVD solution of the damped problem, explicit Krylov optimum, "
     "Golub-Kahan process and stopping rules in numpy; "
     "non-trivial = at least one LSQR step was made")


@sub("C13", "lsqr_complex", gen(True), 65, RULE)
def t_lsqr_c(case):
    return t_lsqr(case)


@sub("C13", "lsqr", gen(False), 70, RULE)
def t_lsqr(case):
    rng = np.random.RandomState(case["us"])
    m, n, c = case["m"], case["n"], case["c"]

    def g(*s):
        return rng.standard_normal(s) + (1j * rng.standard_normal(s) if c else 0)
    k = min(m, n)
    U, V = np.linalg.qr(g(m, k))[0], np.linalg.qr(g(n, k))[0]
    s = np.exp(rng.uniform(0, np.log(case["cond"]), k))
    if case["rank"] == "def" and k > 1:
        s[rng.randint(k)] = 0.0
    if case["op"] == "diag" and m == n:
        A = np.diag(s.astype(complex if c else float) * (np.exp(1j * rng.uniform(0, 6, k)) if c else rng.choice([-1, 1], k)))
    else:
        A = (U * s) @ V.conj().T
    A = A * case["sc"]
    if case["op"] == "compose" and case["rank"] == "full":
        B = np.linalg.qr(g(m, m))[0]
        op = lop.compose(lop.matrix(jnp.asarray(B)), lop.matrix(jnp.asarray(B.conj().T @ A)))
    elif case["op"] == "diag" and m == n:
        op = lop.diagonal(jnp.asarray(np.diag(A)))
    else:
        op = lop.matrix(jnp.asarray(A))
    calls = [0, 0]
    op = count.counted(op, calls)
    x0 = {"rand": 1.0, "far": 2e3, "zero": 0.0}[case["x0"]] * g(n)
    if case["int"] == "x0":
        x0 = np.round(3 * x0.real)
    P = np.linalg.pinv(A, rcond=1e-9)
    b = {"rand": g(m), "range": A @ g(n), "zero": np.zeros(m, complex if c else float)}.get(case["b"])
    if b is None:
        b = g(m)
        b = b - A @ (P @ b) + A @ x0          # A^H (b - A x0) = 0 up to rounding
    elif case["int"] == "b":
        b = np.round(3 * b.real)
    bj = jnp.asarray(b, dtype=int) if case["int"] == "b" and case["b"] != "orth" else jnp.asarray(b)
    xj = jnp.asarray(x0, dtype=int) if case["int"] == "x0" else jnp.asarray(x0)
    damp = case["damp"] * case["sc"]
    kw = {} if case["mi"] is None else {"max_iters": case["mi"]}
    atol, btol, conlim = case["tols"] or (1e-8, 1e-8, 1e8)
    if case["tols"]:
        kw.update(atol=atol, btol=btol, conlim=conlim)
    if damp:
        kw["damp"] = damp
    f = sls.lsqr_jit if case["jit"] else sls.lsqr

    def solve(lim):
        if case["jit"]:
            return f(op, bj, xj, damp, atol, btol, conlim, lim)
        return f(op, bj, xj, **dict(kw, max_iters=lim))
    mi = 10 if case["mi"] is None else case["mi"]
    sol = f(op, bj, xj, **kw) if case["mi"] is None and not case["jit"] else solve(mi)
    x = np.asarray(sol.x)
    finite(x, "LSQR solution")
    require(x.shape == (n,), "shape of the solution")
    it = int(sol.iterations)
    require(it <= max(mi, 1), "more iterations than allowed", iterations=it, max_iters=mi)
    count.check(calls, sol)
    r0 = b - A @ x0
    # solution of min |A d - r0|^2 + damp^2 |d|^2 (minimum norm)
    u, sv, vh = np.linalg.svd(A, full_matrices=False)
    ok = sv > 1e-9 * max(sv.max(), 1e-300)
    filt = np.where(ok, sv / np.where(ok, sv ** 2 + damp ** 2, 1), 0)
    dstar = vh.conj().T @ (filt * (u.conj().T @ r0))
    d = x - x0
    nr0 = np.linalg.norm(r0)
    nd = np.linalg.norm(dstar)

    def obj(d):
        return np.sqrt(np.linalg.norm(r0 - A @ d) ** 2 + damp ** 2 * np.linalg.norm(d) ** 2)
    # reported estimates
    tiny = 1e-9 * (nr0 + np.linalg.norm(b))
    require(abs(float(sol.r_norm) - obj(d)) <= 1e-5 * nr0 + tiny, "reported residual norm", got=float(sol.r_norm), want=obj(d))
    if it > 1 and case["x0"] == "zero":
        require(abs(float(sol.x_norm) - np.linalg.norm(x)) <= 1e-4 * nd + 1e-12, "reported norm of x", got=float(sol.x_norm),
                want=np.linalg.norm(x))
    g0 = np.linalg.norm(A.conj().T @ r0)
    if it > 1:
        ga = np.linalg.norm(A.conj().T @ (r0 - A @ d) - damp ** 2 * d)
        require(abs(float(sol.atr_norm) - ga) <= 1e-4 * g0 + tiny * case["sc"] * case["cond"], "reported norm of A^H r", got=float(sol.atr_norm), want=ga)
    solid = nr0 > 1e-9 * (np.linalg.norm(b) + np.linalg.norm(A) * np.linalg.norm(x0))
    if solid and 1 < it <= 5 and g0 > 1e-7 * nr0 * case["sc"]:
        # norms of the bidiagonal matrix of the Golub-Kahan process (rounding spoils later ones)
        B = bidiag(A, r0, it - 1)
        if B is not None:
            B = np.vstack([B, damp * np.eye(it - 1)])
            fro, inv = np.linalg.norm(B), np.linalg.norm(np.linalg.pinv(B))
            require(abs(float(sol.A_norm) - fro) <= 1e-4 * fro, "A_norm is not the norm of the bidiagonal matrix", got=float(sol.A_norm), want=fro)
            require(abs(float(np.real(sol.A_cond)) - fro * inv) <= 1e-3 * fro * inv, "A_cond is not the condition of the bidiagonal matrix",
                    got=float(np.real(sol.A_cond)), want=fro * inv)
            if damp == 0:
                require(float(sol.A_norm) <= np.linalg.norm(A) * 1.001, "A_norm is not a lower estimate", got=float(sol.A_norm))
    # stopping rules S1, S2, S3 of the paper, on the reported norms
    if solid and g0 > 1e-6 * nr0 * case["sc"]:
        def rules(q):
            """the largest of tolerance / value over the stopping rules"""
            r, x, an, ac, ar = (float(np.real(v)) for v in (q.r_norm, q.x_norm, q.A_norm, q.A_cond, q.atr_norm))
            return max((btol + atol * an * x / nr0) / max(r / nr0, 1e-300), atol / max(ar / g0, 1e-300), ac / conlim if conlim else 0.0,
                       1e-15 / max(r / nr0 / (1 + an * x / nr0), 1e-300), 1e-15 / max(ar / g0, 1e-300))
        if it < mi:
            require(rules(sol) >= 0.999, "stopped early for no reason", it=it, mi=mi, ratio=rules(sol))
        if it > 2:
            p = rules(solve(it - 1))
            require(p <= 1.001, "went on although a stopping rule was met", it=it, ratio=p)
    if it == 1:
        same(x, x0, "no step was made, but x moved", rtol=0, atol=0)
    # optimality in the Krylov space of the number of steps made
    if np.linalg.norm(A.conj().T @ r0) > 1e-7 * nr0 * case["sc"]:
        H = A.conj().T @ A + damp ** 2 * np.eye(n)
        v = A.conj().T @ r0
        Q = np.zeros((n, 0), dtype=A.dtype)
        # rounding costs LSQR some steps once it has made a few
        steps = it - 1 if it <= 5 else (it - 1) // 2 + 1
        for _ in range(min(steps, n)):
            w = v - Q @ (Q.conj().T @ v)
            w = w - Q @ (Q.conj().T @ w)
            nw = np.linalg.norm(w)
            if nw <= 1e-9 * np.linalg.norm(v):
                break
            Q = np.column_stack([Q, w / nw])
            v = H @ Q[:, -1]
        best = 0 * d if Q.shape[1] == 0 else Q @ np.linalg.lstsq(
            np.vstack([A @ Q, damp * Q]), np.concatenate([r0, np.zeros(n)]), rcond=None)[0]
        require(obj(d) <= obj(best) + 1e-5 * nr0 + tiny, "not the best point of its Krylov space", got=obj(d), best=obj(best), it=it)
        if mi >= 60 and case["tols"] is None:
            same(d, dstar, "LSQR did not reach the least squares solution", rtol=1e-5, atol=1e-5 * nd + tiny / case["sc"], it=it)
            require(it <= 3 * k + 12, "too many iterations for the size", it=it)
    return it > 1


@sub("C13", "lsqr_f32", gen(), 40, "the same systems in single precision (default mode of the library), full rank and condition <= 5 only, "
     "without damping; reference = least squares solution; non-trivial = over- or underdetermined", x64=False)
def t32(case):
    rng = np.random.RandomState(case["us"])
    m, n = case["m"], case["n"]
    k = min(m, n)
    U, V = np.linalg.qr(rng.standard_normal((m, k)))[0], np.linalg.qr(rng.standard_normal((n, k)))[0]
    s = np.exp(rng.uniform(0, np.log(5.0), k))
    A = (U * s) @ V.T
    b = A @ rng.standard_normal(n) if case["b"] != "rand" else rng.standard_normal(m)
    sol = sls.lsqr(lop.matrix(jnp.asarray(A, dtype=jnp.float32)), jnp.asarray(b, dtype=jnp.float32),
                   jnp.zeros(n, dtype=jnp.float32), max_iters=60)
    x = np.asarray(sol.x, dtype=float)
    want = np.linalg.lstsq(A, b, rcond=None)[0]
    require(np.linalg.norm(x - want) <= 2e-3 * (1e-3 + np.linalg.norm(b)), "single precision LSQR solution", got=x.tolist(), want=want.tolist())
    return m != n
