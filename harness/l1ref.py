"""Reference solutions of l1 problems (numpy, real data)."""
import numpy as np


def lasso_path(A, b, stop, maxk=4000):
    """Homotopy for min 1/2|Ax-b|^2 + lam |x|_1 from lam_max down.

    Calls stop(lam, x) at each breakpoint; returns the breakpoints [(lam, x)].  None if it degenerates."""
    m, n = A.shape
    c = A.T @ b
    lam = np.abs(c).max()
    x = np.zeros(n)
    path = [(lam, x.copy())]
    if lam == 0:
        return path
    act = [int(np.abs(c).argmax())]
    sgn = {act[0]: np.sign(c[act[0]])}
    just = None
    for _ in range(maxk):
        S = A[:, act]
        G = S.T @ S
        if np.linalg.cond(G) > 1e10:
            return None
        s = np.array([sgn[i] for i in act])
        d = np.linalg.solve(G, s)           # dx/d(-lam)
        v = A.T @ (S @ d)
        c = A.T @ (b - A @ x)
        best, kind, who = lam, "end", None
        for j in range(n):
            if j in sgn or j == just:
                continue
            for t in ((lam - c[j]) / (1 - v[j]) if abs(1 - v[j]) > 1e-14 else -1,
                      (lam + c[j]) / (1 + v[j]) if abs(1 + v[j]) > 1e-14 else -1):
                if 1e-13 * lam < t < best:
                    best, kind, who = t, "in", j
        for i, k in enumerate(act):
            if abs(d[i]) > 1e-14:
                t = -x[k] / d[i]
                if 1e-13 * lam < t < best:
                    best, kind, who = t, "out", k
        x = x.copy()
        x[act] += best * d
        lam = lam - best
        just = None
        if kind == "out":
            x[who] = 0.0
            act.remove(who)
            del sgn[who]
            just = who
        path.append((lam, x.copy()))
        if kind == "end" or stop(lam, x):
            return path
        if kind == "in":
            cj = A[:, who] @ (b - A @ x)
            act.append(who)
            sgn[who] = np.sign(cj)
        if not act:
            return None
    return None


def bpic_opt(A, b, sigma):
    """min |x|_1 s.t. |Ax-b| <= sigma; None if unavailable."""
    if np.linalg.norm(b) <= sigma:
        return np.zeros(A.shape[1])
    p = lasso_path(A, b, lambda lam, x: np.linalg.norm(b - A @ x) <= sigma)
    if p is None or np.linalg.norm(b - A @ p[-1][1]) > sigma * (1 + 1e-9) + 1e-10 * np.linalg.norm(b):
        return None
    (l0, x0), (l1, x1) = p[-2], p[-1]
    lo, hi = 0.0, 1.0
    for _ in range(80):
        t = (lo + hi) / 2
        x = x0 + t * (x1 - x0)
        if np.linalg.norm(b - A @ x) <= sigma:
            hi = t
        else:
            lo = t
    return x0 + hi * (x1 - x0)


def lasso_ball_opt(A, b, tau):
    """min 1/2|Ax-b|^2 s.t. |x|_1 <= tau."""
    p = lasso_path(A, b, lambda lam, x: np.abs(x).sum() >= tau)
    if p is None:
        return None
    x1 = p[-1][1]
    if np.abs(x1).sum() <= tau or len(p) < 2:
        return x1
    x0 = p[-2][1]
    n0, n1 = np.abs(x0).sum(), np.abs(x1).sum()
    return x0 + (tau - n0) / (n1 - n0) * (x1 - x0)
