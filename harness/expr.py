"""Random operator expressions with a dense matrix model.

expr(draw, m, n, depth) produces a JSON tree describing an (m, n) operator built
from the public algebra of cr.sparse.lop; ev(tree) returns (operator, matrix,
real, matrix_safe) where the last three are computed by the model.
"""
import math

import numpy as np
import scipy.linalg
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.lop as lop

from harness.g import arr, mk
from harness import ops


def leaf(draw, m, n, cplx):
    c = ["matrix", "matrix"]
    if m == n:
        c += ["diagonal", "identity", "flipud", "convolve", "heaviside", "real_matrix", "scalar_mult", "tv"]
        if cplx:
            c += ["fourier_basis"]
    if m < n:
        c += ["restriction"]
    if m > n:
        c += ["pad_zeros"]
    if m == 2 * n:
        c += ["symmetrize"]
    if m == 1:
        c += ["sum"]
    c += ["zero", "identity"]
    k = draw(st.sampled_from(c))
    cc = cplx and draw(st.booleans())
    if k == "matrix":
        p = {"A": draw(arr((m, n), cplx=cc, kinds=("g", "t", "q")))}
    elif k == "real_matrix":
        p = {"A": draw(arr((m, n), kinds=("g", "t")))}
    elif k == "diagonal":
        p = {"d": draw(arr((n,), cplx=cc))}
    elif k == "scalar_mult":
        p = {"a": draw(arr((1,), cplx=cc, kinds=("g", "t"))), "n": n}
    elif k in ("identity", "zero"):
        p = {"n": n, "m": m}
    elif k in ("flipud", "fourier_basis", "sum", "symmetrize"):
        p = {"n": n}
    elif k == "convolve":
        L = draw(st.integers(1, 4))
        p = {"n": n, "h": draw(arr((L,), cplx=cc)), "off": draw(st.integers(0, L - 1))}
    elif k == "heaviside":
        p = {"n": n, "norm": draw(st.booleans()), "alias": False}
    elif k == "tv":
        if n < 2:
            return leaf(draw, m, n, cplx)
        p = {"n": n, "kind": draw(st.sampled_from(ops.KINDS))}
    elif k == "restriction":
        p = {"n": n, "I": draw(st.permutations(list(range(n))))[:m]}
    elif k == "pad_zeros":
        b = draw(st.integers(0, m - n))
        p = {"n": n, "b": b, "a": m - n - b}
    return {"t": "leaf", "o": {"f": k, "p": p}}


def expr(draw, m, n, depth, cplx, top=None):
    if depth == 0 and top is None:
        return leaf(draw, m, n, cplx)
    c = ["neg", "scale", "add", "sub", "compose", "adjoint", "transpose", "hermitian", "partial", "jit",
         "neg", "leaf"]
    if n >= 2:
        c += ["hcat", "hcat"]
    if m >= 2 and n >= 2:
        c += ["block", "block"]
    if m == n:
        c += ["power", "gram", "frame"]
    k = top or draw(st.sampled_from(c))
    d = depth - 1

    def sub(a, b):
        return expr(draw, a, b, d, cplx)
    inner = [1, 2, 3, 4, 5]
    if k == "leaf":
        return leaf(draw, m, n, cplx)
    if k in ("neg", "jit"):
        return {"t": k, "a": sub(m, n), "py": draw(st.booleans())}
    if k == "scale":
        return {"t": k, "a": sub(m, n), "s": draw(arr((1,), cplx=cplx and draw(st.booleans()), kinds=("q", "g")))}
    if k in ("add", "sub"):
        return {"t": k, "a": sub(m, n), "b": sub(m, n), "py": draw(st.booleans())}
    if k == "compose":
        q = draw(st.sampled_from(inner))
        return {"t": k, "a": sub(m, q), "b": sub(q, n), "py": draw(st.booleans())}
    if k in ("adjoint", "transpose", "hermitian"):
        return {"t": k, "a": sub(n, m)}
    if k == "hcat":
        n1 = draw(st.integers(1, n - 1))
        return {"t": k, "a": sub(m, n1), "b": sub(m, n - n1)}
    if k == "power":
        return {"t": k, "a": sub(n, n), "p": draw(st.integers(0, 4)), "py": draw(st.booleans())}
    if k == "gram":
        return {"t": k, "a": sub(draw(st.sampled_from(inner)), n)}
    if k == "frame":
        return {"t": k, "a": sub(m, draw(st.sampled_from(inner)))}
    if k == "partial":
        extra = draw(st.integers(0, 3))
        picks = draw(st.permutations(list(range(m + extra))))[:m]
        perm = draw(st.one_of(st.none(), st.permutations(list(range(n)))))
        return {"t": k, "a": sub(m + extra, n), "picks": picks, "perm": perm}
    if k == "block":
        nb = draw(st.integers(2, min(3, m, n)))

        def split(tot):
            cuts = sorted(draw(st.permutations(list(range(1, tot))))[:nb - 1])
            e = [0] + cuts + [tot]
            return [e[i + 1] - e[i] for i in range(nb)]
        return {"t": k, "a": [sub(a, b) for a, b in zip(split(m), split(n))]}
    raise ValueError(k)


NODES = ["neg", "scale", "add", "sub", "compose", "adjoint", "transpose", "hermitian", "partial", "jit",
         "hcat", "block", "power", "gram", "frame"]


@st.composite
def any_expr(draw, depth=3):
    top = draw(st.sampled_from(NODES))
    m, n = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    if top in ("power", "gram", "frame"):
        m = n
    if top in ("hcat", "block"):
        n = max(2, n)
    if top == "block":
        m = max(2, m)
    cplx = draw(st.booleans())
    return {"e": expr(draw, m, n, draw(st.integers(1, depth)), cplx, top), "cplx": cplx}


def ev(e):
    t = e["t"]
    if t == "leaf":
        r = ops.build(e["o"])
        return r.op, r.M, bool(np.isrealobj(r.M)), bool(r.op.matrix_safe)
    if t == "block":
        parts = [ev(x) for x in e["a"]]
        return (lop.block_diag([p[0] for p in parts]), scipy.linalg.block_diag(*[p[1] for p in parts]),
                all(p[2] for p in parts), None)
    A, MA, ra, sa = ev(e["a"])
    if "b" in e:
        B, MB, rb, sb = ev(e["b"])
        both = None if (sa is None or sb is None) else sa and sb
    if t == "neg":
        return (-A if e["py"] else lop.neg(A)), -MA, ra, sa
    if t == "jit":
        return lop.jit(A), MA, ra, sa
    if t == "scale":
        a = mk(e["s"])[0]
        a = complex(a) if e["s"]["c"] else float(a)
        return lop.scale(A, a), a * MA, ra and not e["s"]["c"], sa
    if t == "add":
        return (A + B if e["py"] else lop.add(A, B)), MA + MB, ra and rb, both
    if t == "sub":
        return (A - B if e["py"] else lop.subtract(A, B)), MA - MB, ra and rb, both
    if t == "compose":
        return (A @ B if e["py"] else lop.compose(A, B)), MA @ MB, ra and rb, both
    if t == "hcat":
        return lop.hcat(A, B), np.hstack((MA, MB)), ra and rb, both
    if t == "adjoint":
        return lop.adjoint(A), MA.conj().T, ra, sa
    if t == "hermitian":
        return lop.hermitian(A), MA.conj().T, ra, sa
    if t == "transpose":
        return lop.transpose(A), MA.T, ra, sa
    if t == "power":
        return (A ** e["p"] if e["py"] else lop.power(A, e["p"])), np.linalg.matrix_power(MA, e["p"]), ra, sa
    if t == "gram":
        return lop.gram(A), MA.conj().T @ MA, ra, sa
    if t == "frame":
        return lop.frame(A), MA @ MA.conj().T, ra, sa
    if t == "partial":
        P = np.asarray(e["picks"])
        perm = e["perm"]
        op = lop.partial_op(A, jnp.asarray(P), None if perm is None else jnp.asarray(perm))
        M = MA
        if perm is not None:
            Q = np.eye(MA.shape[1])[np.asarray(perm)]      # x[perm] = Q x
            M = MA @ Q
        return op, M[P], ra, sa
    raise ValueError(t)


def size(e):
    if e["t"] == "leaf":
        return 1
    k = e["a"] if isinstance(e["a"], list) else [e["a"]]
    return 1 + sum(size(x) for x in k) + (size(e["b"]) if "b" in e else 0)


def has(e, t):
    if e["t"] == t:
        return True
    if e["t"] == "leaf":
        return False
    k = e["a"] if isinstance(e["a"], list) else [e["a"]]
    return any(has(x, t) for x in k) or ("b" in e and has(e["b"], t))
