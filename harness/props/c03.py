"""C03: operator algebra agrees with the algebra of the matrices, flags included."""
import math

import numpy as np
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop

from harness.core import sub, require
from harness.g import arr, mk, same, SEED
from harness import expr as X
from harness import ops


@st.composite
def gen(draw, depth):
    c = draw(X.any_expr(depth))
    c["us"] = draw(SEED)
    return c


def vec(rng, shape, c):
    x = rng.standard_normal(shape)
    return x + 1j * rng.standard_normal(shape) if c else x


def agree(op, M, rng, cx, what, power=False):
    m, n = M.shape
    require(tuple(op.shape) == (m, n), f"{what}: shape", got=op.shape, want=(m, n))
    x, y = vec(rng, n, cx), vec(rng, m, cx)
    at = 1e-9 * (1 + np.abs(M).max(initial=0)) * 10
    same(np.asarray(op.times(jnp.asarray(x))), M @ x, f"{what}.times", rtol=1e-9, atol=at)
    same(np.asarray(op.trans(jnp.asarray(y))), M.conj().T @ y, f"{what}.trans", rtol=1e-9, atol=at)
    return at


def algebra(case):
    op, M, real, msafe = X.ev(case["e"])
    rng = np.random.RandomState(case["us"])
    what = case["e"]["t"]
    cx = case["cplx"]        # complex data whenever the expression may hold complex operators
    m, n = M.shape
    at = agree(op, M, rng, cx, what)
    # data of a narrower type than the operator
    for x, y in ((vec(rng, n, False), vec(rng, m, False)), (rng.randint(-3, 4, n), rng.randint(-3, 4, m))):
        same(np.asarray(op.times(jnp.asarray(x))), M @ x, f"{what}.times of a {x.dtype} vector", rtol=1e-9, atol=at)
        same(np.asarray(op.trans(jnp.asarray(y))), M.conj().T @ y, f"{what}.trans of a {x.dtype} vector", rtol=1e-9, atol=at)
    require(bool(op.real) == real, f"{what}: real flag", got=op.real, want=real)
    require(bool(op.linear), f"{what}: linear flag lost")
    require(bool(op.jit_safe), f"{what}: jit_safe flag lost")
    if msafe is not None:
        require(bool(op.matrix_safe) == msafe, f"{what}: matrix_safe flag", got=op.matrix_safe, want=msafe)
    k = case["us"] % 3
    if k == 0:
        j = lop.jit(op)
        agree(j, M, rng, cx, f"jit({what})")
        require(j.real == op.real and j.linear == op.linear and j.matrix_safe == op.matrix_safe, "jit changes flags")
    elif k == 1:
        Z, Y = vec(rng, (n, 3), cx), vec(rng, (m, 3), cx)
        same(np.asarray(op.times_2d(jnp.asarray(Z))), M @ Z, f"{what}.times_2d", rtol=1e-9, atol=at)
        same(np.asarray(op.trans_2d(jnp.asarray(Y))), M.conj().T @ Y, f"{what}.trans_2d", rtol=1e-9, atol=at)
    elif msafe:
        Z, Y = vec(rng, (n, 3), cx), vec(rng, (m, 3), cx)
        same(np.asarray(op.times(jnp.asarray(Z))), M @ Z, f"{what}.times(matrix)", rtol=1e-9, atol=at)
        same(np.asarray(op.trans(jnp.asarray(Y))), M.conj().T @ Y, f"{what}.trans(matrix)", rtol=1e-9, atol=at)
    return what if np.any(M != 0) else False


R = ("random operator expression (depth 1-3) over all algebra nodes and elementary leaves, real or complex; "
     "model = numpy matrices; non-trivial = the matrix of the expression is non-zero")


@sub("C03", "expr_a", gen(1), 130, R)
def ea(case):
    return algebra(case)


@sub("C03", "expr_b", gen(2), 110, R)
def eb(case):
    return algebra(case)


@sub("C03", "expr_c", gen(3), 70, R)
def ec(case):
    return algebra(case)


# ------------------------------------------------------------ windowed_op
@st.composite
def gen_win(draw):
    tm, tn = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    cx = draw(st.booleans())
    return {"T": draw(arr((tm, tn), cplx=cx, kinds=("g", "q", "t"))), "ov": draw(st.integers(0, tm - 1)),
            "m": draw(st.integers(1, 14)), "cx": cx or draw(st.booleans()), "us": draw(SEED),
            "axis": draw(st.sampled_from([0, 0, 1]))}


def window_model(m, T, ov):
    tm, tn = T.shape
    off = tm - ov
    nb = max(1, math.ceil((m - tm) / off) + 1)
    M = np.zeros((tm + (nb - 1) * off, nb * tn), dtype=T.dtype)
    for i in range(nb):
        M[i * off:i * off + tm, i * tn:(i + 1) * tn] += T
    return M[:m]


@sub("C03", "windowed", gen_win(), 80, "window operator m x n, overlap < m, output length up to 14; model = "
     "overlap-add of dense blocks; non-trivial = more than one window")
def windowed(case):
    T = mk(case["T"])
    op = lop.windowed_op(case["m"], lop.matrix(jnp.asarray(T)), overlap=case["ov"], axis=case["axis"])
    M = window_model(case["m"], T, case["ov"])
    rng = np.random.RandomState(case["us"])
    agree(op, M, rng, case["cx"], "windowed_op")
    require(op.real == np.isrealobj(T), "windowed_op: real flag", got=op.real)
    Z = vec(rng, (M.shape[1], 2), case["cx"])
    want = M @ Z
    if case["axis"] == 1:
        Z, want = Z.T, want.T
    same(np.asarray(op.times(jnp.asarray(Z))), want, "windowed_op along axis", rtol=1e-9, atol=1e-7)
    return M.shape[1] > T.shape[1]


# ------------------------------------------------------------ flags
UN = ["neg", "scale", "adjoint", "hermitian", "transpose", "power", "gram", "frame", "partial"]
BI = ["add", "subtract", "compose", "hcat", "block_diag"]


@st.composite
def gen_flags(draw):
    def one():
        return {"jit_safe": draw(st.booleans()), "matrix_safe": draw(st.booleans()), "real": draw(st.booleans())}
    return {"n": draw(st.integers(1, 4)), "a": one(), "b": one(), "s": draw(st.integers(0, len(SCALARS) - 1)), "ab": draw(st.booleans())}


SCALARS = [2.0, 2, 2j, np.float32(2), np.complex64(2j), np.complex128(1 + 1j)]


def flag_op(n, f):
    I = np.eye(n) * (1.0 if f["real"] else 1j)

    def times(x):
        return jnp.asarray(I) @ x

    def trans(x):
        return jnp.asarray(I.conj().T) @ x
    return lop.Operator(times=times, trans=trans, shape=(n, n), jit_safe=f["jit_safe"],
                        matrix_safe=f["matrix_safe"], real=f["real"])


@sub("C03", "flags", gen_flags(), 60, "all flag combinations of the operands and kinds of scalars; the result of every "
     "algebra function is real/jit_safe/matrix_safe exactly when all operands are; jit refuses unsafe operators; "
     "non-trivial = some flag is off")
def flags(case):
    n = case["n"]
    A, B = flag_op(n, case["a"]), flag_op(n, case["b"])
    sc = SCALARS[case["s"]]
    if case["s"] >= 3 and case["ab"]:
        sc = jnp.asarray(sc)
    for f in UN + BI + ["block3", "block3r"]:
        ops_ = [case["a"]] if f in UN else [case["a"], case["b"]]
        if f == "partial":
            T = lop.partial_op(A, jnp.arange(n))
        elif f == "power":
            T = lop.power(A, 2)
        elif f == "scale":
            T = lop.scale(A, sc)
        elif f in UN:
            T = getattr(lop, f)(A)
        elif f == "block_diag":
            T = lop.block_diag([A, B])
        elif f == "block3":
            T = lop.block_diag([A, B, A])
        elif f == "block3r":
            T = lop.block_diag([A, A, B])
        else:
            T = getattr(lop, f)(A, B)
        real = all(o["real"] for o in ops_) and not (f == "scale" and np.iscomplexobj(sc))
        require(T.real == real, f"{f}: real flag", got=T.real, want=real)
        js = all(o["jit_safe"] for o in ops_)
        require(T.jit_safe == js, f"{f}: jit_safe flag", got=T.jit_safe, want=js)
        if f not in ("block_diag", "block3", "block3r"):
            ms = all(o["matrix_safe"] for o in ops_)
            require(T.matrix_safe == ms, f"{f}: matrix_safe flag", got=T.matrix_safe, want=ms)
        if js:
            lop.jit(T)
        else:
            try:
                lop.jit(T)
            except Exception:
                continue
            require(False, f"jit accepted an operator which is not jit_safe ({f})")
    return not (all(case["a"].values()) and all(case["b"].values()))


@st.composite
def gen_pow(draw):
    n = draw(st.integers(1, 5))
    cx = draw(st.booleans())
    return {"A": draw(arr((n, n), cplx=cx, kinds=("g", "q"))), "us": draw(SEED), "py": draw(st.booleans())}


@sub("C03", "powers", gen_pow(), 12, "A ** p for p = 0..7 of a drawn matrix; model = numpy matrix_power; non-trivial = n > 1")
def powers(case):
    A = mk(case["A"])
    op = lop.matrix(jnp.asarray(A))
    rng = np.random.RandomState(case["us"])
    for p in range(8):
        T = op ** p if case["py"] else lop.power(op, p)
        Mp = np.linalg.matrix_power(A, p)
        agree(T, Mp, rng, case["A"]["c"], f"power {p}")
        for x in (rng.standard_normal(A.shape[0]), rng.randint(-3, 4, A.shape[0])):
            at = 1e-9 * (1 + np.abs(Mp).max()) * 10
            same(np.asarray(T.times(jnp.asarray(x))), Mp @ x, f"power {p} of a {x.dtype} vector", rtol=1e-9, atol=at)
            same(np.asarray(T.trans(jnp.asarray(x))), Mp.conj().T @ x, f"adjoint power {p} of a {x.dtype} vector", rtol=1e-9, atol=at)
    return A.shape[0] > 1


@st.composite
def gen_bad(draw):
    a, b, c, d = [draw(st.integers(1, 5)) for _ in range(4)]
    return {"a": [a, b], "b": [c, d], "f": draw(st.sampled_from(["add", "subtract", "compose", "hcat", "power"]))}


@sub("C03", "compat", gen_bad(), 60, "operands of incompatible shapes are rejected when the expression is "
     "built, compatible ones accepted; non-trivial = incompatible")
def compat(case):
    (a, b), (c, d), f = case["a"], case["b"], case["f"]
    A, B = lop.matrix(jnp.ones((a, b))), lop.matrix(jnp.ones((c, d)))
    ok = {"add": (a, b) == (c, d), "subtract": (a, b) == (c, d), "compose": b == c, "hcat": a == c,
          "power": a == b}[f]
    try:
        T = lop.power(A, 2) if f == "power" else getattr(lop, f)(A, B)
        raised = False
    except Exception:
        raised = True
    require(raised == (not ok), f"{f} of incompatible shapes", raised=raised, shapes=(case["a"], case["b"]))
    return not ok


# ------------------------------------------------------------ dot tests
@st.composite
def gen_dt(draw):
    m, n = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return {"A": draw(arr((m, n), kinds=("g",))), "key": draw(SEED), "bad": draw(st.booleans()),
            "f": draw(st.sampled_from(["real", "rdot"]))}


@sub("C03", "dot_test", gen_dt(), 80, "the dot test accepts a matrix operator with its true adjoint and rejects "
     "one whose trans is off by a factor 1.01; non-trivial = the wrong adjoint")
def dot_test(case):
    A = mk(case["A"])
    k = 1.01 if case["bad"] else 1.0
    AH = k * A.T
    op = lop.Operator(times=lambda x: jnp.asarray(A) @ x, trans=lambda x: jnp.asarray(AH) @ x, shape=A.shape)
    f = lop.dot_test_real if case["f"] == "real" else lop.rdot_test_complex
    ok = bool(f(jax.random.PRNGKey(case["key"]), op))
    require(ok == (not case["bad"]), f"dot_test_{case['f']}: verdict {ok} for a {'wrong' if case['bad'] else 'right'} adjoint")
    return case["bad"]
