"""C04: applying an operator along an axis of an array = applying it to every fibre."""
import numpy as np
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop

from harness.core import sub, require
from harness.g import arr, mk, same, SEED
from harness import ops

AX = [k for k, f in sorted(ops.FAM.items()) if f.axis]


@st.composite
def gen(draw, names):
    o = draw(ops.any_op(names))
    nd = draw(st.sampled_from([2, 2, 3, 4]))
    axis = draw(st.integers(0, nd - 1))
    other = [draw(st.integers(1, 3)) for _ in range(nd - 1)]
    return {"op": o, "nd": nd, "axis": axis, "other": other, "us": draw(SEED), "cx": draw(st.booleans())}


def vec(rng, shape, c):
    x = rng.standard_normal(shape)
    return x + 1j * rng.standard_normal(shape) if c else x


def along(M, X, axis):
    return np.moveaxis(np.tensordot(M, X, axes=(1, axis)), 0, axis)


def axis_check(op, M, case, cin, cout, what, rtol=1e-9):
    rng = np.random.RandomState(case["us"])
    a = case["axis"]
    shp = list(case["other"])
    X = vec(rng, shp[:a] + [M.shape[1]] + shp[a:], cin and case["cx"])
    Y = vec(rng, shp[:a] + [M.shape[0]] + shp[a:], cout and case["cx"])
    at = rtol * (1 + np.abs(M).max(initial=0)) * 10
    same(np.asarray(op.times(jnp.asarray(X))), along(M, X, a), f"{what}.times along axis {a}", rtol=rtol, atol=at)
    same(np.asarray(op.trans(jnp.asarray(Y))), along(M.conj().T, Y, a), f"{what}.trans along axis {a}", rtol=rtol, atol=at)
    if what == "fft":
        return
    # plain vectors keep working whatever the axis
    x, y = vec(rng, M.shape[1], False), vec(rng, M.shape[0], False)
    same(np.asarray(op.times(jnp.asarray(x))), M @ x, f"{what}.times of a vector", rtol=rtol, atol=at)
    same(np.asarray(op.trans(jnp.asarray(y))), M.conj().T @ y, f"{what}.trans of a vector", rtol=rtol, atol=at)


def run(case):
    r = ops.build(case["op"], axis=case["axis"])
    axis_check(r.op, r.M, case, r.cin, r.cout, case["op"]["f"])
    if case["op"]["f"] != "dwt":
        for ax in (0, 1):               # matrices are a special case of most operators
            r = ops.build(case["op"], axis=ax)
            axis_check(r.op, r.M, dict(case, axis=ax, other=[3]), r.cin, r.cout, case["op"]["f"])
    return bool(case["other"] and max(case["other"]) > 1 and np.any(r.M != 0))


G = {"a": ["matrix", "sparse_real_matrix", "diagonal", "zero", "identity", "restriction"],
     "b": ["heaviside", "inv_heaviside", "running_average", "fir_filter", "convolve"],
     "c": ["fft", "tv", "circulant"],
     "d": ["dwt"]}
assert sorted(sum(G.values(), [])) == AX, (AX,)
NN = {"a": 110, "b": 90, "c": 60, "d": 45}
R = ("operators with an axis parameter on 2-4 dimensional arrays; model = tensordot of the dense matrix along "
     "the axis; non-trivial = more than one fibre and a non-zero matrix")


def _mk(k):
    @sub("C04", "axis_" + k, gen(G[k]), NN[k], R)
    def f(case):
        return run(case)


for _k in G:
    _mk(_k)


# --------------------------------------------------- matrix_safe operators
@st.composite
def gen_ms(draw):
    o = draw(ops.any_op(sorted(set(ops.FAM) - {"dwt2D", "convolve2D", "convolveND", "reshape", "arr2vec", "tv2D", "dwt"})))
    return {"op": o, "k": draw(st.integers(1, 4)), "us": draw(SEED), "cx": draw(st.booleans())}


@sub("C04", "columns", gen_ms(), 150, "operators flagged matrix_safe applied to a matrix of k column vectors, and "
     "times_2d/trans_2d of every 1-D operator; non-trivial = k > 1 and a non-zero matrix")
def cols(case):
    r = ops.build(case["op"])
    what = case["op"]["f"]
    if len(r.in_shape) > 1 or len(r.out_shape) > 1:
        return False
    rng = np.random.RandomState(case["us"])
    k = case["k"]
    Z = vec(rng, (r.M.shape[1], k), r.cin and case["cx"])
    Y = vec(rng, (r.M.shape[0], k), r.cout and case["cx"])
    at = 1e-8 * (1 + np.abs(r.M).max(initial=0))
    A, AH = r.M @ Z, r.M.conj().T @ Y
    if r.op.matrix_safe:
        same(np.asarray(r.op.times(jnp.asarray(Z))), A, f"{what}.times(matrix)", rtol=1e-9, atol=at)
        same(np.asarray(r.op.trans(jnp.asarray(Y))), AH, f"{what}.trans(matrix)", rtol=1e-9, atol=at)
    same(np.asarray(r.op.times_2d(jnp.asarray(Z))), A, f"{what}.times_2d", rtol=1e-9, atol=at)
    same(np.asarray(r.op.trans_2d(jnp.asarray(Y))), AH, f"{what}.trans_2d", rtol=1e-9, atol=at)
    return k > 1 and bool(np.any(r.M != 0))


# --------------------------------------------------- containers and random dictionaries
@st.composite
def gen_rd(draw):
    nd = draw(st.sampled_from([2, 3]))
    f = draw(st.sampled_from(["gaussian_dict", "rademacher_dict", "sparse_binary_dict", "random_onb_dict",
                              "random_orthonormal_rows_dict", "block_diag", "binary_dict_alg", "dot"]))
    m = draw(st.integers(2, 6))
    n = draw(st.integers(m, 9))
    c = {"f": f, "m": m, "n": n, "key": draw(SEED), "nd": nd, "axis": draw(st.integers(0, nd - 1)),
         "other": [draw(st.integers(1, 3)) for _ in range(nd - 1)], "us": draw(SEED), "cx": draw(st.booleans()),
         "dense": draw(st.booleans())}
    if f == "block_diag":
        c["A"] = draw(arr((m, 3), cplx=draw(st.booleans()), kinds=("g", "t")))
        c["B"] = draw(arr((2, m), kinds=("g", "t")))
    return c


@sub("C04", "dicts", gen_rd(), 90, "random sensing operators, block_diag and dot along an axis; reference = the dense "
     "matrix of the same operator built along axis 0; non-trivial = more than one fibre")
def dicts(case):
    f, m, n, a = case["f"], case["m"], case["n"], case["axis"]
    key = jax.random.PRNGKey(case["key"])
    cin = cout = True
    if f == "random_onb_dict":
        mk_ = lambda ax: lop.random_onb_dict(key, n, axis=ax)
    elif f == "sparse_binary_dict":
        mk_ = lambda ax: lop.sparse_binary_dict(key, m, n, d=2, dense=case["dense"], axis=ax)
    elif f == "block_diag":
        A, B = lop.matrix(jnp.asarray(mk(case["A"]))), lop.matrix(jnp.asarray(mk(case["B"])))
        mk_ = lambda ax: lop.block_diag([A, B], axis=ax)
    elif f == "dot":
        v = jnp.asarray(np.random.RandomState(case["key"]).standard_normal(n))
        mk_ = lambda ax: lop.dot(v, axis=ax)
        cin = cout = False
    else:
        mk_ = lambda ax: getattr(lop, f)(key, m, n, axis=ax)
        cin = cout = f != "binary_dict_alg"
    M = np.asarray(lop.to_matrix(mk_(0)))
    if f == "dot":
        same(M, np.asarray(v)[None, :], "matrix of dot")
    axis_check(mk_(a), M, case, cin, cout, f)
    return max(case["other"]) > 1


@sub("C04", "float32", gen([k for k in AX if k != "dwt"]), 60, R + "; single precision", x64=False)
def f32(case):
    r = ops.build(case["op"], axis=case["axis"])
    axis_check(r.op, r.M, case, r.cin, r.cout, case["op"]["f"], rtol=1e-4)
    return bool(case["other"] and max(case["other"]) > 1)
