"""C02: forward / adjoint action equals the documented dense matrix."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.lop as lop

from harness.core import sub, require
from harness.g import same
from harness import ops

GROUPS = {
    "basic": ["real_matrix", "matrix", "sparse_real_matrix", "diagonal", "scalar_mult", "zero", "identity"],
    "index": ["flipud", "sum", "pad_zeros", "symmetrize", "restriction", "reshape", "arr2vec", "dot"],
    "calculus": ["heaviside", "inv_heaviside", "first_derivative", "second_derivative", "tv", "tv2D"],
    "filters": ["running_average", "fir_filter", "convolve", "circulant"],
    "convnd": ["convolve2D", "convolveND"],
    "transforms": ["fourier_basis", "dirac_fourier_basis", "cosine_basis", "walsh_hadamard_basis", "fft"],
    "dwt": ["dwt"],
    "dwt2d": ["dwt2D"],
}
N = {"basic": 130, "index": 130, "calculus": 130, "filters": 90, "convnd": 90, "transforms": 90, "dwt": 50, "dwt2d": 35}


@st.composite
def gen(draw, names):
    o = draw(ops.any_op(names))
    return {"op": o, "us": draw(st.integers(0, 2**20)), "cx": draw(st.booleans()),
            "i": draw(st.integers(0, 1000)), "k": draw(st.integers(1, 4))}


def vec(rng, shape, c):
    x = rng.standard_normal(shape)
    return x + 1j * rng.standard_normal(shape) if c else x


def action(case, rtol):
    """times = M, trans = M^H, to_matrix & co."""
    r = ops.build(case["op"])
    rng = np.random.RandomState(case["us"])
    name = case["op"]["f"]
    M = r.M
    MH = M.T if name == "tv2D" else M.conj().T
    x = vec(rng, r.in_shape, r.cin and case["cx"])
    y = vec(rng, r.out_shape, r.cout and case["cx"])
    sc = 1 + np.abs(M).max(initial=0) * 8
    at = rtol * sc
    got = np.asarray(r.op.times(jnp.asarray(x)))
    same(got, (M @ x.ravel()).reshape(r.out_shape), f"{name}.times", rtol=rtol, atol=at)
    got = np.asarray(r.op.trans(jnp.asarray(y)))
    same(got, (MH @ y.ravel()).reshape(r.in_shape), f"{name}.trans", rtol=rtol, atol=at)
    # metadata
    require(tuple(r.op.input_shape) == r.in_shape and tuple(r.op.output_shape) == r.out_shape,
            f"{name}: wrong declared shape", got=r.op.shape, want=(r.out_shape, r.in_shape))
    require(r.op.input_size == M.shape[1] and r.op.output_size == M.shape[0], f"{name}: wrong sizes")
    require(r.op.input_ndim == len(r.in_shape) and r.op.output_ndim == len(r.out_shape), f"{name}: wrong ndims")
    if np.iscomplexobj(M) and np.any(M.imag != 0) and name != "tv2D":
        require(not r.op.real, f"{name}: complex operator flagged real")
    if not np.iscomplexobj(M):
        require(r.op.real, f"{name}: real operator not flagged real")
    require(r.op.linear and r.op.jit_safe, f"{name}: flags", linear=r.op.linear, jit_safe=r.op.jit_safe)
    # dense representations
    k = case["k"]
    if k == 1:
        same(np.asarray(lop.to_matrix(r.op)), M, f"to_matrix({name})", rtol=rtol, atol=at)
    elif k == 2:
        same(np.asarray(lop.to_adjoint_matrix(r.op)), MH, f"to_adjoint_matrix({name})", rtol=rtol, atol=at)
    elif k == 3 and r.cin:
        same(np.asarray(lop.to_complex_matrix(r.op)), M.astype(complex), f"to_complex_matrix({name})", rtol=rtol, atol=at)
    elif k == 4 and isinstance(r.op.shape[1], int):
        j = case["i"] % M.shape[1]
        same(np.asarray(r.op.column(j)), M[:, j].reshape(r.out_shape), f"{name}.column({j})", rtol=rtol, atol=at)
        same(np.asarray(lop.column(r.op, j)), M[:, j].reshape(r.out_shape), f"lop.column({name},{j})", rtol=rtol, atol=at)
        if r.op.matrix_safe and len(r.out_shape) == 1:
            J = rng.permutation(M.shape[1])[:1 + case["i"] % 4]
            same(np.asarray(r.op.columns(jnp.asarray(J))), M[:, J], f"{name}.columns({J})", rtol=rtol, atol=at)
            v = np.asarray(r.op.apply_columns(jnp.asarray(x), jnp.asarray(J)))
            same(v, M[:, J] @ x[J], f"{name}.apply_columns", rtol=rtol, atol=at)
    return bool(np.any(M != 0))


def linear(case):
    """T(a x + b z) = a T x + b T z without reference to a matrix."""
    r = ops.build(case["op"])
    rng = np.random.RandomState(case["us"])
    cx = r.cin and r.cout and case["cx"]
    x, z = vec(rng, r.in_shape, cx), vec(rng, r.in_shape, cx)
    a, b = vec(rng, (), cx), vec(rng, (), cx)
    T = r.op.times
    same(np.asarray(T(jnp.asarray(a * x + b * z))),
         a * np.asarray(T(jnp.asarray(x))) + b * np.asarray(T(jnp.asarray(z))), f"linearity of {case['op']['f']}",
         rtol=1e-9, atol=1e-9 * (1 + np.abs(r.M).max(initial=0)))
    return True


RULE = ("parameters drawn per family, gaussian vectors; reference = dense matrix built independently "
        "in float64; non-trivial = the matrix is non-zero")


def _mk(name, names, n):
    @sub("C02", name, gen(names), n, RULE)
    def f(case):
        return action(case, 1e-10)


for _n, _names in GROUPS.items():
    _mk(_n, _names, N[_n])

F32 = [n for n in sorted(ops.FAM) if n not in ("dwt", "dwt2D")]


@sub("C02", "float32", gen(F32), 120, RULE + "; single precision", x64=False)
def f32(case):
    return action(case, 3e-5)


@sub("C02", "linearity", gen(sorted(ops.FAM)), 80, "random combination of two inputs; all cases are non-trivial")
def lin(case):
    return linear(case)


@st.composite
def gen_int(draw):
    o = draw(ops.any_op([n for n in sorted(ops.FAM) if n not in ("dwt2D",)]))
    return {"op": o, "us": draw(st.integers(0, 2**20))}


@sub("C02", "integer_input", gen_int(), 90, "integer-typed input vectors give the values of the same "
     "vector in floating point; non-trivial = the result is non-zero")
def integer(case):
    r = ops.build(case["op"])
    rng = np.random.RandomState(case["us"])
    x = rng.randint(-4, 5, size=r.in_shape)
    got = np.asarray(r.op.times(jnp.asarray(x)))
    want = (r.M @ x.ravel()).reshape(r.out_shape)
    same(got, want, f"{case['op']['f']}.times on integer input", rtol=1e-9, atol=1e-9 * (1 + np.abs(r.M).max(initial=0)))
    return bool(np.any(want != 0))
