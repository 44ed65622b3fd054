"""C01: every operator's trans is the adjoint of its times."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.lop as lop

from harness.core import sub, require
from harness.g import arr, mk
from harness import ops

GROUPS = {
    "basic": ["real_matrix", "matrix", "sparse_real_matrix", "diagonal", "scalar_mult", "zero", "identity",
              "flipud", "sum", "pad_zeros", "symmetrize", "restriction", "dot"],
    "cumulative": ["heaviside", "inv_heaviside", "first_derivative", "second_derivative", "tv"],
    "filters": ["running_average", "fir_filter", "convolve", "circulant"],
    "convnd": ["convolve2D", "convolveND", "reshape", "arr2vec"],
    "transforms": ["fourier_basis", "dirac_fourier_basis", "cosine_basis", "walsh_hadamard_basis", "fft"],
    "dwt": ["dwt"],
    "dwt2d": ["dwt2D"],
}
N = {"basic": 260, "cumulative": 200, "filters": 160, "convnd": 160, "transforms": 160, "dwt": 70, "dwt2d": 40}


@st.composite
def gen(draw, names):
    o = draw(ops.any_op(names))
    return {"op": o, "us": draw(st.integers(0, 2**20)), "cx": draw(st.booleans())}


def vectors(case, r, rng):
    cin = r.cin and case["cx"]
    cout = r.cout and case["cx"]

    def vec(shape, c):
        x = rng.standard_normal(shape)
        return x + 1j * rng.standard_normal(shape) if c else x
    return vec(r.in_shape, cin), vec(r.out_shape, cout)


def adjoint_law(case, tol):
    r = ops.build(case["op"])
    rng = np.random.RandomState(case["us"])
    u, v = vectors(case, r, rng)
    Tu = np.asarray(r.op.times(jnp.asarray(u)))
    Tv = np.asarray(r.op.trans(jnp.asarray(v)))
    require(Tu.shape == r.out_shape, "times: wrong output shape", got=Tu.shape, want=r.out_shape)
    require(Tv.shape == r.in_shape, "trans: wrong output shape", got=Tv.shape, want=r.in_shape)
    a, b = np.vdot(Tu, v), np.vdot(u, Tv)
    bound = np.linalg.norm(Tu) * np.linalg.norm(v) + np.linalg.norm(u) * np.linalg.norm(Tv)
    require(np.isfinite(a) and np.isfinite(b) and abs(a - b) <= tol * (bound + 1e-30),
            f"<Tx,y> != <x,T^H y> for {case['op']['f']}", lhs=a, rhs=b)
    return np.any(r.M != 0) and min(r.M.shape) >= 1 and abs(a) > 1e-12


def _mk(name, names, n):
    @sub("C01", name, gen(names), n,
         "operator parameters drawn per family, gaussian vectors (complex where the operator admits them); "
         "non-trivial = the inner product is non-zero")
    def f(case):
        return adjoint_law(case, 1e-9)


for _n, _names in GROUPS.items():
    _mk(_n, _names, N[_n])


@st.composite
def gen_axis(draw):
    nd = draw(st.sampled_from([2, 2, 2, 3, 4]))
    return {"op": draw(ops.any_op(AXIS)), "axis": draw(st.integers(0, nd - 1)), "other": [draw(st.integers(1, 3)) for _ in range(nd - 1)],
            "us": draw(st.integers(0, 2**20)), "cx": draw(st.sampled_from([True, True, False]))}


AXIS = [k for k, f in sorted(ops.FAM.items()) if f.axis] + ["matrix", "matrix", "diagonal", "convolve", "fir_filter"]


def _axis(case):
    ok = False
    for a, o in [(case["axis"], case["other"])] + ([] if case["op"]["f"] == "dwt" else [(0, [2]), (1, [3])]):
        ok = _axis1(dict(case, axis=a, other=o)) or ok
    return ok


def _axis1(case):
    r = ops.build(case["op"], axis=case["axis"])
    rng = np.random.RandomState(case["us"])
    a, o = case["axis"], case["other"]
    r.in_shape = tuple(o[:a] + [r.M.shape[1]] + o[a:])
    r.out_shape = tuple(o[:a] + [r.M.shape[0]] + o[a:])
    u, v = vectors(case, r, rng)
    Tu = np.asarray(r.op.times(jnp.asarray(u)))
    Tv = np.asarray(r.op.trans(jnp.asarray(v)))
    require(Tu.shape == r.out_shape, "times: wrong output shape", got=Tu.shape, want=r.out_shape)
    require(Tv.shape == r.in_shape, "trans: wrong output shape", got=Tv.shape, want=r.in_shape)
    a, b = np.vdot(Tu, v), np.vdot(u, Tv)
    bound = np.linalg.norm(Tu) * np.linalg.norm(v) + np.linalg.norm(u) * np.linalg.norm(Tv)
    require(np.isfinite(a) and np.isfinite(b) and abs(a - b) <= 1e-9 * (bound + 1e-30),
            f"<Tx,y> != <x,T^H y> for {case['op']['f']} along axis {case['axis']} of an array", lhs=a, rhs=b)
    return abs(a) > 1e-12


RA = ("operators with an axis parameter on arrays of 2 to 4 dimensions, complex where admitted; non-trivial = the inner "
      "product is non-zero")


@sub("C01", "axis_a", gen_axis(), 80, RA)
def axis_a(case):
    return _axis(case)


@sub("C01", "axis_b", gen_axis(), 80, RA)
def axis_b(case):
    return _axis(case)


@sub("C01", "tv2d", gen(["tv2D"]), 50,
     "2-D total variation: trans is the plain transpose (bilinear form), see the statement; "
     "non-trivial = the bilinear form is non-zero")
def tv2d(case):
    r = ops.build(case["op"])
    rng = np.random.RandomState(case["us"])
    u, v = vectors(case, r, rng)
    Tu = np.asarray(r.op.times(jnp.asarray(u)))
    Tv = np.asarray(r.op.trans(jnp.asarray(v)))
    require(Tu.shape == r.out_shape and Tv.shape == r.in_shape, "wrong shapes", t=Tu.shape, s=Tv.shape)
    a, b = np.sum(Tu * v), np.sum(u * Tv)
    bound = np.linalg.norm(Tu) * np.linalg.norm(v) + np.linalg.norm(u) * np.linalg.norm(Tv)
    require(np.isfinite(a) and np.isfinite(b) and abs(a - b) <= 1e-9 * (bound + 1e-30),
            "sum((Tx) y) != sum(x (T^T y)) for tv2D", lhs=a, rhs=b)
    return abs(a) > 1e-12


@sub("C01", "tv2d_adjoint", gen(["tv2D"]), 0, "only replays the recorded finding")
def tv2d_adjoint(case):
    return adjoint_law(case, 1e-9)
