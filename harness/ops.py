"""Catalogue of the operator constructors of cr.sparse.lop.

Every family has gen(draw) -> JSON params and build(params, axis=0) -> Rec with
the real operator and an independent dense reference matrix M acting on the
flattened (C order) input.
"""
import itertools
import math

import numpy as np
import scipy.fft
import scipy.linalg
from hypothesis import strategies as st

import jax
import jax.numpy as jnp
from jax.experimental.sparse import BCOO

import cr.sparse.lop as lop
import cr.wavelets as wt

from harness.g import arr, mk, SEED

FAM = {}
DIMS = [1, 2, 3, 4, 5, 6, 8, 9, 13, 16, 21, 33, 64]


class Rec:
    def __init__(self, op, M, cin=True, cout=True, in_shape=None, out_shape=None):
        self.op = op
        self.M = np.asarray(M)
        self.in_shape = tuple(in_shape) if in_shape is not None else (self.M.shape[1],)
        self.out_shape = tuple(out_shape) if out_shape is not None else (self.M.shape[0],)
        self.cin, self.cout = cin, cout     # complex vectors admitted?


class Family:
    def __init__(self, name, gen, build, axis):
        self.name, self.gen, self.build, self.axis = name, gen, build, axis


def fam(name, axis=False):
    def deco(cls):
        FAM[name] = Family(name, cls.gen, cls.build, axis)
        return cls
    return deco


def dim(draw, lo=1, hi=64):
    return draw(st.sampled_from([d for d in DIMS if lo <= d <= hi]))


@fam("real_matrix")
class _:
    @staticmethod
    def gen(draw):
        return {"A": draw(arr((dim(draw), dim(draw))))}

    @staticmethod
    def build(p, axis=0):
        A = mk(p["A"])
        return Rec(lop.real_matrix(jnp.asarray(A)), A)


@fam("matrix", axis=True)
class _:
    @staticmethod
    def gen(draw):
        c = draw(st.booleans())
        return {"A": draw(arr((dim(draw), dim(draw)), cplx=c))}

    @staticmethod
    def build(p, axis=0):
        A = mk(p["A"])
        return Rec(lop.matrix(jnp.asarray(A), axis=axis), A)


@fam("sparse_real_matrix", axis=True)
class _:
    @staticmethod
    def gen(draw):
        return {"A": draw(arr((dim(draw), dim(draw)), kinds=("s", "t", "q")))}

    @staticmethod
    def build(p, axis=0):
        A = mk(p["A"])
        return Rec(lop.sparse_real_matrix(BCOO.fromdense(jnp.asarray(A)), axis=axis), A)


@fam("diagonal", axis=True)
class _:
    @staticmethod
    def gen(draw):
        return {"d": draw(arr((dim(draw),), cplx=draw(st.booleans())))}

    @staticmethod
    def build(p, axis=0):
        d = mk(p["d"])
        return Rec(lop.diagonal(jnp.asarray(d), axis=axis), np.diag(d))


@fam("scalar_mult")
class _:
    @staticmethod
    def gen(draw):
        return {"a": draw(arr((1,), cplx=draw(st.booleans()))), "n": dim(draw)}

    @staticmethod
    def build(p, axis=0):
        a = mk(p["a"])[0]
        a = complex(a) if p["a"]["c"] else float(a)
        return Rec(lop.scalar_mult(a, p["n"]), a * np.eye(p["n"]))


@fam("zero", axis=True)
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw), "m": draw(st.one_of(st.none(), st.sampled_from(DIMS)))}

    @staticmethod
    def build(p, axis=0):
        m = p["n"] if p["m"] is None else p["m"]
        return Rec(lop.zero(p["n"], p["m"], axis=axis), np.zeros((m, p["n"])))


@fam("identity", axis=True)
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw), "m": draw(st.one_of(st.none(), st.sampled_from(DIMS)))}

    @staticmethod
    def build(p, axis=0):
        m = p["n"] if p["m"] is None else p["m"]
        return Rec(lop.identity(p["n"], p["m"], axis=axis), np.eye(m, p["n"]))


@fam("flipud")
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw)}

    @staticmethod
    def build(p, axis=0):
        return Rec(lop.flipud(p["n"]), np.eye(p["n"])[::-1])


@fam("sum")
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw)}

    @staticmethod
    def build(p, axis=0):
        return Rec(lop.sum(p["n"]), np.ones((1, p["n"])))


@fam("pad_zeros")
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw), "b": draw(st.integers(0, 4)), "a": draw(st.integers(0, 4))}

    @staticmethod
    def build(p, axis=0):
        n, b, a = p["n"], p["b"], p["a"]
        M = np.zeros((n + a + b, n))
        M[b:b + n] = np.eye(n)
        return Rec(lop.pad_zeros(n, b, a), M)


@fam("symmetrize")
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw)}

    @staticmethod
    def build(p, axis=0):
        n = p["n"]
        return Rec(lop.symmetrize(n), np.vstack((np.eye(n)[::-1], np.eye(n))))


@fam("restriction", axis=True)
class _:
    @staticmethod
    def gen(draw):
        n = dim(draw)
        I = draw(st.permutations(list(range(n))))
        return {"n": n, "I": I[:draw(st.integers(1, n))]}

    @staticmethod
    def build(p, axis=0):
        I = np.array(p["I"])
        return Rec(lop.restriction(p["n"], jnp.asarray(I), axis=axis), np.eye(p["n"])[I])


def _heav(n, normalized):
    H = np.tril(np.ones((n, n)))
    if normalized:
        H = H / np.sqrt(np.arange(n, 0, -1))[None, :]
    return H


@fam("heaviside", axis=True)
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw), "norm": draw(st.booleans()), "alias": draw(st.booleans())}

    @staticmethod
    def build(p, axis=0):
        n = p["n"]
        if p["alias"] and not p["norm"]:
            op = lop.cumsum(n, axis=axis)
        else:
            op = lop.heaviside(n, axis=axis, normalized=p["norm"])
        return Rec(op, _heav(n, p["norm"]))


@fam("inv_heaviside", axis=True)
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw), "norm": draw(st.booleans()), "alias": draw(st.booleans())}

    @staticmethod
    def build(p, axis=0):
        n = p["n"]
        if p["alias"] and not p["norm"]:
            op = lop.diff(n, axis=axis)
        else:
            op = lop.inv_heaviside(n, axis=axis, normalized=p["norm"])
        return Rec(op, np.linalg.inv(_heav(n, p["norm"])))


def _fir(n, h, off):
    """y[i] = sum_k h[k] x[i + off - k]"""
    M = np.zeros((n, n), dtype=np.asarray(h).dtype)
    for i in range(n):
        for k in range(len(h)):
            j = i + off - k
            if 0 <= j < n:
                M[i, j] += h[k]
    return M


@fam("running_average", axis=True)
class _:
    @staticmethod
    def gen(draw):
        n = dim(draw)
        return {"n": n, "L": draw(st.integers(1, n))}

    @staticmethod
    def build(p, axis=0):
        n, L = p["n"], p["L"]
        return Rec(lop.running_average(n, L, axis=axis), _fir(n, np.ones(L) / L, (L - 1) // 2))


@fam("fir_filter", axis=True)
class _:
    @staticmethod
    def gen(draw):
        n = dim(draw)
        L = draw(st.integers(1, min(n, 6)))
        return {"n": n, "h": draw(arr((L,), cplx=draw(st.booleans())))}

    @staticmethod
    def build(p, axis=0):
        n, h = p["n"], mk(p["h"])
        return Rec(lop.fir_filter(n, jnp.asarray(h), axis=axis), _fir(n, h, (len(h) - 1) // 2))


@fam("convolve", axis=True)
class _:
    @staticmethod
    def gen(draw):
        n = dim(draw)
        L = draw(st.integers(1, 6))
        return {"n": n, "h": draw(arr((L,), cplx=draw(st.booleans()))), "off": draw(st.integers(0, L - 1))}

    @staticmethod
    def build(p, axis=0):
        n, h = p["n"], mk(p["h"])
        return Rec(lop.convolve(n, jnp.asarray(h), offset=p["off"], axis=axis), _fir(n, h, p["off"]))


def _convnd(shape, h, off, axes):
    size = int(np.prod(shape))
    M = np.zeros((size, size), dtype=h.dtype)
    for i in itertools.product(*[range(s) for s in shape]):
        r = np.ravel_multi_index(i, shape)
        for k in itertools.product(*[range(s) for s in h.shape]):
            j = list(i)
            for a, ax in enumerate(axes):
                j[ax] = i[ax] + off[a] - k[a]
            if all(0 <= j[d] < shape[d] for d in range(len(shape))):
                M[r, np.ravel_multi_index(j, shape)] += h[k]
    return M


def _gen_conv(draw, nd, fd):
    shape = [draw(st.integers(1, 5 if nd < 3 else 3)) for _ in range(nd)]
    hs = [draw(st.integers(1, 3)) for _ in range(fd)]
    axes = sorted(draw(st.permutations(list(range(nd))))[:fd])
    dflt_axes = axes == list(range(fd)) and draw(st.booleans())
    off = draw(st.one_of(st.none(), st.tuples(*[st.integers(0, s - 1) for s in hs])))
    return {"shape": shape, "h": draw(arr(hs, cplx=draw(st.booleans()))),
            "off": None if off is None else list(off), "axes": axes, "dax": dflt_axes}


def _build_conv(p, fn):
    h = mk(p["h"])
    off = [0] * h.ndim if p["off"] is None else p["off"]
    op = fn(tuple(p["shape"]), jnp.asarray(h), offset=None if p["off"] is None else tuple(p["off"]),
            axes=None if p["dax"] else tuple(p["axes"]))
    return Rec(op, _convnd(p["shape"], h, off, p["axes"]), in_shape=p["shape"], out_shape=p["shape"])


@fam("convolve2D")
class _:
    @staticmethod
    def gen(draw):
        return _gen_conv(draw, draw(st.sampled_from([2, 2, 3])), 2)

    @staticmethod
    def build(p, axis=0):
        return _build_conv(p, lop.convolve2D)


@fam("convolveND")
class _:
    @staticmethod
    def gen(draw):
        nd = draw(st.sampled_from([1, 2, 3]))
        return _gen_conv(draw, nd, draw(st.integers(1, nd)))

    @staticmethod
    def build(p, axis=0):
        return _build_conv(p, lop.convolveND)


@fam("reshape")
class _:
    @staticmethod
    def gen(draw):
        f = draw(st.lists(st.sampled_from([1, 2, 3]), min_size=2, max_size=4))
        a = draw(st.permutations(f))
        cut = draw(st.integers(0, len(f) - 1))
        out = a[:cut] + [int(np.prod(a[cut:]))]
        return {"a": f, "b": out, "order": draw(st.sampled_from(["C", "F"]))}

    @staticmethod
    def build(p, axis=0):
        a, b, o = tuple(p["a"]), tuple(p["b"]), p["order"]
        n = int(np.prod(a))
        idx = np.arange(n).reshape(a)           # flat C index at each position
        perm = idx.reshape(b, order=o).ravel()  # out flat -> in flat
        return Rec(lop.reshape(a, b, order=o), np.eye(n)[perm], in_shape=a, out_shape=b)


@fam("arr2vec")
class _:
    @staticmethod
    def gen(draw):
        return {"a": draw(st.lists(st.sampled_from([1, 2, 3]), min_size=1, max_size=4))}

    @staticmethod
    def build(p, axis=0):
        a = tuple(p["a"])
        n = int(np.prod(a))
        return Rec(lop.arr2vec(a), np.eye(n), in_shape=a, out_shape=(n,))


def _dft(n, m=None):
    m = n if m is None else m
    return np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(m)) / n)


@fam("fourier_basis")
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw)}

    @staticmethod
    def build(p, axis=0):
        n = p["n"]
        return Rec(lop.fourier_basis(n), _dft(n).conj().T / np.sqrt(n))


@fam("dirac_fourier_basis")
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw)}

    @staticmethod
    def build(p, axis=0):
        n = p["n"]
        return Rec(lop.dirac_fourier_basis(n), np.hstack((np.eye(n), _dft(n).conj().T / np.sqrt(n))))


@fam("cosine_basis")
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw)}

    @staticmethod
    def build(p, axis=0):
        n = p["n"]
        D = scipy.fft.dct(np.eye(n), type=2, norm="ortho", axis=0)   # DCT-II matrix
        return Rec(lop.cosine_basis(n), D.T, cin=False, cout=False)


def walsh(n):
    H = scipy.linalg.hadamard(n).astype(float)
    changes = (np.diff(H, axis=1) != 0).sum(axis=1)
    return H[np.argsort(changes)] / np.sqrt(n)


@fam("walsh_hadamard_basis")
class _:
    @staticmethod
    def gen(draw):
        return {"n": draw(st.sampled_from([2, 4, 8, 16, 32, 64]))}

    @staticmethod
    def build(p, axis=0):
        return Rec(lop.walsh_hadamard_basis(p["n"]), walsh(p["n"]))


@fam("fft", axis=True)
class _:
    @staticmethod
    def gen(draw):
        m = dim(draw)
        n = draw(st.one_of(st.none(), st.integers(m, m + 5)))
        return {"m": m, "n": n, "mode": draw(st.sampled_from(["r2c", "c2c"]))}

    @staticmethod
    def build(p, axis=0):
        n = p["m"] if p["n"] is None else p["n"]
        return Rec(lop.fft(p["m"], p["n"], axis=axis, mode=p["mode"]), _dft(n, p["m"]),
                   cin=p["mode"] == "c2c")


ORTHO = ["haar", "db1", "db2", "db3", "db4", "sym2", "sym4", "coif1"]


def analysis1(n, name):
    """One level of the periodized DWT as a dense matrix, columns from cr.wavelets.dwt."""
    rows = []
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1.0
        a, d = wt.dwt(jnp.asarray(e), name, mode="periodization")
        rows.append(np.concatenate((np.asarray(a), np.asarray(d))))
    return np.array(rows).T


def dwt_matrix(m, name, level):
    M = np.eye(m)
    k = m
    for _ in range(level):
        W = np.eye(m)
        W[:k, :k] = analysis1(k, name)
        M = W @ M
        k //= 2
    return M


def maxlev(n, name):
    L = wt.to_wavelet(name).dec_len
    return max(0, int(math.floor(math.log2(n / (L - 1.0))))) if n >= L - 1 else 0


def gen_dwt(draw, names=ORTHO, nmax=32):
    name = draw(st.sampled_from(names))
    cand = [n for n in (2, 3, 4, 6, 8, 11, 13, 16, 20, 32) if n <= nmax and maxlev(n, name) >= 1]
    n = draw(st.sampled_from(cand))
    return {"n": n, "w": name, "lev": draw(st.integers(1, maxlev(n, name))), "basis": draw(st.booleans())}


def pow2(n):
    m = 1
    while m < n:
        m *= 2
    return m


@fam("dwt", axis=True)
class _:
    gen = staticmethod(gen_dwt)

    @staticmethod
    def build(p, axis=0):
        n, m = p["n"], pow2(p["n"])
        W = dwt_matrix(m, p["w"], p["lev"])[:, :n]
        op = lop.dwt(n, wavelet=p["w"], level=p["lev"], axis=axis, basis=p["basis"])
        # orthogonal wavelets: synthesis is the transpose of analysis
        return Rec(op, W.T if p["basis"] else W)


def dwt2_ref(shape, name, lev, axes):
    """Dense matrix of the separable 2-D DWT over two axes of an N-D array."""
    a0, a1 = axes
    out = list(shape)
    out[a0], out[a1] = pow2(shape[a0]), pow2(shape[a1])
    size, osize = int(np.prod(shape)), int(np.prod(out))
    M = np.zeros((osize, size))
    mats = {}
    for j in range(size):
        x = np.zeros(size)
        x[j] = 1.0
        X = np.zeros(out)
        X[tuple(slice(0, s) for s in shape)] = x.reshape(shape)
        k0, k1 = out[a0], out[a1]
        for _ in range(lev):
            sl = [slice(None)] * len(out)
            sl[a0], sl[a1] = slice(0, k0), slice(0, k1)
            B = X[tuple(sl)]
            for ax, k in ((a0, k0), (a1, k1)):
                if (k, name) not in mats:
                    mats[(k, name)] = analysis1(k, name)
                B = np.moveaxis(np.tensordot(mats[(k, name)], B, axes=(1, ax)), 0, ax)
            X[tuple(sl)] = B
            k0, k1 = k0 // 2, k1 // 2
        M[:, j] = X.ravel()
    return M, tuple(out)


@fam("dwt2D")
class _:
    @staticmethod
    def gen(draw, names=ORTHO):
        name = draw(st.sampled_from(["haar", "haar", "db2"] if names is ORTHO else names))
        cand = [n for n in (2, 3, 4, 5, 6, 8) if maxlev(n, name) >= 1]
        nd = draw(st.sampled_from([2, 2, 3]))
        axes = draw(st.permutations(list(range(nd))))[:2] if nd == 3 else [0, 1]
        axes = sorted(axes)
        shape = [draw(st.integers(1, 2))] * nd
        for a in axes:
            shape[a] = draw(st.sampled_from(cand))
        if names is ORTHO and draw(st.integers(0, 3)) == 3:      # three levels
            name, nd, axes = "haar", 2, [0, 1]
            shape = [draw(st.sampled_from([8, 8, 9])), 8]
        lev = min(maxlev(shape[a], name) for a in axes)
        return {"shape": shape, "w": name, "lev": draw(st.sampled_from(list(range(1, lev + 1)) + [lev])), "axes": axes,
                "dax": axes == [0, 1] and draw(st.booleans()), "basis": draw(st.booleans())}

    @staticmethod
    def build(p, axis=0):
        W, out = dwt2_ref(p["shape"], p["w"], p["lev"], p["axes"])
        op = lop.dwt2D(tuple(p["shape"]), wavelet=p["w"], level=p["lev"],
                       axes=None if p["dax"] else tuple(p["axes"]), basis=p["basis"])
        if p["basis"]:
            return Rec(op, W.T, in_shape=out, out_shape=p["shape"])
        return Rec(op, W, in_shape=p["shape"], out_shape=out)


def _dx(draw):
    return draw(st.sampled_from([1.0, 0.5, 2.0, 0.1, 3.25]))


@fam("first_derivative")
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw, 3), "dx": _dx(draw), "kind": draw(st.sampled_from(["forward", "backward", "centered"]))}

    @staticmethod
    def build(p, axis=0):
        n, dx, kind = p["n"], p["dx"], p["kind"]
        M = np.zeros((n, n))
        for i in range(n):
            if kind == "forward" and i < n - 1:
                M[i, i + 1], M[i, i] = 1, -1
            if kind == "backward" and i > 0:
                M[i, i], M[i, i - 1] = 1, -1
            if kind == "centered" and 0 < i < n - 1:
                M[i, i + 1], M[i, i - 1] = 0.5, -0.5
        return Rec(lop.first_derivative(n, dx=dx, kind=kind), M / dx)


@fam("second_derivative")
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw, 3), "dx": _dx(draw)}

    @staticmethod
    def build(p, axis=0):
        n, dx = p["n"], p["dx"]
        M = np.zeros((n, n))
        for i in range(1, n - 1):
            M[i, i - 1:i + 2] = [1, -2, 1]
        return Rec(lop.second_derivative(n, dx=dx), M / dx ** 2)


def _tv(n, kind):
    M = np.zeros((n, n))
    for i in range(n - 1):
        M[i, i], M[i, i + 1] = -1, 1
    if kind == "dirichlet":
        M[n - 1, n - 1] = -1
    if kind == "circular":
        M[n - 1, n - 1] -= 1
        M[n - 1, 0] += 1
    return M


KINDS = ["regular", "dirichlet", "circular"]


@fam("tv", axis=True)
class _:
    @staticmethod
    def gen(draw):
        return {"n": dim(draw, 2), "kind": draw(st.sampled_from(KINDS))}

    @staticmethod
    def build(p, axis=0):
        return Rec(lop.tv(p["n"], kind=p["kind"], axis=axis), _tv(p["n"], p["kind"]))


@fam("tv2D")
class _:
    @staticmethod
    def gen(draw):
        return {"h": draw(st.integers(2, 5)), "w": draw(st.integers(2, 5)), "kind": draw(st.sampled_from(KINDS))}

    @staticmethod
    def build(p, axis=0):
        h, w = p["h"], p["w"]
        M = np.kron(np.eye(h), _tv(w, p["kind"])) + 1j * np.kron(_tv(h, p["kind"]), np.eye(w))
        return Rec(lop.tv2D((h, w), kind=p["kind"]), M, in_shape=(h, w), out_shape=(h, w))


@fam("circulant", axis=True)
class _:
    @staticmethod
    def gen(draw):
        n = dim(draw)
        return {"n": n, "c": draw(arr((draw(st.integers(1, n)),)))}

    @staticmethod
    def build(p, axis=0):
        c = mk(p["c"])
        full = np.zeros(p["n"])
        full[:len(c)] = c
        return Rec(lop.circulant(p["n"], jnp.asarray(c), axis=axis), scipy.linalg.circulant(full),
                   cin=False, cout=False)


@fam("dot")
class _:
    @staticmethod
    def gen(draw):
        nd = draw(st.sampled_from([1, 1, 2]))
        sh = [draw(st.integers(1, 6)) for _ in range(nd)]
        return {"v": draw(arr(sh)), "adj": draw(st.booleans())}

    @staticmethod
    def build(p, axis=0):
        v = mk(p["v"])
        op = lop.dot(jnp.asarray(v), adjoint=p["adj"])
        M = v.reshape(1, -1)
        if p["adj"]:
            return Rec(op, M.T, cin=False, cout=False, in_shape=(1,), out_shape=v.shape)
        return Rec(op, M, cin=False, cout=False, in_shape=v.shape, out_shape=(1,))


# --------------------------------------------- random small square/any operators
SIMPLE = ["matrix", "diagonal", "identity", "flipud", "convolve", "fir_filter", "heaviside",
          "restriction", "fourier_basis", "tv", "second_derivative", "first_derivative", "walsh_hadamard_basis",
          "pad_zeros", "symmetrize", "running_average", "sparse_real_matrix", "scalar_mult", "sum", "zero"]


@st.composite
def any_op(draw, names=None):
    name = draw(st.sampled_from(names or sorted(FAM)))
    return {"f": name, "p": FAM[name].gen(draw)}


def build(o, axis=0):
    return FAM[o["f"]].build(o["p"], axis=axis)
