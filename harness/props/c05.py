"""C05: orthonormal bases are isometries; wavelet transforms reconstruct perfectly."""
import numpy as np
import scipy.fft
import scipy.linalg
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.dict as crd
import cr.wavelets as wt

from harness.core import sub, require
from harness.g import same, SEED
from harness import ops

WAVES = [w for w in wt.wavelist(kind="discrete") if w != "dmey"]
BIO = [w for w in WAVES if w.startswith(("bior", "rbio"))]
ORT = [w for w in WAVES if w not in BIO]


def vec(rng, shape, c):
    x = rng.standard_normal(shape)
    return x + 1j * rng.standard_normal(shape) if c else x


# ---------------------------------------------------------------- lop bases
@st.composite
def gen_onb(draw):
    f = draw(st.sampled_from(["fourier_basis", "cosine_basis", "walsh_hadamard_basis", "random_onb_dict",
                              "dirac_fourier_basis", "random_orthonormal_rows_dict"]))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 50, 64, 100]))
    if f == "walsh_hadamard_basis":
        n = draw(st.sampled_from([2, 4, 8, 16, 32, 64, 128]))
    return {"f": f, "n": n, "m": draw(st.integers(1, n)), "key": draw(SEED), "us": draw(SEED), "cx": draw(st.booleans()),
            "k": draw(st.integers(0, 3))}


@sub("C05", "lop_bases", gen_onb(), 150, "operator bases of order 1..128, real and complex data, vectors and "
     "matrices of vectors; T^H T = I, T T^H = I (2I for Dirac+Fourier), norms preserved; non-trivial = n > 1")
def lop_bases(case):
    f, n = case["f"], case["n"]
    key = jax.random.PRNGKey(case["key"])
    rng = np.random.RandomState(case["us"])
    cx = case["cx"] and f != "cosine_basis"
    ext = (case["k"],) if case["k"] > 1 else ()
    if f == "random_orthonormal_rows_dict":
        T = lop.random_orthonormal_rows_dict(key, case["m"], n)
        y = vec(rng, (case["m"],) + ext, cx)
        same(np.asarray(T.times(T.trans(jnp.asarray(y)))), y, "rows not orthonormal", rtol=1e-9)
        z = np.asarray(T.trans(jnp.asarray(y)))
        require(abs(np.linalg.norm(z) - np.linalg.norm(y)) <= 1e-9 * (1 + np.linalg.norm(y)), "adjoint is not an isometry")
        return n > 1
    T = lop.random_onb_dict(key, n) if f == "random_onb_dict" else getattr(lop, f)(n)
    y = vec(rng, (n,) + ext, cx)
    if f == "dirac_fourier_basis":
        same(np.asarray(T.times(T.trans(jnp.asarray(y)))), 2 * y, "Dirac-Fourier is not a tight frame", rtol=1e-9)
        c = np.asarray(T.trans(jnp.asarray(y)))
        require(abs(np.linalg.norm(c) ** 2 - 2 * np.linalg.norm(y) ** 2) <= 1e-9 * (1 + np.linalg.norm(y) ** 2), "tight frame energy")
        return n > 1
    a, b = np.asarray(T.trans(jnp.asarray(y))), np.asarray(T.times(jnp.asarray(y)))
    ny = np.linalg.norm(y)
    require(abs(np.linalg.norm(a) - ny) <= 1e-9 * (1 + ny), f"{f}.trans is not an isometry")
    require(abs(np.linalg.norm(b) - ny) <= 1e-9 * (1 + ny), f"{f}.times is not an isometry")
    same(np.asarray(T.times(jnp.asarray(a))), y, f"{f}: T T^H y != y", rtol=1e-9)
    same(np.asarray(T.trans(jnp.asarray(b))), y, f"{f}: T^H T y != y", rtol=1e-9)
    if f == "walsh_hadamard_basis":
        same(a, b, "Walsh-Hadamard is not self-adjoint", rtol=1e-9)
    return n > 1


# ---------------------------------------------------------------- wavelet operators
@st.composite
def gen_dwt(draw, names):
    w = draw(st.sampled_from(names))
    L = wt.to_wavelet(w).dec_len
    cand = [n for n in (2, 3, 5, 6, 7, 8, 12, 16, 21, 32, 40, 64, 100, 128, 200, 256) if wt.dwt_max_level(n, L) >= 1]
    n = draw(st.sampled_from(cand))
    ml = wt.dwt_max_level(n, L)
    return {"w": w, "n": n, "lev": draw(st.integers(1, ml)), "basis": draw(st.booleans()), "us": draw(SEED),
            "cx": draw(st.booleans()), "cols": draw(st.integers(0, 2)), "axis": draw(st.integers(0, 1))}


def pr1(case):
    w, n = case["w"], case["n"]
    T = lop.dwt(n, wavelet=w, level=case["lev"], basis=case["basis"], axis=case["axis"] if case["cols"] else 0)
    W, V = (T.trans, T.times) if case["basis"] else (T.times, T.trans)
    rng = np.random.RandomState(case["us"])
    cx = False
    sh = (n,) if not case["cols"] else ((n, case["cols"]) if case["axis"] == 0 else (case["cols"], n))
    x = vec(rng, sh, cx)
    c = np.asarray(W(jnp.asarray(x)))
    m = ops.pow2(n)
    want = tuple(m if s == n and (i == (case["axis"] if case["cols"] else 0)) else s for i, s in enumerate(sh))
    require(c.shape == want, "dwt coefficient shape", got=c.shape, want=want)
    same(np.asarray(V(jnp.asarray(c))), x, f"{w}: inverse transform of the transform differs from the signal", rtol=1e-5, atol=1e-5)
    require(tuple(T.shape) == ((n, m) if case["basis"] else (m, n)), "dwt operator shape", got=T.shape)
    if not w.startswith(("bior", "rbio")):
        nx = np.linalg.norm(x)
        require(abs(np.linalg.norm(c) - nx) <= 1e-5 * (1 + nx), f"{w}: the analysis of an orthogonal wavelet must preserve the norm")
        if m == n:
            same(np.asarray(W(V(jnp.asarray(x)))), x, f"{w}: W W^H != I", rtol=1e-5, atol=1e-5)
    # a constant signal has no detail
    if m == n and not case["cols"]:
        c = np.asarray(W(jnp.ones(n)))
        k = n >> case["lev"]
        require(np.abs(c[k:]).max(initial=0) <= 1e-4, f"{w}: details of a constant signal are not zero")
    return case["lev"] > 1 or m != n


@sub("C05", "dwt_orthogonal", gen_dwt(ORT), 45, "all orthogonal discrete wavelets, lengths 2..256 (not only powers of "
     "two), all admissible levels; non-trivial = more than one level or padding")
def d1(case):
    return pr1(case)


@sub("C05", "dwt_biorthogonal", gen_dwt(BIO), 45, "all biorthogonal wavelets; perfect reconstruction; non-trivial = "
     "more than one level or padding")
def d2(case):
    return pr1(case)


@st.composite
def gen_dwt2(draw):
    w = draw(st.sampled_from(["haar", "db2", "db3", "sym4", "coif1", "bior2.2", "bior1.3", "rbio2.2", "bior3.3"]))
    L = wt.to_wavelet(w).dec_len
    cand = [n for n in (2, 3, 5, 8, 12, 16, 23, 32) if wt.dwt_max_level(n, L) >= 1]
    nd = draw(st.sampled_from([2, 2, 3]))
    axes = draw(st.permutations(list(range(nd))))[:2]
    shape = [draw(st.integers(1, 3)) for _ in range(nd)]
    for a in axes:
        shape[a] = draw(st.sampled_from(cand))
    ml = min(wt.dwt_max_level(shape[a], L) for a in axes)
    return {"w": w, "shape": shape, "axes": axes, "lev": draw(st.integers(1, ml)), "basis": draw(st.booleans()), "us": draw(SEED)}


@sub("C05", "dwt2d", gen_dwt2(), 50, "2-D wavelet transforms over any two axes (either order) of 2-D and 3-D arrays; non-trivial = more "
     "than one level, padding or 3-D")
def d3(case):
    w, sh, axes = case["w"], tuple(case["shape"]), tuple(case["axes"])
    T = lop.dwt2D(sh, wavelet=w, level=case["lev"], axes=axes, basis=case["basis"])
    W, V = (T.trans, T.times) if case["basis"] else (T.times, T.trans)
    x = np.random.RandomState(case["us"]).standard_normal(sh)
    c = np.asarray(W(jnp.asarray(x)))
    out = list(sh)
    for a in axes:
        out[a] = ops.pow2(sh[a])
    require(c.shape == tuple(out), "dwt2D coefficient shape", got=c.shape, want=tuple(out))
    same(np.asarray(V(jnp.asarray(c))), x, f"{w}: 2-D reconstruction differs from the image", rtol=1e-5, atol=1e-5)
    if not w.startswith(("bior", "rbio")):
        nx = np.linalg.norm(x)
        require(abs(np.linalg.norm(c) - nx) <= 1e-5 * (1 + nx), f"{w}: 2-D analysis must preserve the norm")
    return case["lev"] > 1 or c.shape != x.shape or len(sh) == 3


@st.composite
def gen_lev(draw):
    w = draw(st.sampled_from(["haar", "db2", "db4", "sym4", "coif1", "bior2.2", "bior3.5"]))
    L = wt.to_wavelet(w).dec_len
    f = draw(st.sampled_from(["dwt", "dwt2D", "dwt2D", "wavelet_basis"]))
    n, h = draw(st.integers(2, 40)), draw(st.integers(2, 40))
    # levels around the limits of either side
    near = [k + d for k in (wt.dwt_max_level(n, L), wt.dwt_max_level(h, L)) for d in (0, 1)]
    lev = draw(st.one_of(st.sampled_from(near), st.integers(1, 6)))
    return {"w": w, "n": n, "h": h, "lev": max(1, lev), "f": f}


@sub("C05", "level_guard", gen_lev(), 90, "levels above the admissible maximum are rejected at construction, "
     "others accepted; non-trivial = rejected")
def d4(case):
    w, n, h, lev = case["w"], case["n"], case["h"], case["lev"]
    L = wt.to_wavelet(w).dec_len

    def ml(k):
        j = 0
        while k // (2 ** (j + 1)) * 1.0 >= 0 and k / (L - 1.0) >= 2 ** (j + 1):
            j += 1
        return j
    if case["f"] == "wavelet_basis":
        n = ops.pow2(n)
    lim = min(ml(n), ml(h)) if case["f"] == "dwt2D" else ml(n)
    try:
        if case["f"] == "dwt":
            lop.dwt(n, wavelet=w, level=lev)
        elif case["f"] == "dwt2D":
            lop.dwt2D((n, h), wavelet=w, level=lev)
        else:
            crd.wavelet_basis(n, w, lev)
        ok = True
    except (AssertionError, ValueError):
        ok = False
    require(ok == (lev <= lim), "level guard", accepted=ok, level=lev, limit=lim)
    return not ok


# ---------------------------------------------------------------- dense dictionaries
@st.composite
def gen_dict(draw):
    f = draw(st.sampled_from(["hadamard", "hadamard_basis", "cosine_basis", "fourier_basis", "dirac_hadamard_basis",
                              "dirac_cosine_basis", "dirac_hadamard_cosine_basis", "wavelet_basis", "wavelet_basis",
                              "wavelet_basis"]))
    if f in ("cosine_basis", "fourier_basis", "dirac_cosine_basis"):
        n = draw(st.integers(1, 40))
    else:
        n = draw(st.sampled_from([1, 2, 4, 8, 16, 32, 64]))
    c = {"f": f, "n": n}
    if f == "wavelet_basis":
        c["w"] = draw(st.sampled_from(["haar", "db2", "db3", "db4", "sym4", "coif1", "bior2.2", "bior1.3", "rbio2.2"]))
        L = wt.to_wavelet(c["w"]).dec_len
        n = draw(st.sampled_from([k for k in (2, 4, 8, 16, 32, 64) if wt.dwt_max_level(k, L) >= 1]))
        c["n"] = n
        top = wt.dwt_max_level(n, L)
        c["lev"] = draw(st.one_of(st.none(), st.just(top), st.integers(1, top)))
    return c


def dctmat(n):
    return scipy.fft.dct(np.eye(n), type=2, norm="ortho", axis=0)


@sub("C05", "dict_bases", gen_dict(), 120, "dense bases of order 1..64 against scipy's Hadamard/DCT/DFT matrices, "
     "wavelet_basis against the synthesis operator; non-trivial = n > 1")
def d5(case):
    f, n = case["f"], case["n"]
    H = scipy.linalg.hadamard(n) if n & (n - 1) == 0 else None
    if f == "wavelet_basis":
        B = np.asarray(crd.wavelet_basis(n, case["w"], case["lev"]))
        lev = case["lev"] or wt.dwt_max_level(n, wt.to_wavelet(case["w"]).dec_len)
        T = lop.dwt(n, wavelet=case["w"], level=lev, basis=True)
        same(B, np.asarray(lop.to_matrix(T)), "wavelet_basis differs from the operator", rtol=1e-8)
        if not case["w"].startswith(("bior", "rbio")):
            same(B.T @ B, np.eye(n), "wavelet_basis not orthonormal", rtol=1e-5, atol=1e-5)
        W = np.asarray(lop.to_matrix(lop.dwt(n, wavelet=case["w"], level=lev)))
        same(B @ W, np.eye(n), "wavelet_basis is not the inverse of the analysis", rtol=1e-5, atol=1e-5)
        return n > 1
    B = np.asarray(getattr(crd, f)(n))
    I = np.eye(n)
    want = {
        "hadamard": lambda: H,
        "hadamard_basis": lambda: H / np.sqrt(n),
        "cosine_basis": lambda: dctmat(n),
        "fourier_basis": lambda: np.exp(2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / np.sqrt(n),
        "dirac_hadamard_basis": lambda: np.hstack((I, H / np.sqrt(n))),
        "dirac_cosine_basis": lambda: np.hstack((I, dctmat(n))),
        "dirac_hadamard_cosine_basis": lambda: np.hstack((I, H / np.sqrt(n), dctmat(n))),
    }[f]()
    same(B, want, f"dict.{f}({n})", rtol=1e-6, atol=1e-6)
    for j in range(0, B.shape[1], n):
        blk = B[:, j:j + n].astype(complex if np.iscomplexobj(B) else float)
        s = float(n) if f == "hadamard" else 1.0
        same(blk.conj().T @ blk, s * I, f"dict.{f}: block {j // n} is not orthogonal", rtol=1e-6, atol=1e-6 * s)
    return n > 1
