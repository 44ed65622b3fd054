"""C27: thresholding operators, Ricker wavelet and image kernels."""
import numpy as np
from hypothesis import strategies as st
import jax.numpy as jnp
import cr.sparse.geo as geo
import cr.sparse.vision as vision

from harness.core import sub, require
from harness.g import arr, mk, same, finite, SEED

J = jnp.asarray


def hard_ref(x, g):
    return np.where(np.abs(x) > g, x, 0)


def soft_ref(x, t):
    a = np.abs(x)
    return np.where(a > t, x * (1 - t / np.where(a > 0, a, 1)), 0)


def half_ref(x, tau):
    """entrywise minimiser of |u - x|^2 + tau sqrt|u| by Newton-free root finding on the magnitude"""
    out = np.zeros(x.shape, x.dtype)
    for i, v in np.ndenumerate(x):
        a = abs(v)
        if a == 0 or a < 54 ** (1 / 3) / 4 * tau ** (2 / 3) * (1 - 1e-12):
            continue
        # stationary points of (u-a)^2 + tau sqrt(u):  s = sqrt(u):  s^3 - a s + tau/4 = 0, largest root
        r = np.roots([1, 0, -a, tau / 4])
        r = r[np.abs(r.imag) < 1e-6 * (1 + abs(r))].real
        out[i] = v / a * r.max() ** 2
    return out


@st.composite
def gen_th(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.just(40)))
    return {"x": draw(arr((n,), cplx=draw(st.booleans()))), "tau": draw(st.sampled_from([0.0, 0.01, 0.3, 1.0, 2.0, 4.5, 50.0])), "jit": draw(st.booleans()),
            "perc": draw(st.sampled_from([0, 5, 25, 50, 80, 99, 100])), "int": draw(st.booleans())}


def away(a, g):
    return np.abs(np.abs(a) - g) > 1e-9 * (1 + g)


@sub("C27", "threshold", gen_th(), 300, "drawn real and complex vectors (zeros, ties), thresholds from 0: hard, soft and half thresholding, plain and jitted, against the minimisers of |u-x|^2/2 + tau [u != 0], |u-x|^2/2 + tau |u| and "
     "|u-x|^2 + tau sqrt|u| (largest root of the cubic); entries within rounding of the threshold are not judged; phases kept, finite; integer input as float; non-trivial = some entry zeroed and some kept")
def t_th(case):
    x, tau = mk(case["x"]), case["tau"]
    jt = case["jit"]
    xx = J(x)
    if case["int"] and case["x"]["k"] == "t" and not case["x"]["c"]:
        xx = J(x.astype(int))
    g = np.sqrt(2 * tau)
    y = np.asarray((geo.hard_threshold_jit if jt else geo.hard_threshold)(xx, tau))
    finite(y, "hard")
    ok = away(x, g)
    same(y[ok], hard_ref(x, g)[ok], "hard threshold")
    y = np.asarray((geo.soft_threshold_jit if jt else geo.soft_threshold)(xx, tau))
    same(y, soft_ref(x, tau), "soft threshold", rtol=1e-9)
    y = np.asarray((geo.half_threshold_jit if jt else geo.half_threshold)(xx, tau))
    finite(y, "half")
    g = 54 ** (1 / 3) / 4 * tau ** (2 / 3)
    ok = away(x, g) | (x == 0)
    R = half_ref(x, tau)
    same(y[ok], R[ok], "half threshold", rtol=1e-6)

    def obj(u, v):
        return np.abs(u - v) ** 2 + tau * np.sqrt(np.abs(u))
    for v, u in zip(x[ok], y[ok]):
        grid = np.linspace(0, 1.2, 61) * v
        require(obj(u, v) <= obj(grid, v).min() + 1e-6 * (1 + abs(v) ** 2), "half threshold minimises |u-x|^2 + tau sqrt|u|", x=v, u=u)
    return bool(np.any(np.abs(x) > g) and np.any(np.abs(x) < g))


@sub("C27", "percentile", gen_th(), 250, "drawn vectors and percentiles 0 to 100: the percentile versions equal thresholding at that percentile of the magnitudes (hard: entries strictly above it survive, half: at or above); "
     "gamma_to_tau conversions invert the threshold formulas; non-trivial = a proper subset survives")
def t_perc(case):
    x, p, jt = mk(case["x"]), case["perc"], case["jit"]
    g = np.percentile(np.abs(x), p)
    ok = away(x, g) | (x == 0)
    y = np.asarray((geo.hard_threshold_percentile_jit if jt else geo.hard_threshold_percentile)(J(x), p))
    finite(y, "hard percentile")
    same(y[ok], hard_ref(x, g)[ok], "hard threshold at a percentile")
    y = np.asarray((geo.soft_threshold_percentile_jit if jt else geo.soft_threshold_percentile)(J(x), p))
    same(y, soft_ref(x, g), "soft threshold at a percentile", rtol=1e-9)
    y = np.asarray((geo.half_threshold_percentile_jit if jt else geo.half_threshold_percentile)(J(x), p))
    finite(y, "half percentile")
    tau = float(geo.gamma_to_tau_half_threshold(float(g)))
    same(54 ** (1 / 3) / 4 * tau ** (2 / 3), g, "gamma_to_tau_half_threshold inverts the threshold")
    same(np.sqrt(2 * float(geo.gamma_to_tau_hard_threshold(float(g)))), g, "gamma_to_tau_hard_threshold inverts the threshold")
    same(y[ok], half_ref(x, tau)[ok], "half threshold at a percentile", rtol=1e-6)
    return bool(np.any(np.abs(x) > g) and np.any(np.abs(x) < g))


@st.composite
def gen_ker(draw):
    return {"h": draw(st.integers(1, 17)), "w": draw(st.integers(1, 17)), "sx": draw(st.floats(0.4, 9)), "sy": draw(st.floats(0.4, 9)), "sq": draw(st.booleans()), "iso": draw(st.booleans()),
            "f": draw(st.floats(0.5, 60)), "t": draw(st.lists(st.floats(-0.2, 0.2), min_size=1, max_size=8))}


@sub("C27", "kernels", gen_ker(), 160, "drawn kernel sizes and sigmas: kernel_gaussian is the normalised sampled Gaussian with standard deviations (sigma_x along the width, sigma_y along the height), height x width, sums to one; box, sharpen, "
     "Laplacian and Sobel kernels by their action on polynomials; ricker against its definition and zero mean; non-trivial = h != w")
def t_ker(case):
    h, w, sx, sy = case["h"], case["w"], case["sx"], case["sy"]
    if case["sq"]:
        w = h
    if case["iso"]:
        sy = sx
    k = np.asarray(vision.kernel_gaussian(h if case["sq"] else (h, w), sx if case["iso"] else (sx, sy)))
    X = np.arange(w) - (w - 1) / 2
    Y = np.arange(h) - (h - 1) / 2
    R = np.exp(-(Y ** 2)[:, None] / (2 * sy ** 2) - (X ** 2)[None, :] / (2 * sx ** 2))
    same(k, R / R.sum(), "gaussian kernel", rtol=1e-9)
    for n, K in ((3, vision.KERNEL_BOX_3X3), (5, vision.KERNEL_BOX_5X5), (7, vision.KERNEL_BOX_7X7), (21, vision.KERNEL_BOX_21X21)):
        same(K, np.full((n, n), 1.0 / n ** 2), "box kernel", rtol=1e-6)
    yy, xx = np.mgrid[-1:2, -1:2]
    for nm, K, val in (("sharpen", vision.KERNEL_SHARPEN_3X3, (1, 0, 0, -4)), ("laplacian", vision.KERNEL_LAPLACIAN_3X3, (0, 0, 0, 4)),
                       ("sobel x", vision.KERNEL_SOBEL_X, (0, 8, 0, 0)), ("sobel y", vision.KERNEL_SOBEL_Y, (0, 0, 8, 0))):
        K = np.asarray(K)
        got = (K.sum(), (K * xx).sum(), (K * yy).sum(), (K * (xx ** 2 + yy ** 2)).sum())
        require(K.shape == (3, 3) and got == val and (K * xx * yy).sum() == 0, f"{nm} kernel moments", got=got)
    t = np.array(case["t"])
    u = (np.pi * case["f"] * t) ** 2
    same(geo.ricker(J(t), case["f"]), (1 - 2 * u) * np.exp(-u), "ricker", rtol=1e-9)
    u = (np.pi * 10 * t) ** 2
    same(geo.ricker(J(t)), (1 - 2 * u) * np.exp(-u), "ricker, default frequency", rtol=1e-9)
    return h != w
