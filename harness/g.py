"""Generators (JSON-able case fragments) and comparison helpers."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Fail, require

SEED = st.integers(0, 2**20)


def pick(*xs):
    return st.sampled_from(list(xs))


@st.composite
def arr(draw, shape, cplx=False, kinds=("q", "g", "t", "s", "e"), maxlist=20, nonzero=False):
    """A spec for a real/complex array.

    q: entries drawn one by one, multiples of 1/4 in [-3, 3] (shrinks, has ties and zeros)
    g: gaussian from a drawn seed            t: small integers (ties, zeros)
    s: gaussian, mostly zeros                e: gaussian scaled by 10**e
    """
    shape = [int(x) for x in shape]
    size = int(np.prod(shape)) if shape else 1
    kinds = [k for k in kinds if not (k == "q" and size * (2 if cplx else 1) > maxlist)] or ["g"]
    k = draw(st.sampled_from(kinds))
    d = {"k": k, "sh": shape, "c": bool(cplx)}
    if k == "q":
        d["v"] = draw(st.lists(st.integers(-12, 12), min_size=size * (2 if cplx else 1),
                               max_size=size * (2 if cplx else 1)))
    else:
        d["seed"] = draw(SEED)
        if k == "e":
            d["e"] = draw(st.integers(-3, 3))
    if nonzero:
        d["nz"] = True
    return d


def mk(d):
    """Materialise an array spec as float64/complex128 numpy."""
    sh, c = tuple(d["sh"]), d["c"]
    size = int(np.prod(sh)) if sh else 1
    if d["k"] == "q":
        v = np.array(d["v"], dtype=float) / 4.0
        a = (v[:size] + 1j * v[size:]) if c else v
        a = a.reshape(sh)
    else:
        r = np.random.RandomState(d["seed"])

        def part():
            if d["k"] == "t":
                return r.randint(-2, 3, size=sh).astype(float)
            g = r.standard_normal(sh)
            if d["k"] == "s":
                g = g * (r.random_sample(sh) < 0.3)
            if d["k"] == "e":
                g = g * 10.0 ** d["e"]
            return g
        a = part() + 1j * part() if c else part()
        a = np.asarray(a).reshape(sh)
    if d.get("nz") and not np.any(a):
        a = a + 1.0
    return a


def close(a, b, rtol=1e-8, atol=1e-9, scale=None):
    """max|a-b| <= atol*? + rtol*max(|a|,|b|, scale), NaN never close."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(a, b))
    m = max(np.max(np.abs(a)), np.max(np.abs(b)), scale or 0.0)
    return bool(np.max(np.abs(a - b)) <= atol + rtol * m)


def same(a, b, msg, rtol=1e-8, atol=1e-9, scale=None, **info):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail(f"{msg}: shape {a.shape} != expected {b.shape} {info or ''}")
    if not close(a, b, rtol, atol, scale):
        raise Fail(f"{msg}: got {np.array2string(a, threshold=12, precision=8)} expected "
                   f"{np.array2string(b, threshold=12, precision=8)} {info or ''}")


def finite(a, msg):
    a = np.asarray(a)
    if not np.all(np.isfinite(a)):
        raise Fail(f"{msg}: non-finite values {np.array2string(a, threshold=12)}")
