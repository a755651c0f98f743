import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF

from .. import oracles as o
from ..core import Check, note, require
from .psf_common import calculate, make, odd, terms

CHECK = Check("P27", "generated images of sides 3 to 40 (random, constant, one point, blank, steps) of 7 types, kernels of odd sizes 1 to 15 (arbitrary non-negative, also asymmetric, and "
              "calculated ones); non-trivial: an image which isn't constant with an asymmetric kernel above 1x1",
              ["for integer images one unit of difference is allowed (conversion of results to the type of the image); images of integer types stay below half of the range"], scale=2)
TYPES = ("uint8", "uint16", "int32", "float32", "float64", "int16", "uint32")
SEED = st.integers(0, 2 ** 32 - 1); SIDE = st.integers(3, 40)
IMAGE = st.tuples(SIDE, SIDE, st.sampled_from(["random", "random", "constant", "point", "blank", "step", "line"]), st.sampled_from(TYPES), SEED)
KERNEL = st.tuples(odd(1, 15), st.sampled_from(["random", "random", "delta", "shifted delta", "symmetric", "sparse"]), SEED)


def image(spec):
    h, w, kind, dtype, seed = spec; rng = np.random.default_rng(seed); top = {"uint8": 120, "uint16": 30000, "int16": 16000}.get(dtype, 50000 if "int" in dtype else 3.0)
    if kind == "random":
        a = rng.uniform(0, top, (h, w))
    elif kind == "constant":
        a = np.full((h, w), rng.uniform(1, top))
    elif kind == "blank":
        a = np.zeros((h, w))
    elif kind == "point":
        a = np.zeros((h, w)); a[rng.integers(0, h), rng.integers(0, w)] = top
    elif kind == "step":
        a = np.zeros((h, w)); a[:h // 2] = top
    else:
        a = np.zeros((h, w)); a[:, rng.integers(0, w)] = top
    return a.astype(dtype)


def kernel(spec):
    n, kind, seed = spec; rng = np.random.default_rng(seed)
    if kind == "random":
        return rng.random((n, n)) * rng.choice([1e-3, 1.0, 40.0])
    if kind == "delta":
        k = np.zeros((n, n)); k[n // 2, n // 2] = 0.7
        return k
    if kind == "shifted delta":
        k = np.zeros((n, n)); k[tuple(rng.integers(0, n, 2))] = 1.0
        return k
    if kind == "symmetric":
        k = rng.random((n, n))
        return k + k[::-1] + k[:, ::-1] + k[::-1, ::-1]
    k = np.zeros((n, n))
    for _ in range(4):
        k[tuple(rng.integers(0, n, 2))] = rng.random() + 1e-3
    return k


def psf_with(k):
    psf = ZernPSF(ZernPol(m=1, n=3)); psf.kernel = k; psf.kernel_size = k.shape[0]
    return psf


def tolerance(img, want):
    if img.dtype.kind in "iu":
        return 1.0 + 1e-9 * np.abs(want).max()
    return (4e-6 if img.dtype == np.float32 else 1e-11) * max(1e-30, np.abs(want).max(), np.abs(img.astype(float)).max())


def check(psf, img, scaled, case):
    k = psf.kernel; before_k, before = k.copy(), img.copy()
    got = psf.convolute_img(img, scale2original=scaled)
    require(np.array_equal(before, img) and np.array_equal(before_k, psf.kernel), "image or kernel is modified", case)
    require(isinstance(got, np.ndarray) and got.shape == img.shape and got.dtype == img.dtype, "shape or type of the result", case, got.shape, str(got.dtype))
    want = o.convolve_reflect(img, k)
    if scaled and want.max() > 1e-12 * max(1.0, img.max()):
        want = want * (float(img.max()) / want.max())
    bad = ~(np.abs(got.astype(float) - want) <= tolerance(img, want))
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        require(False, "pixel of the convolved image", case, [i, j], float(got[i, j]), float(want[i, j]))
    if scaled and want.max() > 0:
        require(abs(float(got.max()) - float(img.max())) <= tolerance(img, want), "maximum isn't the one of the original", case, float(got.max()), float(img.max()))
    if np.all(img == img.flat[0]):
        note("constant image")
        require(np.all(np.abs(got.astype(float) - float(img.flat[0])) <= tolerance(img, want)), "constant image doesn't stay constant", case)


def nontrivial(case):
    return case[0][2] not in ("constant", "blank") and case[1][0] > 1 and case[1][1] not in ("delta", "symmetric")


@CHECK.gen("convolved", st.tuples(IMAGE, KERNEL, st.booleans()), quick=900, nontrivial=nontrivial)
def convolved(case):
    img = image(case[0]); note(case[0][3])
    check(psf_with(kernel(case[1])), img, case[2], case)


@CHECK.gen("default_is_scaled", st.tuples(IMAGE, KERNEL), quick=100, nontrivial=nontrivial)
def default(case):
    img = image(case[0]); psf = psf_with(kernel(case[1]))
    require(np.array_equal(psf.convolute_img(img), psf.convolute_img(img, scale2original=True)), "default isn't the rescaled result", case)


@CHECK.gen("linear", st.tuples(SIDE, SIDE, SEED, KERNEL, st.floats(-3, 3), st.floats(-3, 3)), quick=200, nontrivial=lambda c: c[3][0] > 1)
def linear(case):
    h, w, seed, kspec, a, b = case; rng = np.random.default_rng(seed); x, y = rng.normal(0, 1, (h, w)), rng.uniform(-1, 2, (h, w)); psf = psf_with(kernel(kspec))
    f = lambda z: psf.convolute_img(z, scale2original=False)
    require(np.all(np.abs(f(a * x + b * y) - a * f(x) - b * f(y)) <= 1e-10), "convolution isn't linear", case)


@CHECK.gen("calculated_kernels", st.tuples(IMAGE, terms(6, 1, 3, limit=0.6), st.tuples(st.floats(0.3, 1.7), st.just(0.5), st.floats(0.3, 0.999)), odd(3, 9), st.booleans(), st.booleans()),
           quick=60, nontrivial=lambda c: c[0][2] not in ("constant", "blank"))
def calculated(case):
    spec, ts, phys, size, normalized, scaled = case; psf = make(ts, phys, size, 20, 36); calculate(psf, normalized=normalized)
    if psf.kernel.sum() > 1e-9:
        check(psf, image(spec), scaled, case)


@CHECK.gen("without_calculation", st.tuples(IMAGE, st.booleans()), quick=60, nontrivial=lambda c: c[0][2] not in ("constant", "blank"))
def identity(case):
    """The kernel before any calculation is a single 1."""
    img = image(case[0]); got = ZernPSF(ZernPol(m=1, n=3)).convolute_img(img, scale2original=case[1])
    require(np.all(np.abs(got.astype(float) - img.astype(float)) <= tolerance(img, img.astype(float))), "not the original image", case)


@CHECK.gen("large", st.tuples(st.tuples(st.integers(3, 600), st.integers(41, 600), st.sampled_from(["random", "random", "point", "step", "line"]), st.sampled_from(TYPES), SEED),
                              st.tuples(odd(1, 31), st.sampled_from(["random", "shifted delta", "sparse"]), SEED), st.booleans()), quick=15, batch=40, max_shrink=30, nontrivial=nontrivial)
def large(case):
    check(psf_with(kernel(case[1])), image(case[0]), case[2], case)
