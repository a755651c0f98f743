import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF

from ..core import Check, note, require
from .psf_common import calculate, make, odd, terms

CHECK = Check("P26", "generated kernels of odd sizes 5 to 41 with decaying, random, one-sided and sparse content, elements exactly at the limit, and calculated kernels; parts from the "
              "whole range; non-trivial: at least one frame is removed and more than one element is left")


def limits(a):
    return st.one_of(st.sampled_from([0.01, 0.25, 0.125, 0.49999, 1e-9, 0.0625]), st.floats(1e-12, 0.4999999))


def frames(k, part):
    """Number of removed frames by definition."""
    limit = part * k.max(); f = 0; n = k.shape[0]
    while 2 * f + 1 < n:
        sub = k[f:n - f, f:n - f]
        if max(sub[0].max(), sub[-1].max(), sub[:, 0].max(), sub[:, -1].max()) < limit:
            f += 1
        else:
            break
    return f


def build(size, kind, seed, part):
    rng = np.random.default_rng(seed); c = size // 2; i, j = np.mgrid[0:size, 0:size]; d = np.maximum(abs(i - c), abs(j - c))
    if kind == "decaying":
        k = np.exp(-d * rng.uniform(0.05, 3.0)) * rng.uniform(0.2, 1.0, (size, size))
    elif kind == "random":
        k = rng.random((size, size)) ** rng.integers(1, 40)
    elif kind == "one side":
        k = np.where(d <= rng.integers(0, c + 1), rng.uniform(0.5, 1.0, (size, size)), 0.0); side = rng.integers(0, 4); f = rng.integers(0, c + 1)
        place = int(rng.integers(f, size - f)); pos = [(f, place), (size - 1 - f, place), (place, f), (place, size - 1 - f)][side]
        k *= rng.uniform(0, 1); k[c, c] = 1.0; k[pos] = part * rng.choice([1.0, 0.999, 1.001, 2.0, 0.5]); k[k > 1] = 1.0
    elif kind == "at the limit":
        k = np.full((size, size), 0.0); k[c, c] = 1.0; f = int(rng.integers(0, c + 1)); pos = (f, f) if rng.random() < 0.5 else (c, size - 1 - f)
        if pos != (c, c):
            k[pos] = part  # the limit is 1.0*part exactly
    else:
        k = np.zeros((size, size))
        for _ in range(int(rng.integers(1, 6))):
            k[tuple(rng.integers(0, size, 2))] = rng.random()
        k[tuple(rng.integers(0, size, 2))] = 1.0
    return k


def check(psf, k, part, case):
    before = k.copy(); f = frames(k, part); n = k.shape[0]
    psf.kernel = k; psf.kernel_size = n
    psf.crop_kernel(part); got = psf.kernel
    want = before[f:n - f, f:n - f]
    require(got.shape == want.shape, "number of removed frames", case, n, got.shape, want.shape)
    require(np.array_equal(got, want), "elements are changed or taken not from the centre", case)
    require(psf.kernel_size == got.shape[0], "stored size differs from the kernel", case, psf.kernel_size, got.shape)
    require(np.array_equal(k, before), "the original array is modified", case)
    require(np.all(before[before >= part * before.max()].size == got[got >= part * got.max()].size), "elements above the limit are lost", case)
    if got.shape[0] > 3:
        psf.crop_kernel(part)
        require(psf.kernel.shape == got.shape and psf.kernel_size == got.shape[0], "cropping again changes the kernel", case)
    note("frames removed" if f else "nothing removed")


def nontrivial(case):
    k = build(*case[:4]); f = frames(k, case[3])
    return 0 < f and k.shape[0] - 2 * f > 1


KINDS = st.sampled_from(["decaying", "decaying", "random", "one side", "at the limit", "sparse"]); SEED = st.integers(0, 2 ** 32 - 1)


@CHECK.gen("kernels", st.tuples(odd(5, 41), KINDS, SEED, limits(0), st.sampled_from([1.0, 1.0, 1e-6, 255.0, 2.0 ** -20])), quick=1500, nontrivial=nontrivial)
def kernels(case):
    size, kind, seed, part, scale = case
    k = build(size, kind, seed, part)
    if kind not in ("at the limit", "one side"):
        k = k * scale
    check(ZernPSF(ZernPol(m=0, n=2)), k, part, case)


@CHECK.gen("chains", st.tuples(odd(7, 31), KINDS, SEED, st.lists(limits(0), min_size=2, max_size=5)), quick=300, nontrivial=lambda c: True)
def chains(case):
    size, kind, seed, parts = case; psf = ZernPSF(ZernPol(m=0, n=2)); k = build(size, kind, seed, parts[0])
    for p in parts:
        if k.shape[0] < 5:
            break
        check(psf, k, p, case); k = psf.kernel
    # several crops equal the one with the largest part
    once = build(size, kind, seed, parts[0]); f = max(frames(once, p) for p in parts)
    if k.shape[0] >= 5:
        require(np.array_equal(k, once[f:size - f, f:size - f]), "several crops differ from the largest one", case)


@CHECK.gen("calculated", st.tuples(terms(5, 1, 2, limit=0.5), st.tuples(st.floats(0.3, 1.7), st.just(0.5), st.floats(0.4, 0.999)), odd(5, 15), limits(0), st.booleans()), quick=40,
           nontrivial=lambda c: True)
def calculated(case):
    ts, phys, size, part, normalized = case; psf = make(ts, phys, size, 20, 36)
    k = calculate(psf, normalized=normalized)
    if k.max() > 0:
        check(psf, k, part, case)


@CHECK.gen("refused", st.tuples(odd(5, 41), SEED, st.one_of(st.floats(-10, 0.0), st.floats(0.5, 1e6), st.sampled_from([0.0, -0.0, 0.5, 1.0, -1e-300, float("inf"), 0.5000000001]))), quick=200)
def refused(case):
    size, seed, part = case; psf = ZernPSF(ZernPol(m=0, n=2)); k = build(size, "decaying", seed, 0.1); psf.kernel = k; psf.kernel_size = size
    try:
        psf.crop_kernel(part)
    except ValueError:
        require(psf.kernel.shape == (size, size) and psf.kernel_size == size, "kernel is cropped in spite of the error", case)
        return
    require(False, "wrong part: no ValueError", case)


@CHECK.enum("default_part", lambda tier: [[s, seed] for s in (7, 15, 31) for seed in range(8)])
def default(case):
    size, seed = case; psf = ZernPSF(ZernPol(m=0, n=2)); k = build(size, "decaying", seed, 0.01); psf.kernel = k; psf.kernel_size = size; psf.crop_kernel()
    f = frames(k, 0.01)
    require(np.array_equal(psf.kernel, k[f:size - f, f:size - f]), "default part isn't 1%", case)


@CHECK.gen("large_kernels", st.tuples(odd(43, 301), KINDS, SEED, limits(0)), quick=60, batch=60, max_shrink=60, nontrivial=nontrivial)
def large(case):
    size, kind, seed, part = case
    check(ZernPSF(ZernPol(m=0, n=2)), build(size, kind, seed, part), part, case)
