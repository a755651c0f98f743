import warnings

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF

from .. import oracles as o
from ..core import TIER, Check, note, require
from ..gens import orders
from .psf_common import (asymmetric, calculate, check_close, has_piston, make, odd, physical, pixel_of, points, relative_coefficient, terms)

CHECK = Check("P23", "generated polynomials (n <= 10, one to four), physical and calculation settings, both calculation variants and all flags, scale factors, permutations; "
              "sizes are estimated for polynomials up to order 54; non-trivial: a polynomial other than Piston with a coefficient other than 0")
SETTINGS = lambda k=3: st.tuples(terms(10, 1, k), physical(), odd(3, 5), points(30, 50))
FAST = lambda: 3 if TIER[0] == "thorough" else 2  # number of polynomials in accelerated calculations (each number is compiled anew)


def nontrivial(case):
    return asymmetric(case[0][0])


@CHECK.gen("flags", st.tuples(SETTINGS(), st.booleans(), st.booleans(), st.booleans()), quick=30, nontrivial=nontrivial)
def flags(case):
    (ts, phys, size, (nr, nphi)), accelerated, suppress, verbose = case
    if len(ts) > FAST():
        accelerated = False
    note("accelerated" if accelerated else "plain")
    psf = make(ts, phys, size, nr, nphi)
    raw = calculate(psf, accelerated=accelerated, normalized=False).copy()
    require(raw.shape == (size, size), "size of the kernel is not the set one", case, raw.shape)
    require(np.all(np.isfinite(raw)) and np.all(raw >= 0), "negative or not finite elements", case)
    other = calculate(make(ts, phys, size, nr, nphi), accelerated=accelerated, normalized=False, suppress=suppress, verbose=verbose)
    require(np.array_equal(raw, other), "a flag for output changes the kernel", case)
    if raw.max() > 0:
        normalized = calculate(psf, accelerated=accelerated, normalized=True, suppress=suppress, verbose=verbose)
        check_close(normalized, raw / raw.max(), 1e-12, "normalized kernel is not the kernel divided by its maximum", case)
        require(abs(normalized.max() - 1.0) <= 1e-12, "maximum of the normalized kernel", case, float(normalized.max()))
        if not accelerated:
            plain_default = make(ts, phys, size, nr, nphi).calculate_psf_kernel(accelerated=False)
            check_close(plain_default, normalized, 1e-12, "kernel with default flags is not the normalized one", case)
    require(np.array_equal(psf.kernel, normalized if raw.max() > 0 else raw), "stored kernel is not the returned one", case)


@CHECK.gen("scale_invariance", st.tuples(SETTINGS(), st.one_of(st.sampled_from([2.0, 0.5, 1e-6, 1024.0, 1e3]), st.floats(-6, 6).map(lambda p: 10.0 ** p)), st.booleans()),
           quick=70, nontrivial=nontrivial)
def scale(case):
    (ts, phys, size, (nr, nphi)), factor, accelerated = case
    accelerated = accelerated and len(ts) <= FAST()
    a = calculate(make(ts, phys, size, nr, nphi), accelerated=accelerated)
    b = calculate(make(ts, [phys[0], phys[1] * factor, phys[2]], size, nr, nphi), accelerated=accelerated)
    check_close(b, a, 1e-9, "changing the unit of length changes the kernel", case)


@CHECK.gen("size_scale_invariance", st.tuples(terms(20, 1, 4), physical(), st.integers(-20, 20)), quick=300, nontrivial=lambda c: asymmetric(c[0]))
def size_scale(case):
    """Factors are powers of 2, which are exact."""
    ts, phys, power = case
    a, b = make(ts, phys), make(ts, [phys[0], phys[1] * 2.0 ** power, phys[2]])
    require(a.kernel_size == b.kernel_size, "changing the unit of length changes the estimated size", case, a.kernel_size, b.kernel_size)


@CHECK.gen("size_of_signs_and_order", st.tuples(terms(54, 1, 6, limit=1.5), physical(1e-2), st.randoms(use_true_random=False).map(lambda r: r.random())), quick=300, nontrivial=lambda c: asymmetric(c[0]))
def size_signs(case):
    """Opposite coefficients have the rotated kernel, and the order of polynomials is irrelevant, so the estimated sizes are equal."""
    ts, phys, shuffle = case; a = make(ts, phys).kernel_size; b = make([[mn, -c] for mn, c in ts], phys).kernel_size
    require(a == b, "changing the sign of all coefficients changes the estimated size", case, a, b)
    permuted = [ts[i] for i in np.random.default_rng(int(shuffle * 1e9)).permutation(len(ts))]; b = make(permuted, phys).kernel_size
    require(a == b, "order of polynomials changes the estimated size", case, a, b)


@CHECK.gen("sign_change_rotates", st.tuples(SETTINGS(), st.booleans()), quick=70, nontrivial=nontrivial)
def sign_change(case):
    (ts, phys, size, (nr, nphi)), accelerated = case
    accelerated = accelerated and len(ts) <= FAST()
    a = calculate(make(ts, phys, size, nr, nphi), accelerated=accelerated)
    b = calculate(make([[mn, -c] for mn, c in ts], phys, size, nr, nphi), accelerated=accelerated)
    check_close(b, a[::-1, ::-1], 1e-9, "kernel of changed signs is not the rotated one", case)


@CHECK.gen("piston_and_order_irrelevant", st.tuples(st.tuples(terms(10, 2, 4, n_min=1), physical(), odd(3, 5), points(30, 50)), relative_coefficient(), st.integers(0, 4),
                                                    st.randoms(use_true_random=False).map(lambda r: r.random()), st.booleans()), quick=40, nontrivial=nontrivial)
def piston(case):
    (ts, phys, size, (nr, nphi)), c, position, shuffle, accelerated = case
    accelerated = accelerated and len(ts) < FAST() + (TIER[0] != "thorough")
    a = calculate(make(ts, phys, size, nr, nphi), accelerated=accelerated and len(ts) <= FAST())
    with_piston = ts[:position] + [[[0, 0], c]] + ts[position:]
    b = calculate(make(with_piston, phys, size, nr, nphi))
    check_close(b, a, 1e-9, "adding Piston changes the kernel", case)
    permuted = list(ts); np.random.default_rng(int(shuffle * 1e9)).shuffle(permuted)
    permuted = [list(x) for x in permuted]
    check_close(calculate(make(permuted, phys, size, nr, nphi)), a, 1e-9, "order of polynomials changes the kernel", case)


@CHECK.gen("zero_coefficient_irrelevant", st.tuples(st.tuples(terms(10, 2, 4, n_min=1), physical(), odd(3, 5), points(30, 50)), st.integers(0, 3)), quick=40, nontrivial=nontrivial)
def zero(case):
    """A polynomial with the coefficient 0 is as if it isn't there."""
    (ts, phys, size, (nr, nphi)), k = case; k %= len(ts)
    a = calculate(make([[mn, 0.0 if i == k else c] for i, (mn, c) in enumerate(ts)], phys, size, nr, nphi))
    b = calculate(make(ts[:k] + ts[k + 1:], phys, size, nr, nphi))
    check_close(b, a, 1e-9, "a polynomial with the coefficient 0 changes the kernel", case)


@CHECK.gen("estimated_size", st.tuples(terms(54, 1, 6, limit=9.0), physical(1e-3)), quick=600, nontrivial=lambda c: asymmetric(c[0]))
def estimated(case):
    ts, phys = case
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        psf = make(ts, phys)
    s = psf.kernel_size; note("size above 51" if s > 51 else "size to 51")
    require(isinstance(s, (int, np.integer)) and s > 0 and s % 2 == 1, "estimated size is not odd and positive", case, s)


@CHECK.gen("kernel_has_the_estimated_size", st.tuples(terms(6, 1, 2, limit=0.4), st.tuples(st.floats(0.3, 1.7), st.just(0.5), st.floats(0.6, 0.999))), quick=15,
           nontrivial=lambda c: asymmetric(c[0]))
def estimated_used(case):
    ts, phys = case; psf = make(ts, phys); size = psf.kernel_size
    if size < 3 or size > 25:
        size = 9
    fresh = make(ts, phys); fresh.set_calculation_props(size, 20, 36)
    k = calculate(fresh)
    require(k.shape == (size, size) and fresh.kernel_size == size, "size of the kernel", case, k.shape, size)


@CHECK.gen("even_size_made_odd", st.tuples(st.integers(2, 6), st.booleans(), physical()), quick=20, nontrivial=lambda c: True)
def even(case):
    half, accelerated, phys = case
    ts = [[[-1, 3], 0.4]]; k = calculate(make(ts, phys, 2 * half, 20, 36), accelerated=accelerated)
    require(k.shape == (2 * half + 1, 2 * half + 1), "even size is not replaced by the next odd one", case, k.shape)
    check_close(k, calculate(make(ts, phys, 2 * half + 1, 20, 36), accelerated=accelerated), 1e-12, "kernel of the even size", case)


__all__ = ["o", "orders", "has_piston", "pixel_of", "ZernPol", "ZernPSF"]
