import warnings

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF, fit_polynomials, generate_polynomials

from ..core import Check, Discard, note, require
from .psf_common import any_points, asymmetric, make, physical, terms

CHECK = Check("P36", "image sizes 3..40 of all parities, single PSFs and sums with kernels from much too small to sufficient, set or missing properties, orders of generated sets 0..36 "
              "given as int or float, histories of evaluations of orders 44..54; non-trivial: at least one condition of a warning holds",
              ["kernels whose border is within a relative 1e-6 of 5% of the maximum are not decided", "kernels up to 15x15"])


def recorded(fn):
    """Result of the call and its warnings."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = fn()
    return out, [str(x.message) for x in w]


def expect(got, conditions, case):
    """One warning for each condition that holds, nothing else."""
    want = [k for k, v in conditions.items() if v]
    note(" and ".join(want) or "no reason")
    require(len(got) == len(want), "warnings do not correspond to their conditions", case, want, got)
    require(len(set(got)) == len(got), "the same warning is given twice", case, got)


def sides():
    return st.one_of(st.tuples(st.integers(3, 40), st.integers(3, 40)), st.integers(3, 40).map(lambda k: [k, k]), st.integers(1, 20).map(lambda k: [2 * k + 1, 2 * k + 1]),
                     st.integers(3, 40).flatmap(lambda k: st.sampled_from([[k, k + 1], [k + 1, k], [k, k + 2]])))


@CHECK.gen("fitted_images", st.tuples(sides(), st.one_of(st.just(1.0), st.floats(0.5, 1.0)), st.booleans(), st.integers(0, 100), st.booleans()), quick=300,
           nontrivial=lambda c: c[0][0] != c[0][1] or c[0][0] % 2 == 0)
def fitted(case):
    (h, w), crop, strict, seed, cropped = case
    image = np.random.default_rng(seed).normal(size=(h, w)); pols = (ZernPol(osa=0), ZernPol(osa=1))
    call = lambda **kw: fit_polynomials(image, pols, crop_radius=crop, strict_circle_border=strict, return_cropped_image=cropped, **kw)
    (a, image_a), got = recorded(call)
    expect(got, {"not square": h != w, "even side": h % 2 == 0 or w % 2 == 0,
                 "additional pixels of the border": not strict and ((h % 2 == 0 and w % 2 == 0) or abs(h - w) == 1)}, case)
    (b, image_b), silent = recorded(lambda: call(suppress_warnings=True))
    require(not silent, "warnings aren't suppressed", case, silent)
    require(np.array_equal(a, b) and (not cropped or np.array_equal(image_a, image_b)), "suppression of warnings changes the result", case)


def border_part(kernel):
    return max(kernel[0].max(), kernel[-1].max(), kernel[:, 0].max(), kernel[:, -1].max()) / kernel.max()


@CHECK.gen("calculated_kernels", st.tuples(terms(6, 1, 3, limit=1.0), physical(0.2), st.sampled_from([3, 5, 7, 9, 11, 13, 15]), any_points(24, 40), st.booleans(), st.booleans()), quick=70,
           nontrivial=lambda c: asymmetric(c[0]), batch=60, share=3)
def kernels(case):
    ts, phys, size, (nr, nphi), accelerated, normalized = case
    psf = make(ts, phys, size, nr, nphi)
    call = lambda **kw: psf.calculate_psf_kernel(normalized=normalized, accelerated=accelerated, **kw).copy()
    kernel, got = recorded(call); part = border_part(kernel)
    if abs(part - 0.05) < 5e-8:
        raise Discard()
    expect(got, {"bright border": part > 0.05}, case)
    again, silent = recorded(lambda: call(suppress_warnings=True))
    require(not silent, "warnings aren't suppressed", case, silent)
    require(np.array_equal(kernel, again), "suppression of warnings changes the kernel", case)


@CHECK.gen("borders_around_the_limit", st.tuples(st.floats(0.2, 1.5), st.integers(0, 3), st.integers(0, 3), st.booleans(), st.booleans(), st.floats(0.5, 1.5)), quick=40, batch=40, share=2)
def around(case):
    """Pixel size chosen by bisection so that the border of the kernel is near 5% of the maximum; tilts show it at one of the four sides only."""
    na, direction, kind, accelerated, normalized, c = case; wl = 0.5; size = 7
    tilt = [[[1, 1], c], [[1, 1], -c], [[-1, 1], c], [[-1, 1], -c]][direction]
    ts = [[tilt], [tilt, [[0, 2], 0.1]], [tilt, [[-tilt[0][0], 1], 0.05]], [[[0, 4], 0.05], tilt, [[2, 2], 0.02]]][kind]
    note(f"side {direction}"); note(f"{len(ts)} polynomials")
    low, high = 0.2, 0.999
    for _ in range(9):
        mid = (low + high) / 2; psf = make(ts, [na, wl, mid], size, 20, 36)
        kernel, got = recorded(lambda: psf.calculate_psf_kernel(normalized=normalized, accelerated=accelerated).copy()); value = border_part(kernel)
        if abs(value - 0.05) >= 5e-8:
            expect(got, {"bright border": value > 0.05}, [case, mid])
        low, high = (mid, high) if value > 0.05 else (low, mid)


@CHECK.gen("missing_properties", st.tuples(terms(4, 1, 2, limit=1.0), st.sampled_from([None, 3, 9]), st.booleans(), st.booleans()), quick=16, batch=30, share=2)
def missing(case):
    ts, size, accelerated, suppress = case
    pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]
    if len(pols) > 1:
        raise Discard()  # amplitudes of several polynomials have to be set
    psf = ZernPSF(pols[0])
    if size is not None:
        _, got = recorded(lambda: psf.set_calculation_props(size, 20, 36))
        expect(got, {"properties aren't set": True}, case)
    else:
        psf.n_int_r_points, psf.n_int_phi_points = 20, 36  # shorter calculation only
    for _ in range(2):
        kernel, got = recorded(lambda: psf.calculate_psf_kernel(suppress_warnings=suppress, accelerated=accelerated))
        if suppress:
            require(not got, "warnings aren't suppressed", case, got)
        elif abs(border_part(kernel) - 0.05) >= 5e-8:
            expect(got, {"default properties": True, "bright border": border_part(kernel) > 0.05}, case)
    psf.set_physical_props(0.5, 0.5, 0.05, 0.1); psf.set_calculation_props(max(psf.kernel_size, 3), 20, 36)
    if psf.kernel_size <= 25:
        kernel, got = recorded(lambda: psf.calculate_psf_kernel(accelerated=accelerated))
        if abs(border_part(kernel) - 0.05) >= 5e-8:
            expect(got, {"bright border": border_part(kernel) > 0.05}, case)


@CHECK.enum("generated_sets", lambda tier: [[n, as_float] for n in list(range(37)) + [44, 54] for as_float in (False, True)], nontrivial=lambda c: c[1] or c[0] > 30)
def sets(case):
    n, as_float = case
    pols, got = recorded(lambda: generate_polynomials(float(n) if as_float else n))
    expect(got, {"not an integer": as_float, "slow": n > 30}, case)
    require(len(pols) == (n + 1) * (n + 2) // 2, "number of polynomials", case, len(pols))


@CHECK.gen("precision", st.tuples(st.one_of(st.integers(20, 900), st.sampled_from([500, 501])), st.one_of(st.integers(36, 900), st.sampled_from([400, 401])), st.integers(1, 40)), quick=150,
           nontrivial=lambda c: c[0] > 500 and c[1] > 400)
def precision(case):
    nr, nphi, extra = case; psf = ZernPSF(ZernPol(m=1, n=3)); psf.set_physical_props(0.5, 0.5, 0.1, 0.2); size = psf.kernel_size + 2 * extra
    _, got = recorded(lambda: psf.set_calculation_props(size, nr, nphi))
    expect(got, {"too many points": nr > 500 and nphi > 400}, case)


def slow_history():
    call = st.sampled_from(["radial", "radial_dr", "polynomial_value"])
    return st.tuples(st.integers(44, 54).flatmap(lambda n: st.tuples(st.sampled_from([n, -n, n - 2, 2 - n, n - 4]), st.just(n))), st.lists(call, min_size=1, max_size=5))


@CHECK.gen("slow_orders", slow_history(), quick=150, nontrivial=lambda c: c[0][1] > 48)
def slow(case):
    """A new object announces the slow calculation at its first call, later calls of the same kind are silent."""
    (m, n), calls = case; zp = ZernPol(m=m, n=n); done = []
    for name in calls:
        limit = 48 if name == "radial_dr" else 50
        args = (0.9, 1.0) if name == "polynomial_value" else (0.9,)
        _, got = recorded(lambda: getattr(zp, name)(*args))
        if n <= limit or name in done:
            require(not got, "warning without a reason", case, name, got)
        elif not done:
            require(len(got) == 1, "slow calculation isn't announced", case, name, got)
        done.append(name)
    for name in ("triangular", "triangular_dtheta"):
        _, got = recorded(lambda: getattr(zp, name)(1.0)); require(not got, "warning without a reason", case, name, got)


@CHECK.gen("sums_and_fits_of_usual_orders", st.tuples(st.lists(st.integers(0, 65), min_size=1, max_size=8, unique=True), st.integers(0, 100), st.booleans()), quick=120)
def usual(case):
    """Valid calls with polynomials of usual orders do not warn at all (also not numpy about invalid values)."""
    osa, seed, surface = case; pols = [ZernPol(osa=k) for k in osa]; rng = np.random.default_rng(seed); c = rng.normal(size=len(osa))
    r, th = np.linspace(0, 1, 9), np.linspace(0, 2 * np.pi, 9)
    for fn in (lambda: ZernPol.sum_zernikes(list(c), pols, r, th, get_surface=surface), lambda: [p.radial_dr(r) for p in pols], lambda: [p.triangular_dtheta(th) for p in pols],
               lambda: [str(p) + p.get_polynomial_name(True) for p in pols], lambda: fit_polynomials(rng.normal(size=(21, 21)), tuple(pols)), lambda: [p.radial(0.0) + p.radial_dr(0.0) for p in pols]):
        _, got = recorded(fn)
        require(not got, "warning without a reason", case, got)


@CHECK.enum("large_accelerated_kernels", lambda tier: [[85, several] for several in (False, True)] + [[87, several] for several in (False, True)], nontrivial=lambda c: c[0] > 85)
def large(case):
    size, several = case; ts = [[[1, 1], 0.02], [[0, 2], 0.03]][:2 if several else 1]
    psf = make(ts, [1.2, 0.5, 0.95], size, 20, 36)
    kernel, got = recorded(lambda: psf.calculate_psf_kernel(accelerated=True))
    expect(got, {"large": size > 85, "bright border": border_part(kernel) > 0.05}, case)
    _, silent = recorded(lambda: psf.calculate_psf_kernel(accelerated=True, suppress_warnings=True))
    require(not silent, "warnings aren't suppressed", case, silent)
