from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF

from .. import oracles as o
from ..core import Check, note, require
from .psf_common import (asymmetric, calculate, check_close, make, odd, physical, pixel_of, points, terms)

CHECK = Check("P21", "generated polynomials (one with n <= 20, or 2 to 6 with n <= 12), coefficients to +-3 wavelengths, NA 0.02 to 1.7, wavelengths 1e-9 to 1e6, pixel sizes 2% to "
              "100% of the allowed one, kernel sizes 3 to 9, 20 to 60 radial and 36 to 80 (even) angular points; non-trivial: a polynomial other than Piston with a "
              "coefficient other than 0",
              ["the Simpson rule is defined for an even number of angular intervals only, odd numbers are not decided",
               "reference quadrature: trapezoidal rule on the radius, composite Simpson rule on the angle with the set numbers of intervals"])


def oracle(ts, phys, size, quad):
    na, wl, _ = phys
    return o.psf_kernel([t[0] for t in ts], [t[1] * wl for t in ts], na, wl, pixel_of(phys), size, quad)


def tolerance(ts):
    """Rounding error of phases (values of polynomials of higher orders are sums of large terms)."""
    return 1e-10 + sum(abs(c) * o.norm(m, n) * float(o.tol_R(m, n, 1.0)) * 4 for (m, n), c in ts if n > 12)


def nontrivial(case):
    return asymmetric(case[0])


@CHECK.gen("single", st.tuples(terms(20, 1, 1, n_min=1), physical(), odd(3, 7), points()), quick=220, nontrivial=nontrivial)
def single(case):
    ts, phys, size, (nr, nphi) = case
    got = calculate(make(ts, phys, size, nr, nphi))
    check_close(got, oracle(ts, phys, size, o.quadrature(nr, nphi)), tolerance(ts), "element differs from the integral", case)
    require(got[size // 2, size // 2] <= 1 + 1e-9, "central element above 1", case)


@CHECK.gen("several", st.tuples(terms(12, 2, 6), physical(), odd(3, 5), points(40, 60)), quick=120, nontrivial=nontrivial)
def several(case):
    ts, phys, size, (nr, nphi) = case
    got = calculate(make(ts, phys, size, nr, nphi))
    check_close(got, oracle(ts, phys, size, o.quadrature(nr, nphi)), tolerance(ts), "element differs from the integral", case)
    require(got[size // 2, size // 2] <= 1 + 1e-9, "central element above 1", case)


@CHECK.gen("piston_is_airy", st.tuples(terms(0, 1, 1), physical(), odd(3, 31), points()), quick=150, nontrivial=lambda c: c[2] > 3)
def airy(case):
    ts, phys, size, (nr, nphi) = case; na, wl, _ = phys
    got = calculate(make(ts, phys, size, nr, nphi))
    check_close(got, o.airy_kernel(na, wl, pixel_of(phys), size), 1e-10, "element differs from the Airy pattern", case)


@CHECK.gen("true_integral", st.tuples(terms(8, 1, 2, n_min=1, limit=0.8), physical(), st.just(5)), quick=6, nontrivial=nontrivial, max_shrink=60)
def true_integral(case):
    """Fine integration against an independent quadrature (Gauss-Legendre on the radius)."""
    ts, phys, size = case
    got = calculate(make(ts, phys, size, 150, 120))
    check_close(got, oracle(ts, phys, size, o.fine_quadrature(60, 240)), 5e-3, "element differs from the diffraction integral", case)


@CHECK.enum("all_numbers_of_radial_points", lambda tier: [[nr, 36] for nr in range(20, 121 if tier == "quick" else 400)] + [[320, 300], [250, 320]])
def radial_points(case):
    """Node placement for every number of radial points (rounding of steps)."""
    ts = [[[1, 3], 0.4]]; phys = [0.8, 0.5, 0.9]
    nr, nphi = case; note("default number" if nr == 320 else "other")
    got = calculate(make(ts, phys, 3, nr, nphi))
    check_close(got, oracle(ts, phys, 3, o.quadrature(nr, nphi)), 1e-10, "element differs from the integral", case)


@CHECK.enum("all_numbers_of_angular_points", lambda tier: [[20, nphi] for nphi in range(36, 161 if tier == "quick" else 401, 2)])
def angular_points(case):
    ts = [[[-2, 4], 0.4], [[1, 1], 0.3]]; phys = [0.8, 0.5, 0.9]
    nr, nphi = case
    for k in (1, 2):
        got = calculate(make(ts[:k], phys, 3, nr, nphi))
        check_close(got, oracle(ts[:k], phys, 3, o.quadrature(nr, nphi)), 1e-10, "element differs from the integral", case)


@CHECK.gen("larger_kernels", st.tuples(terms(8, 1, 2, n_min=1), physical(), odd(9, 21)), quick=12, nontrivial=nontrivial)
def larger(case):
    ts, phys, size = case
    got = calculate(make(ts, phys, size, 20, 36))
    check_close(got, oracle(ts, phys, size, o.quadrature(20, 36)), tolerance(ts), "element differs from the integral", case)


@CHECK.enum("defaults_for_piston", lambda tier: [[a] for a in ([False, True] if tier != "quick" else [False])])
def defaults(case):
    """Without any settings: Airy pattern of documented default values."""
    psf = ZernPSF(ZernPol(m=0, n=0))
    got = psf.calculate_psf_kernel(suppress_warnings=True, normalized=False, accelerated=case[0])
    check_close(got, o.airy_kernel(psf.NA, psf.wavelength, psf.pixel_size, psf.kernel_size), 1e-3 if case[0] else 1e-10, "element differs from the Airy pattern", case)
    require(psf.NA == 1.0 and psf.wavelength == 0.532 and abs(psf.pixel_size - 0.98 * 0.25 * 0.532) < 1e-12 and psf.kernel_size == 19, "default values", case)


@CHECK.gen("many_polynomials", st.tuples(terms(10, 7, 24, limit=0.5), physical(), st.sampled_from([3, 3, 5])), quick=8, nontrivial=nontrivial, batch=20, max_shrink=40)
def many(case):
    ts, phys, size = case; note(f"{len(ts) // 8 * 8} polynomials or more")
    check_close(calculate(make(ts, phys, size, 20, 36)), oracle(ts, phys, size, o.quadrature(20, 36)), tolerance(ts), "element differs from the integral", case)


@CHECK.gen("far_elements", st.tuples(terms(6, 1, 1, n_min=1, limit=0.7), physical(), odd(23, 61)), quick=3, nontrivial=nontrivial, batch=10, max_shrink=20)
def far(case):
    """Sizes which are set for large pixel counts, elements far from the centre."""
    ts, phys, size = case
    check_close(calculate(make(ts, phys, size, 20, 36)), oracle(ts, phys, size, o.quadrature(20, 36)), tolerance(ts), "element differs from the integral", case)
