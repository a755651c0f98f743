import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol
from zernpy.calculations import calc_psfs, calc_psfs_numba
from zernpy.calculations import calc_zernike_pol as calc

from .. import oracles as o
from ..core import Check, note, require
from ..gens import angle, cheap_orders, orders, radius
from .psf_common import any_points, asymmetric, calculate, make, physical, pixel_of, relative_coefficient, terms
from .radial_common import GRID

CHECK = Check("P38", "all orders within the reach of each implementation (direct recursion n <= 16, closed equation n <= 40, search of coefficients n <= 46, compiled n <= 10) on a grid of radii and generated "
              "orders, points, PSF settings; orders given as a tuple or as an object; non-trivial: n >= 2",
              ["direct recursion of higher orders takes exponential time", "allowed differences as in P04, P05; 1e-9 of the kernel maximum for PSFs"])


def close(got, want, tol, what, case):
    got = np.asarray(got, dtype=float)
    require(got.shape == np.shape(want), what + ": shape", case, got.shape)
    require(np.all(np.abs(got - want) <= tol), what, case, got.tolist()[:3] if got.ndim else float(got), np.asarray(want).tolist()[:3] if got.ndim else float(want))


def implementations(n):
    out = []
    if n <= 16:
        out += [("direct recursion", calc.radial_polynomial, calc.radial_derivative)]
    if n <= 38:
        out += [("closed equation", calc.radial_polynomial_eq, calc.radial_derivative_eq)]
    return out + [("search of coefficients", calc.radial_polynomial_coeffs, calc.radial_polynomial_coeffs_dr)]


def cases(tier):
    return [[m, n] for n in range(0, 47) for m in range(-n, n + 1, 2) if n <= 42 or n - abs(m) <= 12]


@CHECK.enum("all_orders_all_implementations", cases, nontrivial=lambda c: c[1] >= 2)
def radial(case):
    m, n = case; r = np.array(GRID); want, tol, d_want, d_tol = o.R_array(m, n, r), o.tol_R(m, n, r), o.dR_array(m, n, r), o.tol_dR(m, n, r)
    for name, fn, derivative in implementations(n):
        for given in ((m, n), ZernPol(m=m, n=n)):
            kind = "orders" if isinstance(given, tuple) else "object"
            close(fn(given, r.copy()), want, tol, f"radial part, {name}, {kind}", case)
            close(derivative(given, r.copy()), d_want, d_tol, f"derivative, {name}, {kind}", case)


@CHECK.gen("points", st.tuples(cheap_orders(46, 38, 3), st.lists(radius(), min_size=1, max_size=4), angle(), st.booleans()), quick=500, nontrivial=lambda c: c[0][1] >= 2)
def points(case):
    (m, n), rs, th, as_object = case; given = ZernPol(m=m, n=n) if as_object else (m, n)
    note("object" if as_object else "orders")
    for r in rs:
        for name, fn, derivative in implementations(n):
            close(fn(given, r), o.R_array(m, n, np.array(r)), o.tol_R(m, n, np.array(r)), f"radial part, {name}", case)
            close(derivative(given, r), o.dR_array(m, n, np.array(r)), o.tol_dR(m, n, np.array(r)), f"derivative, {name}", case)
    for x in (th, np.array([th, 0.3, 4.0])):
        close(calc.triangular_function(given, x), o.T(m, x), o.tol_T(m, x), "angular part", case)
        close(calc.triangular_derivative(given, x), o.dT(m, x), (1 + abs(m)) * o.tol_T(m, x), "derivative of the angular part", case)
    require(abs(calc.normalization_factor(given) - o.norm(m, n)) <= 1e-14 * o.norm(m, n), "normalization factor", case)
    require(tuple(calc.define_orders(given)) == (m, n), "orders", case)


LOW = [[m, n] for n in range(11) for m in range(-n, n + 1, 2)]


@CHECK.enum("all_compiled_polynomials", lambda tier: LOW, nontrivial=lambda c: c[1] >= 2)
def compiled(case):
    m, n = case; r = np.array(GRID); zp = ZernPol(m=m, n=n)
    for th in (0.0, 0.7, 2.5, 5.1):
        close(calc_psfs_numba.zernpol_value((m, n), r, th), zp.polynomial_value(r, np.full(r.shape, th)), 2 * o.tol_Z(m, n, r, th) + 1e-12, "compiled value of a polynomial", case)
        close(calc_psfs_numba.zernpol_value((m, n), 0.83, th), zp.polynomial_value(0.83, th), 1e-12, "compiled value at a point", case)


@CHECK.gen("psf_points", st.tuples(terms(8, 1, 3), physical(), any_points(30, 50), st.floats(0, 40), angle()), quick=120, nontrivial=lambda c: asymmetric(c[0]))
def psf_points(case):
    ts, _, (nr, nphi), distance, theta = case; pols = tuple(ZernPol(m=m, n=n) for (m, n), _ in ts); cs = np.array([c for _, c in ts])
    sums = calc_psfs.get_psf_point_r_pols(pols, cs, distance, theta, nr, nphi)
    if len(ts) == 1:
        one = calc_psfs.get_psf_point_r(pols[0], distance, theta, float(cs[0]), nr, nphi)
        close(calc_psfs.get_psf_point_r_parallel(pols[0], distance, theta, float(cs[0]), nr, nphi), one, 1e-10, "vectorised point", case)
        close(sums, one, 1e-10, "point of a sum with one polynomial", case)
        close(calc_psfs_numba.get_psf_point_r_comp(tuple(ts[0][0]), distance, theta, float(cs[0]), nr, nphi), one, 1e-10, "compiled point", case)
    else:
        close(calc_psfs_numba.get_psf_point_r_pols_comp(tuple(tuple(mn) for mn, _ in ts), cs, distance, theta, nr, nphi), sums, 1e-10, "compiled point of a sum", case)


@CHECK.gen("kernels", st.tuples(terms(8, 1, 2), physical(), st.sampled_from([3, 5]), any_points(24, 40), st.booleans()), quick=40, nontrivial=lambda c: asymmetric(c[0]), share=2)
def kernels(case):
    """Functions of the module called directly with the settings of the object."""
    ts, phys, size, (nr, nphi), normalized = case; na, wl, _ = phys; pols = tuple(ZernPol(m=m, n=n) for (m, n), _ in ts)
    kw = dict(len2pixels=pixel_of(phys), wavelength=wl, NA=na, n_int_r_points=nr, n_int_phi_points=nphi, normalize_values=normalized, kernel_size=size, suppress_warns=True)
    if any(mn == [0, 0] for mn, _ in ts) and len(ts) == 1:
        got = calc_psfs.get_psf_kernel(pols[0], alpha=ts[0][1] * wl, airy_pattern=True, **kw)
        want = o.airy_kernel(na, wl, pixel_of(phys), size); note("Airy")
        close(got, want / want.max() if normalized else want, 1e-9, "Airy pattern", case); return
    want = calculate(make(ts, phys, size, nr, nphi), normalized=normalized)
    if len(ts) == 1:
        close(calc_psfs.get_psf_kernel(pols[0], alpha=ts[0][1] * wl, **kw), want, 1e-9, "kernel point by point", case)
        close(calc_psfs.get_psf_kernel(pols[0], alpha=ts[0][1] * wl, test_vectorized=True, **kw), want, 1e-9, "vectorised kernel", case)
        close(calc_psfs_numba.get_psf_kernel_comp(pols[0], alpha=float(ts[0][1] * wl), **kw), want, 1e-9, "compiled kernel", case)
        close(calc_psfs.get_psf_kernel_zerns(pols, np.array([ts[0][1]]), **kw), want, 1e-9, "kernel of a sum with one polynomial", case)
    else:
        cs = np.array([c for _, c in ts])
        close(calc_psfs.get_psf_kernel_zerns(pols, cs, **kw), want, 1e-9, "kernel of a sum", case)
        close(calc_psfs_numba.get_psf_kernel_comp(pols, alpha=cs, **kw), want, 1e-9, "compiled kernel of a sum", case)


@CHECK.gen("estimated_size_is_used", st.tuples(orders(8, 1), relative_coefficient(1.0), physical(0.3)), quick=25, share=2)
def sizes(case):
    """Without a size the kernel has the one estimated for the same settings."""
    mn, c, phys = case; na, wl, _ = phys; zp = ZernPol(m=mn[0], n=mn[1])
    size = calc_psfs.get_kernel_size(zp, pixel_of(phys), c, wl, na); note("large" if size > 25 else "small")
    require(size == calc_psfs.get_kernel_size(tuple(mn), pixel_of(phys), c, wl, na), "size for orders and for the object", case)
    require(size == make([[mn, c]], phys).kernel_size, "size estimated by the object", case)
    if size <= 13:
        k = calc_psfs.get_psf_kernel(zp, len2pixels=pixel_of(phys), alpha=c * wl, wavelength=wl, NA=na, n_int_r_points=20, n_int_phi_points=36, suppress_warns=True)
        require(k.shape == (size, size), "size of the kernel", case, k.shape, size)
