"""Generators and helpers shared by the checks of PSF calculations."""
import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF

from ..core import require
from ..gens import orders


def wavelengths():
    return st.one_of(st.floats(0.3, 1.2), st.sampled_from([0.5, 0.532, 1.0]), st.sampled_from([1e-9, 500e-9, 1e-3, 40.0, 532.0, 1e6]), st.floats(-9, 6).map(lambda p: 10.0 ** p))


def physical(na_min=0.02):
    """NA, wavelength, pixel size as a part of the allowed maximum."""
    na = st.one_of(st.floats(na_min, 1.7), st.sampled_from([1.7, 1.0, 0.95, 0.5, 0.25]))
    part = st.one_of(st.floats(0.02, 0.999), st.sampled_from([0.999, 0.5, 0.9]))
    return st.tuples(na, wavelengths(), part)


def relative_coefficient(limit=3.0):
    """Coefficient in wavelengths."""
    return st.one_of(st.floats(-limit, limit), st.floats(-0.6, 0.6), st.sampled_from([0.0, 0.5, -0.5, 0.25, 1.0, -limit]))


def terms(n_max, min_size, max_size, n_min=0, limit=3.0):
    return st.lists(st.tuples(orders(n_max, n_min), relative_coefficient(limit)), min_size=min_size, max_size=max_size, unique_by=lambda t: tuple(t[0]))


def points(r_max=60, phi_max=80):
    return st.tuples(st.integers(20, r_max), st.integers(18, phi_max // 2).map(lambda k: 2 * k))


def any_points(r_max=60, phi_max=80):
    return st.tuples(st.integers(20, r_max), st.integers(36, phi_max))


def odd(lo, hi):
    return st.integers((lo - 1) // 2, (hi - 1) // 2).map(lambda k: 2 * k + 1)


def pixel_of(phys):
    na, wl, part = phys
    return part * wl / (4.0 * na)


def make(ts, phys, size=None, nr=None, nphi=None):
    """PSF object with the settings; ts - [[m, n], coefficient in wavelengths] ..."""
    pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]; na, wl, _ = phys; cs = [c * wl for _, c in ts]
    psf = ZernPSF(pols[0] if len(pols) == 1 else tuple(pols))
    psf.set_physical_props(NA=na, wavelength=wl, expansion_coeff=cs[0] if len(cs) == 1 else tuple(cs), pixel_physical_size=pixel_of(phys))
    if size is not None:
        psf.set_calculation_props(kernel_size=size, n_integration_points_r=nr, n_integration_points_phi=nphi)
    return psf


def calculate(psf, accelerated=False, normalized=False, suppress=True, verbose=False):
    return psf.calculate_psf_kernel(suppress_warnings=suppress, normalized=normalized, verbose_info=verbose, accelerated=accelerated)


def check_close(got, want, tol, what, case):
    require(isinstance(got, np.ndarray) and got.shape == want.shape, f"{what}: shape of the kernel", case, np.shape(got), want.shape)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        require(False, what, case, [i, j], float(got[i, j]), float(want[i, j]))


def has_piston(ts):
    return any(t[0][1] == 0 for t in ts)


def asymmetric(ts):
    return any(t[0][1] > 0 and t[1] != 0 for t in ts)
