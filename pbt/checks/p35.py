import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF, force_get_psf_compilation

from .. import oracles as o
from ..core import Check, note, require
from .p22 import LOW
from .psf_common import any_points, check_close, odd, physical, pixel_of, relative_coefficient

CHECK = Check("P35", "generated histories (2 to 7 operations: settings, accelerated and plain kernels, precompilations with and without report) over 1 to 3 PSF objects with 1 or 3 polynomials of order <= 10, "
              "kernel sizes 3 to 5; non-trivial: a precompilation between other operations",
              ["the results are compared with the plain calculation by new objects and, for the precompiled objects, with a separate quadrature"])
TERM = st.tuples(st.sampled_from(LOW[1:]), relative_coefficient())
OBJECT = st.one_of(TERM.map(lambda t: [t]), st.lists(TERM, min_size=3, max_size=3, unique_by=lambda t: tuple(t[0])))
SETTINGS = st.tuples(physical(), odd(3, 5), any_points(40, 60))
OP = st.one_of(st.tuples(st.just("set"), st.integers(0, 2), SETTINGS), st.tuples(st.just("kernel"), st.integers(0, 2), st.tuples(st.booleans(), st.booleans())),
               st.tuples(st.just("kernel"), st.integers(0, 2), st.tuples(st.booleans(), st.booleans())), st.tuples(st.just("compile"), st.just(0), st.booleans()))


def build(ts):
    pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]
    return ZernPSF(pols[0] if len(pols) == 1 else tuple(pols))


def apply(psf, ts, s):
    phys, size, (nr, nphi) = s; cs = [c * phys[1] for _, c in ts]
    psf.set_physical_props(phys[0], phys[1], cs[0] if len(cs) == 1 else tuple(cs), pixel_of(phys)); psf.set_calculation_props(size, nr, nphi)


def public(psf):
    """Public attributes, also the ones which are the defaults of the class."""
    values = {k: getattr(psf, k) for k in dir(psf) if not k.startswith("_")}
    return {k: repr(np.asarray(v).tolist() if isinstance(v, np.ndarray) else v) for k, v in values.items() if isinstance(v, (int, float, str, tuple, list, np.ndarray, bool, type(None)))}


DEFAULTS = public(ZernPSF(ZernPol(m=0, n=0)))  # before any precompilation in this process


def check_compiled(pair, case):
    require(isinstance(pair, tuple) and len(pair) == 2 and all(isinstance(x, ZernPSF) for x in pair), "returned objects", case, repr(pair)[:200])
    for x in pair:
        pols = [x.zernpol] if x.zernpol is not None else list(x.polynomials); cs = np.atleast_1d(np.asarray(x.coefficients if x.zernpol is None else x.expansion_coeff, dtype=float)).tolist()
        k = x.kernel; require(isinstance(k, np.ndarray) and k.shape[0] == k.shape[1] and k.shape[0] % 2 == 1 and k.shape[0] == x.kernel_size, "kernel of a returned object", case, np.shape(k))
        orders = [list(p.get_mn_orders()) for p in pols]; require(len(orders) == len(cs), "coefficients of a returned object", case, orders, cs)
        want = o.psf_kernel(orders, cs, x.NA, x.wavelength, x.pixel_size, x.kernel_size, o.quadrature(x.n_int_r_points, x.n_int_phi_points))
        require(np.all(np.abs(k - want / want.max()) <= 1e-9), "kernel of a returned object", case, k.tolist(), (want / want.max()).tolist())


def run(case):
    objects, first, ops = case; psfs = [build(ts) for ts in objects]; now = [first] * len(objects)
    for x, ts in zip(psfs, objects):
        apply(x, ts, first)
    default = public(ZernPSF(ZernPol(m=0, n=0))); require(default == DEFAULTS, "defaults of new objects are changed", case)
    for what, k, arg in ops + [["compile", 0, False]] + [["kernel", k, [fast, True]] for k in range(len(objects)) for fast in (True, False)]:
        k %= len(psfs); psf, ts = psfs[k], objects[k]; note(what)
        if what == "set":
            apply(psf, ts, arg); now[k] = arg
        elif what == "compile":
            before = [public(x) for x in psfs]; check_compiled(force_get_psf_compilation(arg), case)
            require(before == [public(x) for x in psfs], "precompilation changes existing objects", case)
            new = public(ZernPSF(ZernPol(m=0, n=0))); require(new == default, "precompilation changes the defaults of new objects", case, {k: (default.get(k), v) for k, v in new.items() if default.get(k) != v})
        else:
            fast, normalized = arg; kw = dict(suppress_warnings=True, normalized=normalized); got = psf.calculate_psf_kernel(accelerated=fast, **kw)
            new = build(ts); apply(new, ts, now[k]); want = new.calculate_psf_kernel(accelerated=False, **kw)
            if np.all(np.isfinite(want)):
                check_close(got, want, 1e-9, f"kernel ({'accelerated' if fast else 'plain'}) depends on the history", case)


@CHECK.gen("histories", st.tuples(st.lists(OBJECT, min_size=1, max_size=3), SETTINGS, st.lists(OP, min_size=2, max_size=7)), quick=45, batch=40, max_shrink=60,
           nontrivial=lambda c: any(x[0] == "compile" for x in c[2]))
def histories(case):
    run(case)
