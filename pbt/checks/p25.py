import warnings

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF

from ..core import Check, note, require
from ..gens import orders

CHECK = Check("P25", "generated values inside, exactly at, just outside and far outside of every limit (one wrong value at a time and combined), sequences with repeated and foreign "
              "members, numbers of coefficients; non-trivial: every case",
              ["NA from 1e-6 and pixel sizes from 1e-6 of the allowed one are tried as accepted values"], scale=3)
POL = orders(20)


def P(mn):
    return ZernPol(m=mn[0], n=mn[1])


def stored(psf):
    """All stored properties, comparable."""
    return [psf.NA, psf.wavelength, psf.pixel_size, psf.pixel_size_nyquist, psf.kernel_size, psf.k, psf.alpha, psf.expansion_coeff, psf.n_int_r_points, psf.n_int_phi_points, psf.airy,
            None if psf.coefficients is None else np.asarray(psf.coefficients).tolist(), None if psf.amplitudes is None else np.asarray(psf.amplitudes).tolist()]


def refused(fn, what, case):
    try:
        v = fn()
    except ValueError:
        return
    require(False, f"{what}: no ValueError", case, repr(v)[:80])


FOREIGN = {"none": None, "int": 3, "float": 0.5, "str": "ZernPol", "tuple": (1, 1), "list": [0, 0], "class": ZernPol, "object": object(), "array": np.zeros(3), "psf": ZernPSF(ZernPol(m=0, n=2)),
           "empty": (), "empty list": [], "empty str": "", "bool": True}


@CHECK.gen("foreign_polynomials", st.one_of(st.tuples(st.just("alone"), st.sampled_from(sorted(FOREIGN))),
                                            st.tuples(st.just("member"), st.sampled_from(sorted(FOREIGN)), st.lists(POL, max_size=4, unique_by=tuple), st.integers(0, 4), st.booleans())), quick=250)
def foreign(case):
    what = FOREIGN[case[1]]
    if case[0] == "alone":
        refused(lambda: ZernPSF(what), "anything else than a polynomial", case)
    else:
        seq = [P(x) for x in case[2]]; seq.insert(case[3], what); note(f"{len(seq)} members")
        refused(lambda: ZernPSF(seq if case[4] else tuple(seq)), "sequence with a foreign member", case)


@CHECK.gen("repeated_polynomials", st.tuples(st.lists(POL, min_size=1, max_size=12, unique_by=tuple), st.integers(0, 11), st.integers(0, 12), st.sampled_from(["list", "tuple", "array"]), st.booleans()), quick=250)
def repeated(case):
    pols, which, where, kind, same = case; objs = [P(x) for x in pols]; conv = {"list": list, "tuple": tuple, "array": lambda x: np.array(x, dtype=object)}[kind]
    psf = ZernPSF(conv(objs))
    got = [list(p.get_mn_orders()) for p in psf.polynomials] if len(pols) > 1 else [list(psf.zernpol.get_mn_orders())]
    require(got == pols, "stored polynomials", case, got)
    which %= len(pols); again = list(objs); again.insert(where, objs[which] if same else P(pols[which]))
    refused(lambda: ZernPSF(conv(again)), "repeated polynomial", case)


SCALE = st.sampled_from([1.0, 0.5, 1e-9, 1e3, 0.532, 4e-7])
GOOD_NA = st.one_of(st.floats(1e-6, 1.7), st.sampled_from([1.7, 1.6999999999999997, 1e-6, 1.0, 0.5]))
BAD_NA = st.one_of(st.floats(-100, 0.0), st.floats(1.7000000000000002, 1e6), st.sampled_from([0.0, -0.0, 1.7000000000000002, 1.71, float("inf"), float("-inf"), -1.0, 2]))
BAD_POSITIVE = st.one_of(st.floats(-1e6, 0.0), st.sampled_from([0.0, -0.0, -1e-300, float("-inf"), -1, 0]))
PART = st.one_of(st.floats(1e-6, 1.0), st.sampled_from([0.999999, 1e-6, 0.5, 1.0]))
COEFFS = st.lists(st.floats(-20, 20), min_size=12, max_size=12)


def coefficients(cs, n, wl, how):
    cs = [c * wl for c in cs[:n]]
    return cs[0] if n == 1 and how != "array" else np.array(cs) if how == "array" else cs if how == "list" else tuple(cs)


HOW = st.sampled_from(["list", "tuple", "array"])


@CHECK.gen("accepted_physical", st.tuples(st.lists(POL, min_size=1, max_size=12, unique_by=tuple), GOOD_NA, SCALE, PART, COEFFS, HOW), quick=400)
def accepted(case):
    pols, na, wl, part, cs, how = case
    limit = 0.5 * 0.5 * wl / na; pixel = limit * part
    if pixel > limit:
        pixel = limit
    if part == 1.0:
        pixel = float(np.nextafter(limit, 0.0))  # formula for the limit can be rounded differently
    psf = ZernPSF(tuple(P(x) for x in pols)); c = coefficients(cs, len(pols), wl, how); before = np.array(c)
    psf.set_physical_props(NA=na, wavelength=wl, expansion_coeff=c, pixel_physical_size=pixel)
    require(psf.NA == na and psf.wavelength == wl and psf.pixel_size == pixel, "accepted values aren't stored", case, psf.NA, psf.wavelength, psf.pixel_size)
    got = np.array([psf.expansion_coeff]) if len(pols) == 1 else np.asarray(psf.coefficients)
    require(np.array_equal(np.ravel(before), got), "accepted coefficients aren't stored", case, got.tolist())
    require(np.array_equal(before, np.array(c)), "passed coefficients are changed", case)


@CHECK.enum("exact_limits", lambda tier: [[na, wl] for na in (1.0, 0.5, 0.25, 0.125) for wl in (0.5, 1.0, 2.0, 0.25)])
def exact(case):
    """Values for which the limit of the pixel size is exact in any way of calculation."""
    na, wl = case; limit = 0.25 * wl / na
    for pols, c in ((ZernPol(m=1, n=3), 0.1), ((ZernPol(m=1, n=3), ZernPol(m=0, n=2)), (0.1, 0.2))):
        psf = ZernPSF(pols); psf.set_physical_props(na, wl, c, limit)
        require(psf.pixel_size == limit, "pixel size exactly at the limit isn't stored", case)
        refused(lambda: psf.set_physical_props(na, wl, c, float(np.nextafter(limit, 10))), "pixel size next above the limit", case)
        psf.set_physical_props(1.7, wl, c, 0.01 * wl)
        refused(lambda: psf.set_physical_props(float(np.nextafter(1.7, 2)), wl, c, 0.01 * wl), "NA next above 1.7", case)


@CHECK.gen("refused_physical", st.tuples(st.lists(POL, min_size=1, max_size=12, unique_by=tuple), GOOD_NA, SCALE, PART, COEFFS, HOW,
                                         st.lists(st.one_of(st.tuples(st.just("NA"), BAD_NA), st.tuples(st.just("wavelength"), BAD_POSITIVE), st.tuples(st.just("pixel"), BAD_POSITIVE),
                                                            st.tuples(st.just("pixel above"), st.one_of(st.floats(1.0000001, 100), st.just(1.0000001), st.just(float("inf")))),
                                                            st.tuples(st.just("number"), st.integers(0, 14)), st.tuples(st.just("type"), st.integers(0, 11))), min_size=1, max_size=2, unique_by=lambda t: t[0].split()[0]), st.booleans()), quick=500)
def refused_physical(case):
    """Nothing is changed by refused properties, whether others were set before or not."""
    pols, na, wl, part, cs, how, wrong, earlier = case; k = len(pols)
    props = dict(NA=na, wavelength=wl, expansion_coeff=coefficients(cs, k, wl, how), pixel_physical_size=0.25 * wl / na * min(part, 0.999))
    for what, value in wrong:
        note(what)
        if what == "NA":
            props["NA"] = value
        elif what == "wavelength":
            props["wavelength"] = value
        elif what == "pixel":
            props["pixel_physical_size"] = value
        elif what == "pixel above":
            props["pixel_physical_size"] = 0.25 * wl / na * value
        elif what == "type":
            if not any(w == "number" for w, _ in wrong):
                given = list(cs[:k]); given[value % k] = ["text", None, "0.1 um", {}][value % 4]
                props["expansion_coeff"] = given[0] if k == 1 and value % 2 else tuple(given) if how == "tuple" else given
        else:
            if value == k:
                value = k + 1
            scalar = k > 1 and value == 1 and how != "list"
            props["expansion_coeff"] = 0.1 * wl if scalar else {"list": list, "tuple": tuple, "array": np.array}[how]((cs * 2)[:value])
    psf = ZernPSF(tuple(P(x) for x in pols))
    if any(w == "NA" for w, _ in wrong) and isinstance(props["NA"], (int, float)) and props["NA"] > 1.7:
        props["pixel_physical_size"] = min(props["pixel_physical_size"], 1e-4 * wl) if props["pixel_physical_size"] > 0 else props["pixel_physical_size"]  # only NA is wrong
    if earlier:
        psf.set_physical_props(0.7, 0.6, tuple(0.01 * (i + 1) for i in range(k)), 0.1)
    before = stored(psf)
    try:
        v = psf.set_physical_props(**props)
    except ValueError:
        pass
    except TypeError:
        require(any(w == "type" for w, _ in wrong), "TypeError without wrong types", case)
    else:
        require(False, f"wrong {[w for w, _ in wrong]}: no ValueError", case, repr(v)[:80])
    require(before == stored(psf), "refused values are stored", case, before, stored(psf))


@CHECK.gen("calculation_properties", st.tuples(st.one_of(st.integers(3, 200), st.sampled_from([3, 4])), st.one_of(st.integers(20, 1000), st.just(20)), st.one_of(st.integers(36, 1000), st.just(36)),
                                               st.one_of(st.integers(-50, 2), st.just(2)), st.one_of(st.integers(-50, 19), st.just(19)), st.one_of(st.integers(-50, 35), st.just(35)),
                                               st.integers(1, 7), st.booleans()), quick=400)
def calculation(case):
    size, nr, nphi, bad_size, bad_r, bad_phi, mask, physical = case
    psf = ZernPSF(ZernPol(m=1, n=3))
    if physical:
        psf.set_physical_props(0.5, 0.5, 0.1, 0.2)
    psf.set_calculation_props(size, nr, nphi)
    want = (size + 1 - size % 2, nr, nphi)
    require((psf.kernel_size, psf.n_int_r_points, psf.n_int_phi_points) == want, "accepted calculation properties aren't stored", case, psf.kernel_size, psf.n_int_r_points, psf.n_int_phi_points)
    args = (bad_size if mask & 1 else size + 10, bad_r if mask & 2 else nr + 10, bad_phi if mask & 4 else nphi + 10)
    refused(lambda: psf.set_calculation_props(*args), "wrong calculation properties", case)
    require((psf.kernel_size, psf.n_int_r_points, psf.n_int_phi_points) == want, "refused calculation properties are stored", case)


@CHECK.gen("warnings", st.tuples(st.integers(3, 60), st.booleans(), st.floats(-14, 14)), quick=100)
def warned(case):
    """Documented warnings: a size below the estimated one, missing physical properties; none without a reason."""
    size, physical, c = case; psf = ZernPSF(ZernPol(m=1, n=3))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if physical:
            psf.set_physical_props(0.5, 0.5, c * 0.5, 0.2)
            if abs(abs(c) - 10) > 1e-6:
                require(bool(w) == (abs(c) > 10), "warning about a large coefficient", case, len(w))
            w.clear()
        estimated = psf.kernel_size; psf.set_calculation_props(size, 20, 36); given = size + 1 - size % 2
        require(bool(w) == (not physical or given < estimated), "warning about the kernel size", case, len(w), estimated)
