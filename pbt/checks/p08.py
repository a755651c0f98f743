import warnings

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, note, require
from ..gens import angle, orders, radius
from .radial_common import GRID

CHECK = Check("P08", "all orders (both signs of m) on a grid of 37 radii and generated orders, points, containers and repeated calls; non-trivial: n > 12 "
              "(the two calculations differ)", ["n > 40 (values) and n > 38 (derivatives) are the limits stated in the documentation"], scale=3)
LIMIT, LIMIT_DR = 40, 38


def warned(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = fn()
    return out, len(w)


def beyond(fn, shape, what, case):
    """Zero(s) and a warning, at every call."""
    for attempt in (1, 2, 3):
        out, n = warned(fn)
        require(n >= 1, f"no warning ({what}, call {attempt})", case)
        require(np.shape(out) == tuple(shape), f"shape of zeros ({what})", case, np.shape(out), shape)
        require(np.all(np.asarray(out) == 0.0), f"not zero beyond the limit ({what})", case, out)


def decide(m, n, r, theta):
    zp = ZernPol(m=m, n=n); shape = np.shape(r)
    if n <= LIMIT:
        v, quiet = warned(lambda: zp.radial(r, use_exact_eq=True))
        require(np.shape(v) == shape, "shape", (m, n), np.shape(v))
        require(quiet == 0, "warning within the limits", (m, n))
        require(np.all(np.abs(v - o.R_array(m, n, r)) <= o.tol_R(m, n, r)), "exact radial value", (m, n), r, v, o.R_array(m, n, r))
        v = zp.polynomial_value(r, theta, use_exact_eq=True)
        require(np.all(np.abs(v - o.Z(m, n, r, theta)) <= o.tol_Z(m, n, r, theta)), "exact value", (m, n), r, theta, v)
        require(np.all(np.abs(v - zp.polynomial_value(r, theta)) <= 2 * o.tol_Z(m, n, r, theta)), "exact and default value differ", (m, n), r, theta, v)
    else:
        beyond(lambda: zp.radial(r, use_exact_eq=True), shape, "radial", (m, n))
        beyond(lambda: zp.polynomial_value(r, theta, use_exact_eq=True), shape, "value", (m, n))
    if n <= LIMIT_DR:
        v, quiet = warned(lambda: zp.radial_dr(r, use_exact_eq=True))
        require(np.shape(v) == shape, "shape", (m, n), np.shape(v))
        require(quiet == 0, "warning within the limits", (m, n))
        require(np.all(np.abs(v - o.dR_array(m, n, r)) <= o.tol_dR(m, n, r)), "exact derivative", (m, n), r, v, o.dR_array(m, n, r))
    else:
        beyond(lambda: zp.radial_dr(r, use_exact_eq=True), shape, "derivative", (m, n))


@CHECK.enum("all_orders", lambda tier: o.all_orders(), nontrivial=lambda c: c[1] > 12)
def all_orders(case):
    m, n = case; r = np.array(GRID)
    decide(m, n, r, np.linspace(0.0, 6.28, r.size))


@CHECK.gen("points", st.tuples(orders(), st.lists(st.tuples(radius(), angle()), min_size=1, max_size=6), st.booleans()), quick=400,
           nontrivial=lambda c: c[0][1] > 12)
def points(case):
    (m, n), pts, single = case
    note("scalar" if single else "array")
    if single:
        for r, th in pts:
            decide(m, n, r, th)
    else:
        decide(m, n, np.array([p[0] for p in pts]), np.array([p[1] for p in pts]))


@CHECK.gen("orders_around_the_limits", st.tuples(st.integers(36, 43).flatmap(lambda n: st.integers(0, n).map(lambda k: [2 * k - n, n])), radius(), angle()), quick=200)
def limits(case):
    (m, n), r, th = case
    decide(m, n, r, th); decide(m, n, np.array([[r, 0.5], [1.0, r]]), np.array([[th, 0.0], [1.0, th]]))
