import math

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, note, require
from ..gens import ANGLES_SPECIAL, angle, cheap_orders, orders, radius

CHECK = Check("P06", "all 1540 polynomials for the normalization factor and the angular parts on fixed angles, generated (m, n) with points, single angles "
              "and lists for values, angular parts and derivatives; non-trivial: m != 0", scale=2)
ANGLES = np.array(sorted(set(ANGLES_SPECIAL + [0.1, 0.7, 1.2, 2.0, 2.5, 3.3, 3.9, 4.4, 5.0, 5.5, 6.0, 6.28])))


@CHECK.enum("all_polynomials", lambda tier: o.all_orders(), nontrivial=lambda c: c[0] != 0)
def all_polynomials(case):
    m, n = case; zp = ZernPol(m=m, n=n)
    require(abs(zp.normf() - o.norm(m, n)) <= 1e-14 * o.norm(m, n), "normalization factor", case, zp.normf(), o.norm(m, n))
    angular(zp, m, n, ANGLES, zp.triangular(ANGLES), zp.triangular_dtheta(ANGLES))
    for theta in (0.0, math.pi / 2, 1.2, 4.4):
        angular(zp, m, n, theta, zp.triangular(theta), zp.triangular_dtheta(theta))


def angular(zp, m, n, theta, t, dt):
    require(np.shape(t) == np.shape(theta) and np.shape(dt) == np.shape(theta), "shape of the angular part", (m, n), np.shape(t), np.shape(dt))
    require(np.all(np.abs(t - o.T(m, theta)) <= o.tol_T(m, theta)), "angular part", (m, n), theta, t, o.T(m, theta))
    require(np.all(np.abs(dt - o.dT(m, theta)) <= (1 + abs(m)) * o.tol_T(m, theta)), "derivative of the angular part", (m, n), theta, dt, o.dT(m, theta))


@CHECK.gen("angular_parts", st.tuples(orders(), st.lists(angle(), min_size=1, max_size=10), st.booleans()), quick=600, nontrivial=lambda c: c[0][0] != 0)
def angular_parts(case):
    (m, n), theta, single = case; zp = ZernPol(m=m, n=n)
    if single:
        for x in theta:
            angular(zp, m, n, x, zp.triangular(x), zp.triangular_dtheta(x))
    else:
        x = np.array(theta); angular(zp, m, n, x, zp.triangular(x), zp.triangular_dtheta(x))


point = st.tuples(radius(), angle())


@CHECK.gen("value_is_the_product", st.tuples(cheap_orders(54, 44, 5), st.lists(point, min_size=1, max_size=8), st.booleans(), st.booleans()), quick=600,
           nontrivial=lambda c: c[0][0] != 0)
def value(case):
    (m, n), points, single, exact = case; zp = ZernPol(m=m, n=n); exact = exact and n <= 40
    r = np.array([p[0] for p in points]); th = np.array([p[1] for p in points])
    note("exact equation" if exact else "default")
    if single:
        v = np.array([zp.polynomial_value(a, b, use_exact_eq=exact) for a, b in points])
        parts = np.array([zp.normf() * zp.radial(a, use_exact_eq=exact) * zp.triangular(b) for a, b in points])
    else:
        v = zp.polynomial_value(r, th, use_exact_eq=exact); parts = zp.normf() * zp.radial(r, use_exact_eq=exact) * zp.triangular(th)
    require(np.shape(v) == r.shape, "shape of the value", np.shape(v))
    require(np.all(np.abs(v - parts) <= 1e-13 * o.norm(m, n) * (1 + np.abs(parts))), "value is not norm * radial * angular part", (m, n), points, v, parts)
    require(np.all(np.abs(v - o.Z(m, n, r, th)) <= o.tol_Z(m, n, r, th)), "value differs from the definition", (m, n), points, v, o.Z(m, n, r, th))
