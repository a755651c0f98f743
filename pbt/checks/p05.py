import numpy as np

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, require
from .radial_common import GRID, all_m, call_with, compare, points

CHECK = Check("P05", "every (m, n) with n <= 44 (thorough: 50), up to n = 54 those with n - |m| <= 8 (thorough: 12), |m| <= 1 for n <= 47 (thorough: 52) on a fixed grid of 37 radii "
              "dense near 1, plus generated orders, radii (0, 1, denormals and neighbours of 1 included) and containers; non-trivial: n >= 2",
              ["Orders n > 50 with 1 < |m| < n - 12 are not evaluated (up to minutes each)",
               "allowed difference: 60 * 2.2e-16 * sum |power*coefficient| r^(power-1), at most 1% of the derivative at the border"])


@CHECK.enum("all_orders_on_grid", all_m(44, 4, 50, 6, 47, 52), nontrivial=lambda c: c[1] >= 2)
def grid(case):
    m, n = case; r = np.array(GRID)
    for mm in (m, -m):
        compare(ZernPol(m=mm, n=n).radial_dr(r), mm, n, r, o.dR_array, o.tol_dR, "radial derivative (array)")
    one = ZernPol(m=-m, n=n).radial_dr(1.0); want = (n * (n + 2) - m * m) / 2  # known border value
    require(abs(one - want) <= float(o.tol_dR(m, n, 1.0)) + 1e-12 * want, "derivative at the border", (-m, n), one, want)


@CHECK.gen("points_and_containers", points(54, 42, 5), quick=250, nontrivial=lambda c: c[0][1] >= 2)
def generated(case):
    (m, n), radii, kind = case
    r, got = call_with(ZernPol(m=m, n=n).radial_dr, radii, kind)
    compare(got, m, n, r, o.dR_array, o.tol_dR, f"radial derivative ({kind})")


@CHECK.gen("sign_of_m_is_irrelevant", points(44, 42), quick=250, nontrivial=lambda c: c[0][0] != 0)
def sign(case):
    (m, n), radii, kind = case
    r, plus = call_with(ZernPol(m=m, n=n).radial_dr, radii, kind)
    r, minus = call_with(ZernPol(m=-m, n=n).radial_dr, radii, kind)
    require(np.all(np.abs(np.asarray(plus) - np.asarray(minus)) <= o.tol_dR(m, n, r)), "radial derivatives of m and -m differ", (m, n), radii)
