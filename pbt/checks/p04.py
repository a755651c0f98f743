import numpy as np

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, require
from .radial_common import GRID, all_m, call_with, compare, points

CHECK = Check("P04", "every (m, n) with n <= 46 (thorough: 52), up to n = 54 those with n - |m| <= 12 (thorough: 16), |m| <= 1 for n <= 51 (thorough: 54) on a fixed grid of 37 radii "
              "dense near 1, plus generated orders, radii (0, 1, denormals and neighbours of 1 included) and containers; non-trivial: n >= 2",
              ["Orders n = 53, 54 with 1 < |m| < n - 16 are not evaluated (seconds each)",
               "allowed difference: 60 * 2.2e-16 * sum |coefficient| r^power, at most 0.1"])


@CHECK.enum("all_orders_on_grid", all_m(46, 6, 52, 8, 51, 54), nontrivial=lambda c: c[1] >= 2)
def grid(case):
    m, n = case; r = np.array(GRID)
    for mm in (m, -m):
        compare(ZernPol(m=mm, n=n).radial(r), mm, n, r, o.R_array, o.tol_R, "radial value (array)")
    one = ZernPol(m=-m, n=n).radial(1.0)
    require(abs(one - 1.0) <= float(o.tol_R(m, n, 1.0)), "value at the border is not 1", (-m, n), one)


@CHECK.gen("points_and_containers", points(54, 44), quick=700, nontrivial=lambda c: c[0][1] >= 2)
def generated(case):
    (m, n), radii, kind = case
    r, got = call_with(ZernPol(m=m, n=n).radial, radii, kind)
    compare(got, m, n, r, o.R_array, o.tol_R, f"radial value ({kind})")


@CHECK.gen("sign_of_m_is_irrelevant", points(46, 44), quick=250, nontrivial=lambda c: c[0][0] != 0)
def sign(case):
    (m, n), radii, kind = case
    r, plus = call_with(ZernPol(m=m, n=n).radial, radii, kind)
    r, minus = call_with(ZernPol(m=-m, n=n).radial, radii, kind)
    require(np.all(np.abs(np.asarray(plus) - np.asarray(minus)) <= o.tol_R(m, n, r)), "radial parts of m and -m differ", (m, n), radii)
