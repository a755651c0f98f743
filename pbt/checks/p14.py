import math
import warnings

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol

from ..core import Check, note, require
from ..gens import TWO_PI

CHECK = Check("P14", "complete families of steps 1/k, 2*pi/k, decimals, their neighbouring floats and generated steps, both coordinates; invalid steps (limits, "
              "negative, infinite, not a number); non-trivial: the step does not divide the range exactly or lies at a limit, or is invalid",
              ["equality of differences to the step is required within 1e-9; a repeated end point (difference 0 within 1e-15) counts as a shorter last step"], scale=4)


def check_vector(v, step, top, what):
    require(isinstance(v, np.ndarray) and v.ndim == 1 and v.size >= 2, "not a vector", what, np.shape(v))
    require(v[0] == 0.0, f"{what} do not start at 0", step, v[0])
    require(v[-1] <= top and abs(v[-1] - top) <= 1e-12, f"{what} do not end at the limit", step, v[-1], top)
    require(np.max(v) <= top and np.min(v) >= 0.0, f"{what} outside of the range", step, float(np.max(v)))
    d = np.diff(v)
    require(np.all(d[:-1] > 0) and d[-1] >= -1e-15, f"{what} do not increase", step)
    require(np.all(np.abs(d[:-1] - step) <= 1e-9), f"steps of {what} differ from the requested one", step, d[:-1].min(), d[:-1].max())
    require(d[-1] <= step + 1e-9, f"the last step of {what} is too long", step, d[-1])


def decide(dr, dth, evaluate=True):
    v = ZernPol.gen_polar_coordinates(dr, dth)
    check_vector(v.R, dr, 1.0, "radii"); check_vector(v.Theta, dth, TWO_PI, "angles")
    require(len(v) == 2 and v[0] is v.R and v[1] is v.Theta, "fields")
    if evaluate:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            z = ZernPol(m=2, n=4); z.radial(v.R); z.triangular(v.Theta)
        require(not w, "warning for generated coordinates", dr, dth, [str(x.message) for x in w][:2])


def families(tier):
    top = 400 if tier == "quick" else 4000
    for k in range(2, top):
        yield [1.0 / k, TWO_PI / k]
        yield [math.nextafter(1.0 / k, 0), math.nextafter(TWO_PI / k, 0)]
        if k > 2:
            yield [math.nextafter(1.0 / k, 1), math.nextafter(TWO_PI / k, 9)]
    for digits in (2, 3) if tier == "quick" else (2, 3, 4):
        for k in range(1, 5 * 10 ** (digits - 1) + 1):
            yield [k / 10 ** digits, round(math.pi / (k + 1), 7)]
            if k / 10 ** digits <= math.pi:
                yield [round(1 / (k + 1), 7), k / 10 ** digits]


@CHECK.enum("families_of_steps", families)
def family(case):
    decide(case[0], case[1], evaluate=True)


valid_r = st.one_of(st.floats(0.0004, 0.5), st.integers(2, 2000).map(lambda k: 1 / k), st.integers(1, 500).map(lambda k: k / 1000), st.sampled_from([0.5, math.nextafter(0.5, 0)]))
valid_t = st.one_of(st.floats(0.002, math.pi), st.integers(2, 2000).map(lambda k: TWO_PI / k), st.integers(2, 900).map(lambda k: round(math.pi / k, 7)),
                    st.integers(1, 314).map(lambda k: k / 100), st.sampled_from([math.pi, math.nextafter(math.pi, 0)]))


@CHECK.gen("generated_steps", st.tuples(valid_r, valid_t), quick=1000, nontrivial=lambda c: abs(1 / c[0] - round(1 / c[0])) > 1e-9)
def generated(case):
    decide(*case)


@CHECK.enum("defaults", lambda tier: ["both", "radii", "angles", "equal mesh"])
def defaults(case):
    if case == "both":
        v = ZernPol.gen_polar_coordinates(); check_vector(v.R, 0.01, 1.0, "radii"); check_vector(v.Theta, round(math.pi / 240, 7), TWO_PI, "angles")
    elif case == "radii":
        check_vector(ZernPol.gen_polar_coordinates(r_step=0.07).R, 0.07, 1.0, "radii")
    elif case == "angles":
        check_vector(ZernPol.gen_polar_coordinates(theta_rad_step=0.3).Theta, 0.3, TWO_PI, "angles")
    else:
        require(ZernPol.gen_equal_polar_mesh().R.size == 250, "default size of the equal mesh")


bad_r = st.one_of(st.floats(-1e6, 0), st.floats(0.5, 1e6, exclude_min=True), st.sampled_from([0.0, -0.0, math.nextafter(0.5, 1), 0.5001, 1.0, -1e-9, math.inf, -math.inf, math.nan]))
bad_t = st.one_of(st.floats(-1e6, 0), st.floats(math.pi, 1e6, exclude_min=True), st.sampled_from([0.0, math.nextafter(math.pi, 4), TWO_PI, math.inf, -math.inf, -1.0, math.nan]))


@CHECK.gen("invalid_steps", st.one_of(st.tuples(bad_r, valid_t), st.tuples(valid_r, bad_t), st.tuples(bad_r, bad_t)), quick=600)
def invalid(case):
    dr, dth = case
    for what, fn in (("coordinates", lambda: ZernPol.gen_polar_coordinates(dr, dth)),
                     ("surface", lambda: ZernPol.gen_zernikes_surface([1.0], [ZernPol(m=0, n=2)], r_step=dr, theta_rad_step=dth))):
        try:
            v = fn()
        except ValueError:
            continue
        require(False, f"{what} generated for an invalid step", case, repr(v)[:100])


@CHECK.enum("equal_mesh", lambda tier: range(-5, 700 if tier == "quick" else 3000))
def equal(case):
    v = ZernPol.gen_equal_polar_mesh(case); k = max(case, 4); note("raised to 4" if case < 4 else "as requested")
    for x, top in ((v.R, 1.0), (v.Theta, TWO_PI)):
        require(x.shape == (k,), "size", case, x.shape)
        require(x[0] == 0.0 and x[-1] == top and np.max(x) <= top, "ends", case, x[0], x[-1])
        require(np.all(np.abs(x - np.arange(k) * (top / (k - 1))) <= 1e-14 * k), "points are not equidistant", case)
