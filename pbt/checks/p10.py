import math
import warnings

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, note, require
from ..gens import TWO_PI, angle, cheap_orders, long_size, radius

CHECK = Check("P10", "generated polynomials, methods and containers with one generated coordinate outside the domain at a generated position, pairs of different "
              "shapes, texts that are no numbers, angles outside of one period and coordinates inside (limits included); every case is non-trivial except "
              "those with all coordinates inside",
              ["angles are generated up to 1e4, for which the periodic continuation is exact to 1e-10"])
METHODS = ["polynomial_value", "radial", "radial_dr"]
SHAPES = ["scalar", "numpy scalar", "list", "tuple", "array1", "array2", "text"]
BAD_R = st.one_of(st.sampled_from([math.nextafter(1, 2), 1.0000000001, -5e-324, -1e-300, -1e-12, -1.0, 2.0, math.inf, -math.inf, 1e308, 1.0 + 1e-7]),
                  st.floats(1, 1e6, exclude_min=True), st.floats(-1e6, 0, exclude_max=True).filter(lambda x: x < 0))


def shaped(values, shape):
    if shape == "scalar":
        return float(values[0])
    if shape == "numpy scalar":
        return np.float64(values[0])
    if shape == "text":
        return repr(float(values[0]))
    if shape == "list":
        return list(values)
    if shape == "tuple":
        return tuple(values)
    if shape == "array2":
        return np.array(list(values) + list(values)).reshape(2, -1)
    return np.array(values)


def call(zp, method, r, theta, exact):
    if method == "polynomial_value":
        return zp.polynomial_value(r, theta, use_exact_eq=exact)
    if method in ("radial", "radial_dr"):
        return getattr(zp, method)(r, use_exact_eq=exact)
    return getattr(zp, method)(theta)


def refuses(fn, what, case):
    try:
        v = fn()
    except ValueError:
        return
    require(False, f"{what}: no ValueError", case, repr(v)[:200])


@CHECK.gen("radius_outside", st.tuples(cheap_orders(54, 44, 0), st.sampled_from(METHODS + ["sum"]), st.lists(radius(), min_size=1, max_size=9), st.integers(0, 8), BAD_R,
                                       st.sampled_from(SHAPES), st.booleans(), angle()), quick=1200)
def radius_outside(case):
    (m, n), method, rs, where, bad, shape, exact, th = case; zp = ZernPol(m=m, n=n)
    note(shape)
    rs = list(rs); rs[0 if shape in ("scalar", "numpy scalar", "text") else where % len(rs)] = bad
    r = shaped(rs, shape)
    theta = th if np.ndim(r) == 0 else shaped([th] * len(rs), shape)
    if method == "sum":
        refuses(lambda: ZernPol.sum_zernikes([0.5, 1.0], [zp, ZernPol(m=0, n=0)], r, theta), "sum at a radius outside of [0, 1]", case)
        if isinstance(r, np.ndarray) and r.ndim == 1:
            refuses(lambda: ZernPol.sum_zernikes([0.5], [zp], r, np.array([th, 0.0, 1.0]), get_surface=True), "surface with a radius outside of [0, 1]", case)
    else:
        refuses(lambda: call(zp, method, r, theta, exact), f"{method} at a radius outside of [0, 1]", case)


shape_of = st.lists(st.integers(1, 4), min_size=1, max_size=3)


@CHECK.gen("different_shapes", st.tuples(cheap_orders(54, 44, 0), shape_of, shape_of, st.booleans(), st.booleans(), st.sampled_from(["array", "list", "sum"])), quick=600)
def different_shapes(case):
    from ..core import Discard
    (m, n), s1, s2, exact, transpose, how = case; zp = ZernPol(m=m, n=n)
    if transpose:
        s2 = s1[::-1]
    if s1 == s2:
        raise Discard()
    r = np.full(s1, 0.5); th = np.full(s2, 1.0)
    if np.broadcast_shapes(*([tuple(s1), tuple(s2)] if compatible(s1, s2) else [()])):
        note("broadcastable")
    if how == "list":
        r = r.tolist(); th = th.tolist()
    if how == "sum":
        refuses(lambda: ZernPol.sum_zernikes([1.0, 2.0], [zp, ZernPol(m=1, n=1)], r, th), "sum for different shapes", case)
    else:
        refuses(lambda: zp.polynomial_value(r, th, use_exact_eq=exact), "different shapes of radii and angles", case)


def compatible(a, b):
    return all(x == y or 1 in (x, y) for x, y in zip(a[::-1], b[::-1]))


def not_a_number(text):
    try:
        float(text)
        return False
    except ValueError:
        return True


@CHECK.gen("texts", st.tuples(cheap_orders(54, 44, 0), st.sampled_from(METHODS + ["triangular", "triangular_dtheta"]),
                              st.one_of(st.text(max_size=6), st.sampled_from(["", "d", "0,5", "0.5.1", "half", "1e", "--1", "0x1"])).filter(not_a_number), st.booleans(), st.booleans()), quick=400)
def texts(case):
    (m, n), method, text, exact, second = case; zp = ZernPol(m=m, n=n)
    r, th = (0.5, text) if second or method.startswith("tri") else (text, 1.0)
    if method.startswith("radial"):
        r = text
    refuses(lambda: call(zp, method, r, th, exact), f"text given to {method}", case)


def warned(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = fn()
    return out, [str(x.message) for x in w]


far = st.one_of(st.floats(TWO_PI, 1e4, exclude_min=True), st.floats(-1e4, 0, exclude_max=True).filter(lambda x: x < 0),
                st.sampled_from([math.nextafter(TWO_PI, 7), -5e-324, -1e-9, 7.0, -math.pi, 100.0, -TWO_PI, 2 * TWO_PI]))


@CHECK.gen("angle_outside", st.tuples(cheap_orders(50, 44, 0), st.sampled_from(["polynomial_value", "triangular", "triangular_dtheta", "sum"]), st.lists(angle(), min_size=1, max_size=8),
                                      st.lists(st.tuples(st.integers(0, 7), far), min_size=1, max_size=8), st.sampled_from(SHAPES), radius(), st.booleans()), quick=1000)
def angle_outside(case):
    (m, n), method, ths, outside, shape, r, exact = case; zp = ZernPol(m=m, n=n); exact = exact and n <= 40
    note(shape)
    ths = list(ths)
    for k, v in outside:
        ths[k % len(ths)] = v
    if shape in ("scalar", "numpy scalar", "text"):
        ths[0] = outside[0][1]
    theta = shaped(ths, shape); rr = r if np.ndim(theta) == 0 else np.full(np.shape(theta), r)
    if method == "sum":
        got, messages = warned(lambda: ZernPol.sum_zernikes([2.0], [zp], rr, theta))
    else:
        got, messages = warned(lambda: call(zp, method, rr, theta, exact))
    require(any("ngle" in s or "theta" in s.lower() for s in messages), "no warning about the angle", case, messages)
    flat = np.asarray(theta, dtype=float) if shape != "text" else np.asarray(float(theta))
    base = {"polynomial_value": lambda: o.Z(m, n, rr, flat), "sum": lambda: 2 * o.Z(m, n, rr, flat), "triangular": lambda: o.T(m, flat),
            "triangular_dtheta": lambda: o.dT(m, flat)}[method]()
    size = {"polynomial_value": o.norm(m, n), "sum": 2 * o.norm(m, n), "triangular": 1.0, "triangular_dtheta": max(1, abs(m))}[method]
    tol = size * (1e-9 + (2 * o.tol_R(m, n, rr) if method in ("polynomial_value", "sum") else 0.0))
    require(np.shape(got) == np.shape(base), "shape", case, np.shape(got))
    require(np.all(np.abs(got - base) <= tol), "not the periodic continuation", case, np.asarray(got).tolist(), np.asarray(base).tolist())


@CHECK.gen("inside", st.tuples(cheap_orders(50, 44, 0), st.lists(st.tuples(radius(), angle()), min_size=1, max_size=8), st.sampled_from(SHAPES)), quick=600,
           nontrivial=lambda c: any(p[0] in (0.0, 1.0) or p[1] in (0.0, TWO_PI) for p in c[1]))
def inside(case):
    (m, n), pts, shape = case; zp = ZernPol(m=m, n=n)
    r = shaped([p[0] for p in pts], shape); th = shaped([p[1] for p in pts], shape)
    for method in METHODS + ["triangular", "triangular_dtheta"]:
        _, messages = warned(lambda: call(zp, method, r, th, False))
        require(not any("ngle" in s or "theta" in s.lower() for s in messages), f"warning about angles inside of the period ({method})", case, messages)
        if n <= 12:
            require(not messages, f"warning for coordinates inside the domain ({method})", case, messages)


place = st.one_of(st.sampled_from([0.0, 1.0]), st.floats(0, 1))


@CHECK.gen("long_arrays", st.tuples(cheap_orders(12, 12, 0), st.sampled_from(METHODS + ["sum", "triangular", "triangular_dtheta"]), long_size(200000), st.integers(1, 12),
                                    place, place, BAD_R, far, st.booleans(), st.sampled_from(["radius", "angle", "none"])), quick=250)
def long_arrays(case):
    (m, n), method, size, rows, at_r, at_th, bad, bad_angle, exact, what = case; zp = ZernPol(m=m, n=n)
    shape = (size,) if rows > 6 else (rows, max(1, size // rows))
    total = shape[0] * (shape[1] if len(shape) == 2 else 1)
    r = np.linspace(0.0, 1.0, total); th = np.linspace(0.0, TWO_PI, total)
    note(what); note("2D" if len(shape) == 2 else "1D")
    if what == "radius":
        r[min(total - 1, int(at_r * total))] = bad
    elif what == "angle":
        th[min(total - 1, int(at_th * total))] = bad_angle
    r = r.reshape(shape); th = th.reshape(shape)

    def run():
        if method == "sum":
            return ZernPol.sum_zernikes([0.5, 1.0], [zp, ZernPol(m=0, n=0)], r, th)
        return call(zp, method, r, th, exact)
    if what == "radius" and not method.startswith("tri"):
        refuses(run, f"{method} of {shape} points, one radius outside of [0, 1]", case)
        return
    got, messages = warned(run)
    require(np.shape(got) == shape, "shape", case, np.shape(got))
    about_angles = [s for s in messages if "ngle" in s or "theta" in s.lower()]
    if what == "angle" and not method.startswith("radial"):
        require(about_angles, f"{method} of {shape} points, one angle outside of the period: no warning", case, messages)
    else:
        require(not about_angles, f"{method} of {shape} points, all angles inside of the period: warning", case, messages)
