import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, note, require
from ..gens import angle, cheap_orders, long_size, radius

CHECK = Check("P09", "generated polynomials, methods (value, radial and angular parts, derivatives, exact equation), shapes (0D scalars, lists, tuples, nested lists, "
              "1D to 3D arrays), element types and memory layouts; non-trivial: container with at least 2 different points",
              ["single precision containers are compared with single precision tolerance"], scale=2)
METHODS = ["polynomial_value", "radial", "triangular", "radial_dr", "triangular_dtheta"]
EXACT_LIMIT = {"polynomial_value": 40, "radial": 40, "radial_dr": 38}
KINDS = ["list", "tuple", "nested list", "array1", "array2", "array3", "column", "fortran", "strided", "reversed", "read-only", "float32", "broadcast"]
DEFAULT_LIMIT = 44


def container(values, kind):
    """Container holding the values (repeated to fill the shape) and the array of the same shape with them."""
    a = np.array(values)
    if kind == "list":
        return list(values), a
    if kind == "tuple":
        return tuple(values), a
    if kind == "nested list":
        b = np.concatenate([a, a]).reshape(2, -1); return b.tolist(), b
    if kind == "array2":
        b = np.concatenate([a, a[::-1]]).reshape(2, -1); return b.copy(), b
    if kind == "array3":
        b = np.concatenate([a] * 4).reshape(2, 2, -1); return b.copy(), b
    if kind == "column":
        b = a.reshape(-1, 1); return b.copy(), b
    if kind == "fortran":
        b = np.concatenate([a, a[::-1], a]).reshape(3, -1); return np.asfortranarray(b), b
    if kind == "strided":
        c = np.full(3 * a.size, 0.25); c[::3] = a; return c[::3], a
    if kind == "reversed":
        return a[::-1].copy()[::-1], a
    if kind == "read-only":
        b = a.copy(); b.flags.writeable = False; return b, a
    if kind == "float32":
        b = a.astype(np.float32); b = np.minimum(b, np.float32(6.283185)); return b, b.astype(float)
    if kind == "broadcast":
        return np.broadcast_to(a, (3, a.size)), np.broadcast_to(a, (3, a.size))
    return a.copy(), a


def call(zp, method, r, theta, exact):
    f = getattr(zp, method)
    if method == "polynomial_value":
        return f(r, theta, use_exact_eq=exact)
    if method.startswith("radial"):
        return f(r, use_exact_eq=exact)
    return f(theta)


def tolerance(zp, method, m, n, r, theta):
    """Allowed difference of two correct evaluations at the points."""
    if method == "polynomial_value":
        return 2 * o.tol_Z(m, n, r, theta)
    if method == "radial":
        return 2 * o.tol_R(m, n, r)
    if method == "radial_dr":
        return 2 * o.tol_dR(m, n, r)
    return 4 * (1 + abs(m)) * o.tol_T(m, theta)


def same_content(a, before):
    return np.array_equal(np.asarray(a), np.asarray(before)) and type(a) is type(before)


def snapshot(x):
    return x.copy() if isinstance(x, np.ndarray) else (list(x) if isinstance(x, list) else x)


def is_scalar(v):
    return np.ndim(v) == 0 and not isinstance(v, np.ndarray)


@CHECK.gen("containers", st.tuples(cheap_orders(50, DEFAULT_LIMIT, 2), st.sampled_from(METHODS), st.lists(st.tuples(radius(), angle()), min_size=1, max_size=7),
                                   st.sampled_from(KINDS), st.booleans()), quick=1500, nontrivial=lambda c: len(c[2]) > 1)
def containers(case):
    (m, n), method, pts, kind, exact = case; zp = ZernPol(m=m, n=n)
    exact = exact and n <= EXACT_LIMIT.get(method, -1)
    note(kind); note(method)
    rc, ra = container([p[0] for p in pts], kind); tc, ta = container([p[1] for p in pts], kind)
    if kind == "float32":
        ra = np.minimum(ra, 1.0)
    r0, t0 = snapshot(rc), snapshot(tc)
    got = call(zp, method, rc, tc, exact)
    require(same_content(rc, r0) and same_content(tc, t0), "the input container is modified", case)
    require(isinstance(got, np.ndarray) and got.shape == ra.shape, "shape of the result", case, np.shape(got), ra.shape)
    for given in (rc, tc):
        require(not (isinstance(given, np.ndarray) and np.shares_memory(got, given)), "the result shares memory with the input", case)
    want = np.empty(ra.shape)
    for k in np.ndindex(ra.shape):
        v = call(zp, method, float(ra[k]), float(ta[k]), exact)
        require(is_scalar(v), "scalar input does not give a scalar", case, type(v))
        want[k] = v
    tol = tolerance(zp, method, m, n, ra, ta)
    if kind == "float32":
        # one rounding of the values to single precision before and after each of the operations
        tol = tol + 3e-7 * (n + 2) ** 4 * np.maximum(1, o._cond(o.radial_coeffs(m, n), ra)) * o.norm(m, n)
    require(np.all(np.abs(got - want) <= tol), "container and pointwise results differ", case, got.tolist(), want.tolist())


SCALARS = {"float": float, "float64": np.float64, "text": repr}


@CHECK.gen("scalars", st.tuples(cheap_orders(50, DEFAULT_LIMIT, 2), st.sampled_from(METHODS), radius(), angle(), st.sampled_from(["float", "float64", "int", "text"]),
                                st.booleans()), quick=700)
def scalars(case):
    (m, n), method, r, th, kind, exact = case; zp = ZernPol(m=m, n=n)
    exact = exact and n <= EXACT_LIMIT.get(method, -1)
    note(kind)
    if kind == "int":  # whole numbers given as int
        r = round(r); th = int(th)
        v = call(zp, method, r, th, exact)
    else:
        v = call(zp, method, SCALARS[kind](r), SCALARS[kind](th), exact)
    require(is_scalar(v), "scalar input does not give a scalar", case, type(v))
    r = float(r); th = float(th)
    want = {"polynomial_value": lambda: float(o.Z(m, n, r, th)), "radial": lambda: o.R(m, n, r), "radial_dr": lambda: o.dR(m, n, r),
            "triangular": lambda: float(o.T(m, th)), "triangular_dtheta": lambda: float(o.dT(m, th))}[method]()
    require(abs(float(v) - want) <= float(tolerance(zp, method, m, n, r, th)), "value for a scalar", case, float(v), want)


@CHECK.gen("integer_arrays", st.tuples(cheap_orders(50, DEFAULT_LIMIT, 2), st.sampled_from(METHODS), st.lists(st.tuples(st.integers(0, 1), st.integers(0, 6)), min_size=1, max_size=6),
                                       st.sampled_from(["list", "int64", "int32", "uint8", "int8", "uint64", "tuple"]), st.booleans()), quick=400, nontrivial=lambda c: len(c[2]) > 1)
def integers(case):
    (m, n), method, pts, kind, exact = case; zp = ZernPol(m=m, n=n)
    exact = exact and n <= EXACT_LIMIT.get(method, -1)
    r = [p[0] for p in pts]; th = [p[1] for p in pts]
    make = {"list": list, "tuple": tuple}.get(kind, lambda v: np.array(v, dtype=kind))
    got = call(zp, method, make(r), make(th), exact)
    require(isinstance(got, np.ndarray) and got.shape == (len(pts),), "shape of the result", case, np.shape(got))
    want = np.array([call(zp, method, float(a), float(b), exact) for a, b in pts])
    require(np.all(np.abs(got - want) <= tolerance(zp, method, m, n, np.array(r, float), np.array(th, float))), "integer array and pointwise results differ", case, got.tolist(), want.tolist())


@CHECK.gen("scalar_with_array", st.tuples(cheap_orders(46, DEFAULT_LIMIT, 2), st.lists(radius(), min_size=1, max_size=8), st.lists(angle(), min_size=1, max_size=8),
                                          st.booleans(), st.booleans(), st.booleans()), quick=500, nontrivial=lambda c: len(c[1]) > 1)
def mixed(case):
    (m, n), rs, ths, r_scalar, as_list, exact = case; zp = ZernPol(m=m, n=n); exact = exact and n <= 40
    if r_scalar:
        r, th = rs[0], (ths if as_list else np.array(ths)); want = np.array([zp.polynomial_value(r, x, use_exact_eq=exact) for x in ths])
    else:
        r, th = (rs if as_list else np.array(rs)), ths[0]; want = np.array([zp.polynomial_value(x, th, use_exact_eq=exact) for x in rs])
    got = zp.polynomial_value(r, th, use_exact_eq=exact)
    require(np.shape(got) == want.shape, "shape of the result", case, np.shape(got))
    require(np.all(np.abs(got - want) <= 2 * o.tol_Z(m, n, r, th)), "scalar with array and pointwise results differ", case, got, want)


EVERY_R = [0.0, 0.03, 0.3, 0.55, 0.8, 0.97, 1.0, 0.55]
EVERY_TH = [0.0, 5.9, 0.4, 1.6, 3.2, 4.1, 6.25, 1.6]


@CHECK.enum("every_polynomial", lambda tier: [[m, n] for n in range(55) for m in range(-n, n + 1, 2) if n <= DEFAULT_LIMIT or n - abs(m) <= 6], nontrivial=lambda c: c[1] > 0)
def every(case):
    """Each method of each polynomial on arrays and lists, the same arrays are used again and again."""
    m, n = case; zp = ZernPol(m=m, n=n); r0 = np.array(EVERY_R); t0 = np.array(EVERY_TH); r, th = r0.copy(), t0.copy()
    r2, t2 = np.asfortranarray(r0.reshape(2, 4)), np.asfortranarray(t0.reshape(2, 4))
    for method in METHODS:
        for exact in ((False, True) if n <= EXACT_LIMIT.get(method, -1) else (False,)):
            first = call(zp, method, r, th, exact)
            require(np.array_equal(r, r0) and np.array_equal(th, t0), "the input array is modified", case, method, exact)
            matrix = call(zp, method, r2, t2, exact); as_list = call(zp, method, EVERY_R, EVERY_TH, exact)
            require(np.array_equal(r2.ravel(), r0) and np.array_equal(t2.ravel(), t0), "the input matrix is modified", case, method, exact)
            require(first.shape == (8,) and matrix.shape == (2, 4) and np.shape(as_list) == (8,), "shape of the result", case, method, exact)
            single = np.array([call(zp, method, a, b, exact) for a, b in zip(EVERY_R, EVERY_TH)])
            tol = tolerance(zp, method, m, n, r0, t0)
            for got in (first, matrix.ravel(), as_list):
                require(np.all(np.abs(got - single) <= tol), "array and pointwise results differ", case, method, exact, got.tolist(), single.tolist())
            kept = first.copy(); call(zp, method, r[::-1].copy(), th[::-1].copy(), exact); matrix[:] = 7.0
            require(np.array_equal(first, kept), "an earlier result is changed by a later call", case, method, exact)
            require(np.array_equal(call(zp, method, r, th, exact), kept), "the second call gives another result", case, method, exact)
            require(np.all(np.abs(call(zp, method, r2, t2, exact).ravel() - kept) <= tol), "overwriting an earlier result changes a later one", case, method, exact)
    require(EVERY_R == r0.tolist() and EVERY_TH == t0.tolist(), "the input list is modified", case)


@CHECK.gen("long_arrays", st.tuples(cheap_orders(46, DEFAULT_LIMIT, 2), st.sampled_from(METHODS), long_size(200000), st.integers(0, 10 ** 6), st.sampled_from(["1D", "2D", "column"]), st.booleans(), st.sampled_from([0, 0, 3, 30, 700])), quick=60,
           batch=100, max_shrink=40)
def long_arrays(case):
    """Arrays of sizes used in practice; chosen elements are compared with single values."""
    (m, n), method, size, seed, shape, exact, different = case; zp = ZernPol(m=m, n=n); rng = np.random.default_rng(seed)
    exact = exact and method in EXACT_LIMIT and n <= EXACT_LIMIT[method]
    r, th = rng.random(size), rng.random(size) * 6.28; note(f"10^{len(str(size)) - 1} elements")
    if different:  # as in images and meshes, the same coordinates occur many times
        r, th = r[rng.integers(0, min(size, different), size)], th[rng.integers(0, min(size, different), size)]; note("repeated coordinates")
        if seed % 2:
            r.sort()
    r[rng.integers(0, size, 3)] = [0.0, 1.0, 0.5]
    if shape == "2D":
        rows = max(1, int(size ** 0.5)); size = rows * (size // rows); r, th = r[:size].reshape(rows, -1), th[:size].reshape(rows, -1)
    elif shape == "column":
        r, th = r.reshape(-1, 1), th.reshape(-1, 1)
    before = r.copy(), th.copy(); got = call(zp, method, r, th, exact)
    require(isinstance(got, np.ndarray) and got.shape == r.shape, "shape of the result", case, np.shape(got), r.shape)
    require(np.array_equal(r, before[0]) and np.array_equal(th, before[1]), "inputs are modified", case)
    places = np.unique(np.concatenate([rng.integers(0, size, 12), [0, size - 1, size // 2], np.array([2 ** k + d for k in range(6, 18) for d in (-1, 0)] + [1000, 10000, 50000])]))
    places = places[places < size]; flat_r, flat_t, flat = r.ravel(), th.ravel(), got.ravel()
    one = np.array([call(zp, method, float(flat_r[i]), float(flat_t[i]), exact) for i in places])
    tol = tolerance(zp, method, m, n, flat_r[places], flat_t[places])
    require(np.all(np.abs(flat[places] - one) <= tol), "element of a long array", case, places[np.abs(flat[places] - one) > tol].tolist()[:5])
    require(np.all(np.isfinite(flat)), "elements which aren't numbers", case)
