import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, note, require
from ..gens import angle, coefficient, long_size, radius

CHECK = Check("P12", "generated lists of coefficients and polynomials (lengths 1 to 40, zeros and repeated polynomials in any position), scalar, list and array "
              "coordinates; non-trivial: at least 2 terms, at least 2 of them with a coefficient other than 0", scale=2)


def some_orders(top=20):
    return st.integers(0, top).flatmap(lambda n: st.integers(0, n).map(lambda k: [2 * k - n, n]))


def terms(max_size=40):
    term = st.tuples(some_orders(), coefficient())
    few = st.lists(st.tuples(st.sampled_from([[0, 0], [0, 2], [-1, 3], [13, 13]]), coefficient()), min_size=2, max_size=8)  # the same ones repeatedly
    return st.one_of(few, st.lists(term, min_size=1, max_size=6), st.lists(term, min_size=1, max_size=max_size),
                     st.lists(st.tuples(some_orders(), st.sampled_from([0.0, -0.0, 0.0, 1.5, -2.0])), min_size=1, max_size=10))


def expected(ts, r, th):
    want = np.zeros(np.broadcast_shapes(np.shape(r), np.shape(th))); tol = np.full(want.shape, 1e-12)
    for (m, n), c in ts:
        want = want + c * o.Z(m, n, r, th); tol = tol + abs(c) * o.tol_Z(m, n, r, th)
    return want, tol


SEQ = {"list": list, "tuple": tuple, "array": np.array}


@CHECK.gen("sum_at_points", st.tuples(terms(), st.lists(st.tuples(radius(), angle()), min_size=1, max_size=8), st.sampled_from(["scalar", "list", "array", "matrix", "r scalar", "theta scalar"]),
                                      st.sampled_from(sorted(SEQ)), st.sampled_from(["list", "tuple"]), st.booleans()), quick=1000,
           nontrivial=lambda c: sum(1 for t in c[0] if t[1] != 0) > 1)
def points(case):
    ts, pts, kind, cs_kind, ps_kind, same = case
    r = np.array([p[0] for p in pts]); th = np.array([p[1] for p in pts]); note(kind)
    if kind == "scalar":
        rr, tt = float(r[0]), float(th[0])
    elif kind == "list":
        rr, tt = r.tolist(), th.tolist()
    elif kind == "matrix":
        rr, tt = np.concatenate([r, r]).reshape(2, -1), np.concatenate([th, th]).reshape(2, -1)
    elif kind == "r scalar":
        rr, tt = float(r[0]), th
    elif kind == "theta scalar":
        rr, tt = r, float(th[0])
    else:
        rr, tt = r, th
    cs = SEQ[cs_kind]([t[1] for t in ts]); shared = {}
    # equal polynomials are represented either by different objects or by the same one
    ps = SEQ[ps_kind]([(shared.setdefault((m, n), ZernPol(m=m, n=n)) if same else ZernPol(m=m, n=n)) for (m, n), _ in ts])
    saved = [np.array(cs), np.array(rr), np.array(tt)]
    got = ZernPol.sum_zernikes(cs, ps, rr, tt)
    want, tol = expected(ts, np.asarray(rr), np.asarray(tt))
    require(np.shape(got) == want.shape, "shape of the sum", case, np.shape(got), want.shape)
    require(np.all(np.abs(got - want) <= tol), "sum differs from the linear combination", case, np.asarray(got).tolist(), want.tolist())
    for before, after in zip(saved, (cs, rr, tt)):
        require(np.array_equal(before, np.array(after)), "an input is modified", case)
    require([p.get_mn_orders() for p in ps] == [(t[0][0], t[0][1]) for t in ts], "polynomials are modified", case)


@CHECK.gen("linearity_and_order_of_terms", st.tuples(st.lists(st.tuples(some_orders(), coefficient(), coefficient()), min_size=1, max_size=8), radius(), angle(), coefficient(), coefficient(),
                                                     st.randoms(use_true_random=False).map(lambda r: r.random())), quick=300, nontrivial=lambda c: len(c[0]) > 1)
def linear(case):
    ts, r, th, a, b, mix = case
    pols = [ZernPol(m=m, n=n) for (m, n), _, _ in ts]; x = [t[1] for t in ts]; y = [t[2] for t in ts]
    s = lambda cs: ZernPol.sum_zernikes(cs, pols, r, th)
    _, tol = expected([(t[0], 2 * (abs(a) * abs(t[1]) + abs(b) * abs(t[2]))) for t in ts], r, th)
    require(abs(s([a * u + b * v for u, v in zip(x, y)]) - (a * s(x) + b * s(y))) <= 2 * tol, "not linear in the coefficients", case)
    order = sorted(range(len(ts)), key=lambda k: (k * 0.6180339887 + mix) % 1)
    shuffled = ZernPol.sum_zernikes([x[k] for k in order], [pols[k] for k in order], r, th)
    require(abs(shuffled - s(x)) <= 2 * expected([(t[0], abs(t[1])) for t in ts], r, th)[1], "the order of terms matters", case)


WRONG = st.sampled_from(["1", None, 1, 2.5, [0, 2], {"m": 0}, "ZernPol"])


@CHECK.gen("refused", st.tuples(st.lists(coefficient(), max_size=5), st.lists(some_orders(), max_size=5), st.integers(0, 4), WRONG, st.booleans(), st.booleans(),
                                st.sampled_from(["scalar", "array", "surface"])), quick=600)
def refused(case):
    cs, orders, where, wrong, replace, as_array, kind = case
    pols = [ZernPol(m=m, n=n) for m, n in orders]
    if replace and pols:
        pols[where % len(pols)] = wrong
        # the check is required for the terms that are summed
        cs = [(c if abs(c) > 0 else 1.0) for c in (cs + [1.0] * len(pols))[:len(pols)]]
        reason = "list member is not a polynomial"
    elif len(cs) != len(pols):
        reason = "unequal numbers"
    elif not cs:
        reason = "empty lists"
    else:
        cs = cs + [1.0]; reason = "unequal numbers"
    note(reason)
    r, th = (np.array([0.1, 0.5]), np.array([0.2, 1.0])) if kind != "scalar" else (0.4, 2.0)
    try:
        v = ZernPol.sum_zernikes(np.array(cs) if as_array else cs, pols, r, th, get_surface=kind == "surface")
    except ValueError:
        return
    require(False, f"{reason}: no ValueError", case, repr(v)[:200])


@CHECK.gen("long_arrays_many_terms", st.tuples(st.one_of(st.tuples(st.integers(1, 4), long_size(100000)), st.tuples(st.integers(20, 200), st.integers(1, 30))), st.integers(0, 10 ** 6), st.booleans()),
           quick=50, batch=100, max_shrink=40)
def long_arrays(case):
    """Long arrays of points or many terms, chosen points are compared with the linear combination."""
    (count, size), seed, square = case; rng = np.random.default_rng(seed); note("many terms" if count > 4 else f"10^{len(str(size)) - 1} points")
    ns = rng.integers(0, 17, count); ts = [((int(2 * rng.integers(0, n + 1) - n), int(n)), float(rng.normal())) for n in ns]
    side = max(1, int(size ** 0.5)); size = side * side if square else size
    r, th = rng.random(size), rng.random(size) * 6.28
    if square:
        r, th = r.reshape(side, side), th.reshape(side, side)
    got = ZernPol.sum_zernikes([c for _, c in ts], [ZernPol(m=m, n=n) for (m, n), _ in ts], r, th)
    require(np.shape(got) == r.shape, "shape of the sum", case, np.shape(got))
    places = np.unique(np.concatenate([rng.integers(0, size, 12), [0, size - 1], [p for p in (127, 128, 255, 256, 1023, 1024, 4095, 4096, 65535, 65536) if p < size]]).astype(int))
    want, tol = expected(ts, r.ravel()[places], th.ravel()[places])
    require(np.all(np.abs(got.ravel()[places] - want) <= tol), "sum differs from the linear combination", case, got.ravel()[places].tolist()[:3], want.tolist()[:3])
    require(np.all(np.isfinite(got)), "elements which aren't numbers", case)
