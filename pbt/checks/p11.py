import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, isolated, note, require
from ..gens import radius

CHECK = Check("P11", "generated sequences of evaluations (values, radial parts and derivatives, both equations, scalar and array radii, new and reused objects, all "
              "radial orders up to 44, orders and neighbouring orders repeated), each sequence in a fresh process; non-trivial: at least 3 evaluations of at "
              "least 2 different polynomials", ["the process is a copy of one that has only imported the package"])
METHODS = ["radial", "radial_dr", "polynomial_value", "radial eq", "radial_dr eq", "polynomial_value eq"]
ALL_METHODS = METHODS + ["triangular", "triangular_dtheta"]


def near(base):
    """Orders around the base, so that recursions meet shared intermediate polynomials."""
    m, n = base
    return st.tuples(st.integers(-2, 2), st.integers(-3, 3)).map(lambda d: fix(m + d[0], n + d[1]))


def fix(m, n):
    n = min(max(n, 0), 44); m = max(-n, min(n, m))
    return [m, n] if (n - m) % 2 == 0 else [m - 1 if m > -n else m + 1, n]


def any_orders():
    return st.integers(0, 44).flatmap(lambda n: st.integers(0, n).map(lambda k: [2 * k - n, n]))


def history():
    step = lambda orders: st.tuples(orders, st.sampled_from(ALL_METHODS), radius(), st.booleans(), st.booleans())
    return st.one_of(st.lists(step(any_orders()), min_size=1, max_size=12),
                     any_orders().flatmap(lambda b: st.lists(step(st.one_of(near(b), st.just(b))), min_size=2, max_size=14)))


def decide(steps):
    objects = {}
    for k, ((m, n), method, r, as_array, reuse) in enumerate(steps):
        if not (reuse and (m, n) in objects):
            objects[(m, n)] = ZernPol(m=m, n=n)
        zp = objects[(m, n)]; name, _, eq = method.partition(" ")
        eq = bool(eq) and n <= (38 if name == "radial_dr" else 40)
        rr = np.array([r, 0.0, 0.31, 0.87, 1.0]) if as_array else r
        note(method)
        if name == "radial":
            got, want, tol = zp.radial(rr, use_exact_eq=eq), o.R_array(m, n, rr), o.tol_R(m, n, rr)
        elif name == "radial_dr":
            got, want, tol = zp.radial_dr(rr, use_exact_eq=eq), o.dR_array(m, n, rr), o.tol_dR(m, n, rr)
        elif name == "triangular":
            got, want, tol = zp.triangular(rr * 6.0), o.T(m, rr * 6.0), o.tol_T(m, rr * 6.0)
        elif name == "triangular_dtheta":
            got, want, tol = zp.triangular_dtheta(rr * 6.0), o.dT(m, rr * 6.0), (1 + abs(m)) * o.tol_T(m, rr * 6.0)
        else:
            th = rr * 6 if as_array else r
            got, want, tol = zp.polynomial_value(rr, th, use_exact_eq=eq), o.Z(m, n, rr, th), o.tol_Z(m, n, rr, th)
        require(np.shape(got) == np.shape(want), "shape", k, np.shape(got))
        require(np.all(np.abs(got - want) <= tol), f"wrong result of step {k}", steps[k], np.asarray(got).tolist(), np.asarray(want).tolist())
        if isinstance(got, np.ndarray) and got.flags.writeable:
            got *= -3.0; got += 0.5  # what the caller does with a result has no influence on later ones


def rich(case):
    return len(case) >= 3 and len({tuple(s[0]) for s in case}) >= 2


@CHECK.gen("sequences", history(), quick=600, nontrivial=rich, max_shrink=60)
def sequences(case):
    isolated(lambda: decide(case), 60)


def up_or_down(tier):
    for method in METHODS:
        for start in ((0, 14), (14, 28), (28, 42), (36, 44)):
            for direction in (1, -1):
                yield {"method": method, "orders": list(start), "direction": direction}


@CHECK.enum("all_orders_upwards_and_downwards", up_or_down)
def up_down(case):
    (a, b), d = case["orders"], case["direction"]
    steps = [[[m, n], case["method"], 0.83, False, False] for n in range(a, b + 1) for m in range(-n, n + 1, 2)][::d]
    isolated(lambda: decide(steps), 120)


@CHECK.enum("results_overwritten_by_the_caller", lambda tier: [[m, n] for n in range(45) for m in range(-n, n + 1, 2)], nontrivial=lambda c: True)
def overwritten(case):
    """Every method twice with an array of the same shape, the first result is overwritten before the second call."""
    steps = [[case, method, r, True, reuse] for method in ALL_METHODS for r, reuse in ((0.45, True), (0.62, True), (0.62, False))]
    decide(steps)


@CHECK.gen("objects_are_interchangeable", st.tuples(any_orders(), st.lists(radius(), min_size=1, max_size=5), st.sampled_from(METHODS), st.permutations(["orders", "osa", "noll", "fringe"])),
           quick=150)
def interchangeable(case):
    (m, n), rs, method, ways = case
    osa, noll, fringe = (t[(m, n)] for t in o.index_tables())
    make = {"orders": {"m": m, "n": n}, "osa": {"osa": osa}, "noll": {"noll": noll}, "fringe": {"fringe": fringe}}
    isolated(lambda: [decide_object(ZernPol(**make[w]), m, n, np.array(rs), method) for w in ways], 60)


def decide_object(zp, m, n, r, method):
    name, _, eq = method.partition(" "); eq = bool(eq) and n <= (38 if name == "radial_dr" else 40)
    if name == "radial_dr":
        ok = np.abs(zp.radial_dr(r, use_exact_eq=eq) - o.dR_array(m, n, r)) <= o.tol_dR(m, n, r)
    elif name == "radial":
        ok = np.abs(zp.radial(r, use_exact_eq=eq) - o.R_array(m, n, r)) <= o.tol_R(m, n, r)
    else:
        ok = np.abs(zp.polynomial_value(r, 1.5, use_exact_eq=eq) - o.Z(m, n, r, 1.5)) <= o.tol_Z(m, n, r, 1.5)
    require(np.all(ok), "wrong result of an object", (m, n), method, r.tolist())


@CHECK.gen("long_histories", st.tuples(st.integers(0, 10 ** 6), st.sampled_from([60, 150, 300]), st.sampled_from([1, 2, 10, 500]), st.sampled_from(ALL_METHODS + ["mixed"]),
                                 st.sampled_from([7, 7, 100, 1500, 20000])), quick=28, batch=40, max_shrink=20)
def long_histories(case):
    """Many different polynomials and returns to earlier ones; in blocks the same arrays are refilled by the caller."""
    seed, number, different, method, length = case; number = number if length < 1000 else number // (6 if length < 10000 else 15); rng = np.random.default_rng(seed); every = [(m, n) for n in range(36) for m in range(-n, n + 1, 2)]
    known = [every[k] for k in rng.permutation(len(every))[:different]]; note(method)

    def run():
        r = np.zeros(length); th = np.zeros(length); objects = {}; some = np.unique(np.linspace(0, length - 1, 7).astype(int))
        for k in range(number):
            m, n = known[int(rng.integers(len(known)))]; name, _, eq = (ALL_METHODS[int(rng.integers(len(ALL_METHODS)))] if method == "mixed" else method).partition(" ")
            if k and rng.random() < 0.3:  # the same values in other places: also sums, extrema and ends agree
                inner = rng.permutation(length - 2) + 1; r[1:-1] = r[inner]; th[1:-1] = th[inner]
            else:
                r[:] = rng.random(length); th[:] = 6.2 * rng.random(length); r[0] = 0.25; r[-1] = 0.75; th[0] = 0.5; th[-1] = 6.0  # the same buffer, the same ends
            if rng.random() < 0.3:
                r = r[::-1].copy() if rng.random() < 0.3 else r
            zp = objects.setdefault((m, n), ZernPol(m=m, n=n)) if rng.random() < 0.7 else ZernPol(m=m, n=n); eq = bool(eq)
            if name == "radial":
                got, want, tol = zp.radial(r, use_exact_eq=eq), o.R_array(m, n, r[some]), o.tol_R(m, n, r[some])
            elif name == "radial_dr":
                got, want, tol = zp.radial_dr(r, use_exact_eq=eq), o.dR_array(m, n, r[some]), o.tol_dR(m, n, r[some])
            elif name == "triangular":
                got, want, tol = zp.triangular(th), o.T(m, th[some]), o.tol_T(m, th[some])
            elif name == "triangular_dtheta":
                got, want, tol = zp.triangular_dtheta(th), o.dT(m, th[some]), (1 + abs(m)) * o.tol_T(m, th[some])
            else:
                got, want, tol = zp.polynomial_value(r, th, use_exact_eq=eq), o.Z(m, n, r[some], th[some]), o.tol_Z(m, n, r[some], th[some])
            require(np.shape(got) == (length,), "shape", k, np.shape(got)); got = got[some]
            require(np.all(np.abs(got - want) <= tol), f"wrong result of step {k}", [m, n], name, np.asarray(got).tolist(), np.asarray(want).tolist())
    isolated(run, 120)
