import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, fit_polynomials_vectors

from .. import oracles as o
from ..core import Check, Discard, note, require
from ..gens import coefficient, long_size
from .p16 import low_orders

CHECK = Check("P18", "generated sets of 1 to 8 different polynomials up to order 10, points from a generated seed (random, on rings, on a mesh of up to 280 radii), exact combinations and "
              "combinations with noise or arbitrary phases, digits 0 to 12; sets of points for which the values of polynomials are nearly dependent "
              "(condition number above 1e5) are discarded; non-trivial: at least 2 polynomials and an amplitude other than 0", scale=4)
POLS = st.lists(st.one_of(low_orders(5), low_orders(10)), min_size=1, max_size=8, unique_by=tuple)


def setup(orders, seed, layout, extra):
    """Radii and angles (vectors as given to the fit) and those of every phase."""
    rng = np.random.default_rng(seed); k = len(orders) + extra
    if layout in ("mesh", "large mesh", "square mesh"):
        nr = 40 + 8 * extra if layout == "large mesh" else 3 + extra % 9; nt = 2 * max(abs(m) for m, _ in orders) + 3 + extra // 9
        nr = max(nr, (max(n for _, n in orders) // 2) + 2)
        if layout == "square mesh":
            nr = nt = max(nr, nt)
        elif nr == nt:
            nt += 1
        r = np.sort(rng.random(nr)); r[-1] = 1.0; t = np.arange(nt) * (2 * np.pi / nt)
        return r, t, np.repeat(r, nt), np.tile(t, nr)
    if layout == "rings":
        r = rng.choice([0.0, 0.3, 0.55, 0.7, 0.9, 1.0], 3 * k + 12); t = rng.random(3 * k + 12) * 2 * np.pi
    else:
        r = np.sqrt(rng.random(2 * k + 4)); t = rng.random(2 * k + 4) * 2 * np.pi
    return r, t, r, t


def matrix(orders, r, t):
    return np.array([o.Zfast(m, n, r, t) for m, n in orders]).T


def condition(a):
    s = np.linalg.svd(a, compute_uv=False)
    return s[0] / s[-1] if s[-1] > 0 else np.inf, s[-1]


LAYOUT = st.sampled_from(["free", "free", "mesh", "mesh", "rings", "rings", "large mesh", "square mesh"]); SEED = st.integers(0, 2 ** 32 - 1); EXTRA = st.integers(0, 30)
DIGITS = st.one_of(st.just(4), st.integers(0, 12))


def fit(orders, phases, r, t, digits, kind=tuple):
    pols = kind([ZernPol(m=m, n=n) for m, n in orders]); before = [phases.copy(), r.copy(), t.copy()]
    got = fit_polynomials_vectors(pols, phases, r, t, round_digits=digits)
    for a, b in zip(before, (phases, r, t)):
        require(np.array_equal(a, b), "an input vector is modified")
    require(isinstance(got, np.ndarray) and got.shape == (len(orders),), "one amplitude per polynomial", np.shape(got))
    require(np.array_equal(np.round(got, digits), got), "not rounded to the requested digits", digits, got.tolist())
    return got


def domain(a):
    cond, smallest = condition(a)
    if a.shape[0] < a.shape[1] or cond > 1e5:
        raise Discard()
    return cond, smallest


@CHECK.gen("recovers_amplitudes", st.tuples(POLS, SEED, LAYOUT, EXTRA, st.lists(coefficient(3.0), min_size=8, max_size=8), DIGITS, st.sampled_from(["tuple", "list"])), quick=500,
           nontrivial=lambda c: len(c[0]) > 1 and any(c[4][:len(c[0])]))
def recovers(case):
    orders, seed, layout, extra, cs, digits, kind = case; cs = np.array(cs[:len(orders)])
    r, t, rr, tt = setup(orders, seed, layout, extra); a = matrix(orders, rr, tt); cond, _ = domain(a)
    note(layout)
    got = fit(orders, a @ cs, r, t, digits, tuple if kind == "tuple" else list)
    tol = 0.5 * 10.0 ** -digits + 1e-12 * cond * (1 + np.max(np.abs(cs)))
    require(np.all(np.abs(got - cs) <= tol), "amplitudes are not recovered", case, got.tolist(), cs.tolist())


@CHECK.gen("least_squares", st.tuples(POLS, SEED, LAYOUT, EXTRA, DIGITS, st.sampled_from(["noise", "arbitrary", "spike", "integers"])), quick=400, nontrivial=lambda c: len(c[0]) > 1)
def least_squares(case):
    orders, seed, layout, extra, digits, what = case
    r, t, rr, tt = setup(orders, seed, layout, extra); a = matrix(orders, rr, tt); cond, smallest = domain(a)
    rng = np.random.default_rng(seed + 1); note(what)
    y = {"noise": lambda: a @ rng.uniform(-2, 2, len(orders)) + rng.normal(0, 0.1, len(rr)), "arbitrary": lambda: rng.normal(0, 1, len(rr)),
         "spike": lambda: np.eye(1, len(rr), int(rng.integers(len(rr))))[0], "integers": lambda: rng.integers(-5, 6, len(rr))}[what]()
    got = fit(orders, y, r, t, digits)
    q, u = np.linalg.qr(a); want = np.linalg.solve(u, q.T @ y.astype(float))
    tol = 0.5 * 10.0 ** -digits + 1e-12 * cond ** 2 * (1 + np.max(np.abs(y))) / min(1.0, smallest)
    require(np.all(np.abs(got - want) <= tol), "not the least-squares solution", case, got.tolist(), want.tolist())


@CHECK.gen("order_of_polynomials", st.tuples(POLS, SEED, LAYOUT, EXTRA, SEED), quick=150, nontrivial=lambda c: len(c[0]) > 1)
def permuted(case):
    orders, seed, layout, extra, seed2 = case
    r, t, rr, tt = setup(orders, seed, layout, extra); a = matrix(orders, rr, tt); cond, smallest = domain(a)
    rng = np.random.default_rng(seed2); y = rng.normal(0, 1, len(rr)); p = rng.permutation(len(orders))
    one = fit(orders, y, r, t, 10); two = fit([orders[k] for k in p], y, r, t, 10)
    require(np.all(np.abs(one[p] - two) <= 2e-10 + 1e-12 * cond ** 2 / min(1.0, smallest) * 10), "amplitudes are not in the order of polynomials", case, one.tolist(), two.tolist())


@CHECK.gen("refused", st.tuples(POLS, st.integers(0, 7), st.integers(0, 7), st.sampled_from(["repeated", "empty", "phases 2D", "radii 2D", "angles 2D", "phases column", "all 2D", "radii 3D", "phases missing", "phases in excess", "mesh phases in excess", "mesh phases missing"]),
                                st.sampled_from(["tuple", "list"])), quick=300)
def refused(case):
    orders, i, j, what, kind = case; note(what)
    r = np.linspace(0, 1, 24); t = np.linspace(0, 6, 24); y = np.sin(t) * r
    if what == "repeated":
        orders = list(orders); orders.insert(j % (len(orders) + 1), orders[i % len(orders)])
    if what == "empty":
        orders = []
    pols = [ZernPol(m=m, n=n) for m, n in orders]; pols = tuple(pols) if kind == "tuple" else pols
    if what in ("phases 2D", "all 2D"):
        y = y.reshape(4, 6)
    if what in ("radii 2D", "all 2D"):
        r = r.reshape(6, 4)
    if what in ("angles 2D", "all 2D"):
        t = t.reshape(2, 12)
    if what == "phases column":
        y = y.reshape(-1, 1)
    if what == "radii 3D":
        r = r.reshape(2, 3, 4)
    if what == "phases missing":
        y = y[:-1 - j]
    if what == "phases in excess":
        y = np.append(y, y[:j + 1])
    if what.startswith("mesh"):
        t = t[:7]; y = np.ones(24 * 7 + (j + 1) * (1 if what.endswith("excess") else -1))
    error = ValueError if what in ("repeated", "empty") or "phases in" in what or "phases mi" in what else TypeError
    try:
        v = fit_polynomials_vectors(pols, y, r, t)
    except error:
        return
    except Exception as e:
        require(False, f"{what}: {error.__name__} expected", case, repr(e))
    require(False, f"{what}: no {error.__name__}", case, repr(v))


@CHECK.gen("many_points_many_polynomials", st.tuples(st.integers(2, 66), st.integers(0, 10), long_size(30000, 200), SEED, st.booleans()), quick=40, batch=80, max_shrink=40)
def many(case):
    """Sizes of real measurements: up to 66 polynomials and thousands of points; exact combination plus what is orthogonal to it."""
    count, top, size, seed, noisy = case; rng = np.random.default_rng(seed)
    every = [(m, n) for n in range(top + 1) for m in range(-n, n + 1, 2)]; orders = [every[k] for k in rng.permutation(len(every))[:count]]; size = max(size, 8 * len(orders))
    r, t = np.sqrt(rng.random(size)), rng.random(size) * 2 * np.pi; a = matrix(orders, r, t); cond, smallest = domain(a); cs = rng.normal(size=len(orders)); note(f"10^{len(str(size)) - 1} points")
    y = a @ cs
    if noisy:
        q, _ = np.linalg.qr(a); e = rng.normal(size=size); y = y + e - q @ (q.T @ e)
    got = fit(orders, y, r, t, 9)
    require(np.all(np.abs(got - cs) <= 1e-9 + 1e-11 * cond ** 2 * size ** 0.5), "amplitudes are not recovered", case, got.tolist()[:4], cs.tolist()[:4])


@CHECK.gen("large_meshes", st.tuples(POLS, st.integers(12, 300), st.integers(30, 300), SEED, st.booleans()), quick=16, batch=40, max_shrink=40)
def large_meshes(case):
    orders, nr, nt, seed, square = case; nt = nr = max(nr, 30) if square else nr; nt = nt if square else case[2]; rng = np.random.default_rng(seed)
    if nr == nt:
        note("square mesh")
    r = np.sort(rng.random(nr)); t = np.arange(nt) * (2 * np.pi / nt); a = matrix(orders, np.repeat(r, nt), np.tile(t, nr)); cond, _ = domain(a); cs = rng.normal(size=len(orders))
    got = fit(orders, a @ cs, r, t, 9)
    require(np.all(np.abs(got - cs) <= 1e-9 + 1e-11 * cond ** 2 * nr), "amplitudes are not recovered", case, got.tolist(), cs.tolist())
