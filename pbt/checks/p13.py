import math
import warnings

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, Discard, note, require
from ..gens import angle, coefficient, radius
from .p12 import some_orders

CHECK = Check("P13", "generated sums (1 to 8 terms) on generated vectors of radii and angles (lengths 1 to 40, unsorted and repeated values allowed, also equal "
              "lengths, 1 and contiguous or strided memory) and generated steps; non-trivial: both vectors have at least 2 elements and differ in length or "
              "the surface is not symmetric", scale=2)


def vec(el, top):
    return st.one_of(st.lists(el, min_size=1, max_size=top), st.lists(el, min_size=1, max_size=4))


TERMS = st.lists(st.tuples(some_orders(14), coefficient()), min_size=1, max_size=8)


def expected(ts, r, th):
    want = np.zeros((r.size, th.size)); tol = np.full(want.shape, 1e-12)
    for (m, n), c in ts:
        rad = o.R_array(m, n, r); want += c * o.norm(m, n) * rad[:, None] * o.T(m, th)[None, :]
        tol += abs(c) * o.norm(m, n) * (o.tol_R(m, n, r)[:, None] + 1.1 * o.tol_T(m, th)[None, :]) + 1e-13 * abs(c)
    return want, tol


@CHECK.gen("surface_for_vectors", st.tuples(TERMS, vec(radius(), 40), vec(angle(), 40), st.sampled_from(["free", "equal", "one radius", "one angle"]), st.booleans()), quick=1000,
           nontrivial=lambda c: len(c[1]) > 1 and len(c[2]) > 1)
def surface(case):
    ts, rs, ths, relation, strided = case
    if relation == "equal":
        k = min(len(rs), len(ths)); rs, ths = rs[:k], ths[:k]
    elif relation == "one radius":
        rs = rs[:1]
    elif relation == "one angle":
        ths = ths[:1]
    r, th = np.array(rs), np.array(ths)
    if strided:
        r = np.repeat(r, 2)[::2]; th = np.repeat(th, 3)[::3]
    note("radii < angles" if r.size < th.size else ("radii > angles" if r.size > th.size else "equal lengths"))
    pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]
    r0, th0 = r.copy(), th.copy()
    got = ZernPol.sum_zernikes([c for _, c in ts], pols, r, th, get_surface=True)
    require(isinstance(got, np.ndarray) and got.shape == (r.size, th.size), "shape of the surface", case, np.shape(got))
    require(np.array_equal(r, r0) and np.array_equal(th, th0), "vectors are modified", case)
    want, tol = expected(ts, r, th)
    if not np.all(np.abs(got - want) <= tol):
        i, j = np.unravel_index(int(np.argmax(np.abs(got - want) - tol)), got.shape)
        require(False, "surface element", case, [int(i), int(j)], float(got[i, j]), float(want[i, j]))


steps = st.tuples(st.one_of(st.floats(0.02, 0.5), st.integers(2, 50).map(lambda k: 1 / k), st.sampled_from([0.01, 0.5, 0.3])),
                  st.one_of(st.floats(0.05, math.pi), st.integers(2, 90).map(lambda k: 2 * math.pi / k), st.sampled_from([math.pi, round(math.pi / 180, 7), 1.0])))


@CHECK.gen("generated_surfaces", st.tuples(TERMS, steps, st.booleans(), st.integers(-1, 60)), quick=250, nontrivial=lambda c: len(c[0]) > 1)
def generated(case):
    ts, (dr, dth), equal, points = case
    pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]; cs = [c for _, c in ts]
    if equal:
        s = ZernPol.gen_zernikes_surface(cs, pols, equal_n_coordinates=True, n_points=points); v = ZernPol.gen_equal_polar_mesh(points)
    else:
        s = ZernPol.gen_zernikes_surface(cs, pols, r_step=dr, theta_rad_step=dth); v = ZernPol.gen_polar_coordinates(dr, dth)
    require(np.array_equal(s.R, v.R) and np.array_equal(s.Theta, v.Theta), "coordinates differ from those of the generator", case)
    require(s.ZernSurf.shape == (s.R.size, s.Theta.size), "shape of the surface", case, s.ZernSurf.shape)
    want, tol = expected(ts, np.minimum(s.R, 1.0), s.Theta)
    require(np.all(np.abs(s.ZernSurf - want) <= tol), "generated surface", case)
    require(tuple(s)[0] is s.ZernSurf and len(s) == 3, "fields of the surface", case)


@CHECK.gen("rows_are_sums_at_one_radius", st.tuples(TERMS, vec(radius(), 12), vec(angle(), 12)), quick=200, nontrivial=lambda c: len(c[1]) > 1 and len(c[2]) > 1)
def rows(case):
    ts, rs, ths = case; r, th = np.array(rs), np.array(ths)
    pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]; cs = [c for _, c in ts]
    got = ZernPol.sum_zernikes(cs, pols, r, th, get_surface=True); _, tol = expected(ts, r, th)
    for i, x in enumerate(rs):
        require(np.all(np.abs(got[i] - ZernPol.sum_zernikes(cs, pols, x, th)) <= 2 * tol[i]), "row of the surface", case, i)
    for j, x in enumerate(ths):
        require(np.all(np.abs(got[:, j] - ZernPol.sum_zernikes(cs, pols, r, x)) <= 2 * tol[:, j]), "column of the surface", case, j)


@CHECK.gen("large_meshes", st.tuples(st.lists(st.tuples(some_orders(14), coefficient()), min_size=1, max_size=3), st.one_of(st.integers(41, 700), st.integers(701, 2600)), st.one_of(st.integers(41, 900), st.integers(901, 2600)), st.booleans(), st.integers(0, 10 ** 6)), quick=30,
           batch=60, max_shrink=40, nontrivial=lambda c: True)
def large(case):
    ts, nr, nt, equal, seed = case; rng = np.random.default_rng(seed); nt = nr if equal else nt
    if nr * nt > 10 ** 6:
        nr, nt = (nr, 41 + nt % 200) if nr > nt else (41 + nr % 200, nt)
    r, th = rng.random(nr), rng.random(nt) * 6.28; note("equal lengths" if nr == nt else "different lengths")
    if seed % 2:
        r.sort(); th.sort()
    got = ZernPol.sum_zernikes([c for _, c in ts], [ZernPol(m=m, n=n) for (m, n), _ in ts], r, th, get_surface=True)
    require(got.shape == (nr, nt), "shape of the surface", case, got.shape)
    i = np.unique(np.concatenate([rng.integers(0, nr, 6), [0, nr - 1]])); j = np.unique(np.concatenate([rng.integers(0, nt, 30), [0, nt - 1], [p for p in (127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048) if p < nt]]).astype(int))
    want, tol = expected(ts, r[i], th[j])
    require(np.all(np.abs(got[np.ix_(i, j)] - want) <= tol), "surface element", case)
    i = np.unique(np.concatenate([rng.integers(0, nr, 30), [p for p in (127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048) if p < nr]]).astype(int)); j = rng.integers(0, nt, 4)
    want, tol = expected(ts, r[i], th[j])
    require(np.all(np.abs(got[np.ix_(i, j)] - want) <= tol), "surface element", case)
    require(np.all(np.isfinite(got)), "elements which aren't numbers", case)


@CHECK.gen("sums_on_a_meshgrid", st.tuples(TERMS, vec(radius(), 25), vec(angle(), 25), st.sampled_from(["arrays", "arrays", "arrays", "lists", "one array"])), quick=150,
           nontrivial=lambda c: len(c[1]) > 1 and len(c[2]) > 1 and c[3] == "arrays")
def meshgrid(case):
    """The second implementation, which check_conformity compares with the documented one."""
    other = getattr(ZernPol, "_sum_zernikes_meshgrid", None)
    if other is None:
        raise Discard
    ts, rs, ths, kind = case; r, th = np.array(rs), np.array(ths); cs = [c for _, c in ts]; pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]; note(kind)
    if kind != "arrays":
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always"); out = other(cs, pols, rs, ths) if kind == "lists" else other(cs, pols, r, ths)
        require(len(got) == 1 and np.ndim(out) == 0 and out == 0.0, "sum for coordinates which aren't arrays", case, len(got), out); return
    r0, th0 = r.copy(), th.copy(); got = other(cs, pols, r, th)
    require(isinstance(got, np.ndarray) and got.shape == (r.size, th.size), "shape of the surface", case, np.shape(got))
    require(np.array_equal(r, r0) and np.array_equal(th, th0), "vectors are modified", case)
    want, tol = expected(ts, r, th); require(np.all(np.abs(got - want) <= tol), "sum on the meshgrid", case, float(np.max(np.abs(got - want))))
    for wrong in ((cs + [1.0], pols), (cs, pols + [3]), (cs[:-1] + [1.0], pols[:-1] + [(1, 1)])):
        try:
            other(wrong[0], wrong[1], r, th)
        except ValueError:
            continue
        require(False, "wrong terms accepted", case, len(wrong[0]), len(wrong[1]))
