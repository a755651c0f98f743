import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, generate_phases_image

from .. import oracles as o
from ..core import Check, note, require
from ..gens import coefficient

CHECK = Check("P16", "generated sets of 1 to 8 polynomials up to order 20 with amplitudes and image sizes from 1x1 to 40x40 (odd, even, square or not); non-trivial: "
              "an image with both sides above 2 and an amplitude other than 0 of a polynomial other than Piston", scale=2)


def low_orders(top=10):
    return st.integers(0, top).flatmap(lambda n: st.integers(0, n).map(lambda k: [2 * k - n, n]))


def sizes(top=40):
    side = st.integers(1, top)
    return st.one_of(st.tuples(side, side), side.map(lambda s: [s, s]), st.tuples(side, st.sampled_from([-1, 1])).map(lambda t: [t[0], max(1, t[0] + t[1])]))


TERMS = st.lists(st.tuples(st.one_of(low_orders(6), low_orders(20)), coefficient(2.0)), min_size=1, max_size=8)


def nontrivial(case):
    return min(case[1]) > 2 and any(c != 0 and mn[1] > 0 for mn, c in case[0])


@CHECK.gen("image", st.tuples(TERMS, sizes(), st.sampled_from(["tuple", "list", "array"])), quick=500, nontrivial=nontrivial)
def image(case):
    ts, (w, h), kind = case; note("square" if w == h else "not square"); note("even side" if (w % 2 == 0 or h % 2 == 0) else "odd sides")
    pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]; cs = [c for _, c in ts]
    amplitudes = {"tuple": tuple, "list": list, "array": np.array}[kind](cs)
    got = generate_phases_image(polynomials=tuple(pols), polynomials_amplitudes=amplitudes, img_width=w, img_height=h)
    check_image(got, [t[0] for t in ts], cs, w, h, case)


def check_image(got, orders, cs, w, h, case):
    require(isinstance(got, np.ndarray) and got.shape == (h, w), "shape of the image is not (height, width)", case, np.shape(got))
    want, tol, inside = o.phase_image(orders, cs, w, h)
    require(np.all(got[~inside] == 0.0), "pixels outside of the circle are not 0", case)
    bad = ~(np.abs(got - want) <= tol)
    if np.any(bad):
        i, j = map(int, np.argwhere(bad)[0])
        require(False, "value of a pixel", case, [i, j], float(got[i, j]), float(want[i, j]))


@CHECK.enum("default_size", lambda tier: [[[2, 2], [-1, 3]]])
def default_size(case):
    got = generate_phases_image((ZernPol(m=case[0][0], n=case[0][1]), ZernPol(m=case[1][0], n=case[1][1])), (0.5, -1.0))
    check_image(got, case, [0.5, -1.0], 513, 513, case)


@CHECK.gen("images_add_up", st.tuples(TERMS, sizes(24)), quick=150, nontrivial=lambda c: len(c[0]) > 1 and nontrivial(c))
def add_up(case):
    ts, (w, h) = case
    pols = tuple(ZernPol(m=m, n=n) for (m, n), _ in ts); cs = [c for _, c in ts]
    parts = sum(generate_phases_image((p,), (c,), w, h) for p, c in zip(pols, cs))
    _, tol, _ = o.phase_image([t[0] for t in ts], cs, w, h)
    require(np.all(np.abs(generate_phases_image(pols, tuple(cs), w, h) - parts) <= 2 * tol), "image of a sum is not the sum of images", case)


LARGE = st.one_of(st.tuples(st.integers(41, 640), st.integers(41, 640)), st.integers(41, 640).map(lambda k: [k, k]), st.tuples(st.integers(1, 5), st.integers(100, 2000)), st.tuples(st.integers(100, 2000), st.integers(1, 5)),
                  st.sampled_from([[64, 64], [128, 128], [256, 256], [512, 512], [511, 511], [257, 257], [500, 500], [640, 480], [480, 640], [100, 300], [301, 99]]))


@CHECK.gen("large_images", st.tuples(st.lists(st.tuples(low_orders(8), coefficient(2.0)), min_size=1, max_size=2), LARGE), quick=16, batch=40, max_shrink=30, nontrivial=nontrivial)
def large(case):
    ts, (w, h) = case; note("square" if w == h else "not square")
    got = generate_phases_image(tuple(ZernPol(m=m, n=n) for (m, n), _ in ts), tuple(c for _, c in ts), w, h)
    check_image(got, [t[0] for t in ts], [t[1] for t in ts], w, h, case)


@CHECK.gen("many_polynomials", st.tuples(st.integers(9, 120), st.integers(0, 10 ** 6), sizes(24)), quick=20, batch=50, max_shrink=40)
def many(case):
    count, seed, (w, h) = case; rng = np.random.default_rng(seed)
    orders = [[int(2 * rng.integers(0, n + 1) - n), int(n)] for n in rng.integers(0, 16, count)]; cs = rng.normal(size=count).tolist()
    got = generate_phases_image(tuple(ZernPol(m=m, n=n) for m, n in orders), tuple(cs), w, h)
    check_image(got, orders, cs, w, h, case)
