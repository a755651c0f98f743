import random

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, generate_random_phases

from .. import oracles as o
from ..core import Check, note, require
from .p16 import check_image, sizes

CHECK = Check("P17", "generated states of the random generator, maximal orders 0 to 9, image sizes 1 to 30 and numbers of digits 1 to 8; non-trivial: both sides above "
              "2 and at least two amplitudes other than 0",
              ["random numbers come from the module random, seeded for every case (replays are exact as long as the code uses it)"], scale=3)
_info = {}


@CHECK.gen("random_image", st.tuples(st.integers(0, 2 ** 32 - 1), st.one_of(st.integers(0, 4), st.integers(0, 9)), sizes(30), st.one_of(st.just(4), st.integers(1, 8))), quick=700,
           nontrivial=lambda c: min(c[2]) > 2 and _info.get("nonzero", 0) > 1)
def random_image(case):
    seed, order, (w, h), digits = case
    random.seed(seed); np.random.seed(seed)
    image, amplitudes, pols = generate_random_phases(max_order=order, img_width=w, img_height=h, round_digits=digits)
    want = o.all_orders(order)
    require(isinstance(pols, tuple) and all(isinstance(p, ZernPol) for p in pols), "polynomials are not a tuple of polynomials", case)
    require([p.get_mn_orders() for p in pols] == want, "returned polynomials", case, [p.get_mn_orders() for p in pols])
    require(isinstance(amplitudes, np.ndarray) and amplitudes.shape == (len(want),), "one amplitude per polynomial", case, np.shape(amplitudes))
    require(np.all(np.abs(amplitudes) <= 1.5), "amplitude out of the range", case, amplitudes.tolist())
    require(np.max(np.abs(amplitudes)) >= 0.08, "all amplitudes are negligible", case, amplitudes.tolist())
    _info["nonzero"] = int(np.count_nonzero(amplitudes)); note(f"{min(_info['nonzero'], 5)} amplitudes" + (" or more" if _info["nonzero"] >= 5 else ""))
    check_image(image, want, amplitudes.tolist(), w, h, case)


@CHECK.gen("many_draws", st.tuples(st.integers(0, 2 ** 32 - 1), st.integers(0, 3), st.integers(1, 6)), quick=1500)
def many_draws(case):
    """Tiny images: the random choice is what is explored."""
    seed, order, digits = case
    random.seed(seed); np.random.seed(seed)
    image, amplitudes, pols = generate_random_phases(max_order=order, img_width=3, img_height=3, round_digits=digits)
    require(np.all(np.abs(amplitudes) <= 1.5) and np.max(np.abs(amplitudes)) >= 0.08, "amplitudes", case, amplitudes.tolist())
    require(len(pols) == len(amplitudes) == len(o.all_orders(order)), "numbers of polynomials and amplitudes", case)
    note("one amplitude" if np.count_nonzero(amplitudes) == 1 else "several amplitudes")
    check_image(image, o.all_orders(order), amplitudes.tolist(), 3, 3, case)


@CHECK.gen("larger_images", st.tuples(st.integers(0, 2 ** 32 - 1), st.integers(0, 5), st.one_of(st.tuples(st.integers(31, 300), st.integers(31, 300)), st.integers(31, 300).map(lambda k: [k, k]))), quick=5,
           batch=20, max_shrink=30)
def larger(case):
    seed, order, (w, h) = case; random.seed(seed); np.random.seed(seed)
    image, amplitudes, pols = generate_random_phases(max_order=order, img_width=w, img_height=h)
    check_image(image, o.all_orders(order), amplitudes.tolist(), w, h, case)


@CHECK.enum("default_size", lambda tier: list(range(3 if tier == "quick" else 20)))
def default_size(seed):
    random.seed(seed); np.random.seed(seed)
    image, amplitudes, pols = generate_random_phases()
    require([p.get_mn_orders() for p in pols] == o.all_orders(4), "default order")
    check_image(image, o.all_orders(4), amplitudes.tolist(), 513, 513, seed)
    require(np.array_equal(np.round(amplitudes, 4), amplitudes), "not rounded to 4 digits", amplitudes.tolist())
