import math

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, fit_polynomials

from .. import oracles as o
from ..core import Check, Discard, note, require

CHECK = Check("P19", "generated image sizes 3x3 to 31x31, some up to 121x200 (odd, even, square or not), crop radii (limits, decimals, radii passing exactly through pixels), both border modes "
              "and arbitrary pixel values; the region is read from the returned cropped image of an image without zeros and from the fit of a constant; "
              "non-trivial: the region has at least 5 pixels and is not the whole image",
              ["pixels whose relative distance differs from the crop radius by less than 0.0011 are not decided by the first statement (documented tolerance 0.001 "
               "and rounding of distances to 4 digits)"])
PISTON = lambda: (ZernPol(m=0, n=0),)


def side(top=31):
    return st.integers(3, top)


def crop():
    return st.one_of(st.just(1.0), st.sampled_from([0.5, 0.75, 0.98, 0.999, 0.9999, 0.95]), st.floats(0.5, 1.0), st.integers(5000, 10000).map(lambda k: k / 10000))


def region(h, w, crop_radius, strict, seed=0, zeros=False):
    """Selected pixels, the fit and the image."""
    rng = np.random.default_rng(seed); image = rng.uniform(0.5, 2.0, (h, w)) * rng.choice([-1.0, 1.0], (h, w))
    coefficients, cropped = fit_polynomials(image.copy(), PISTON(), crop_radius=crop_radius, strict_circle_border=strict, return_cropped_image=True,
                                            suppress_warnings=True, round_digits=12)
    require(np.shape(cropped) == (h, w), "shape of the cropped image", np.shape(cropped))
    mask = cropped != 0
    require(np.array_equal(cropped[mask], image[mask]), "the cropped image is changed inside of the region", (h, w, crop_radius, strict))
    return mask, coefficients, image


def distances(h, w):
    i, j = np.mgrid[0:h, 0:w]
    return np.sqrt((i - (h - 1) / 2) ** 2 + (j - (w - 1) / 2) ** 2)


def rich(c):
    return max(c[0]) > 3


@CHECK.gen("odd_square_images", st.tuples(st.integers(1, 15).map(lambda k: 2 * k + 1), st.one_of(crop(), st.tuples(st.integers(0, 15), st.integers(0, 15))), st.booleans(), st.integers(0, 1000)),
           quick=400, nontrivial=lambda c: c[0] > 3)
def odd_images(case):
    n, c, strict, seed = case; half = (n - 1) / 2
    if isinstance(c, list):  # the circle passes exactly through a pixel
        c = math.hypot(*c) / half; note("circle through a pixel")
        if not 0.5 <= c <= 1.0:
            raise Discard()
    mask, coefficients, image = region(n, n, c, strict, seed)
    rho = distances(n, n) / half
    require(np.all(mask[rho <= c]), "a pixel of the circle is not used", case, np.argwhere((rho <= c) & ~mask).tolist()[:3])
    require(not np.any(mask[rho > c + 0.0011]), "a pixel outside of the circle is used", case, np.argwhere((rho > c + 0.0011) & mask).tolist()[:3])
    require(abs(coefficients[0] - image[mask].mean()) <= 1e-9, "the fit uses other pixels than the cropped image shows", case, coefficients[0], image[mask].mean())


SHAPES = st.one_of(st.tuples(side(), side()), side().map(lambda s: [s, s]), side(30).map(lambda s: [s, s + 1]), side(30).map(lambda s: [s + 1, s]))


@CHECK.gen("region_of_any_image", st.tuples(SHAPES, crop(), crop(), st.booleans(), st.integers(0, 1000)), quick=500, nontrivial=rich)
def any_image(case):
    (h, w), c1, c2, strict, seed = case; c1, c2 = min(c1, c2), max(c1, c2)
    note("square" if h == w else "not square"); note(f"{h % 2}{w % 2} parity")
    mask, coefficients, image = region(h, w, c1, strict, seed)
    require(mask.any(), "no pixels are used", case)
    require(np.array_equal(mask, mask[::-1]) and np.array_equal(mask, mask[:, ::-1]), "the region is not symmetric", case, mask.astype(int).tolist())
    d = distances(h, w)
    require(d[mask].max() <= d[~mask].min() + 1e-6 * max(h, w) + 1e-4 * max(h, w) if (~mask).any() else True, "the region is not a disk around the centre", case)
    require(abs(coefficients[0] - image[mask].mean()) <= 1e-9, "the fit uses other pixels than the cropped image shows", case, coefficients[0], image[mask].mean())
    bigger, _, _ = region(h, w, c2, strict, seed)
    require(np.all(bigger[mask]), "a larger crop radius selects fewer pixels", case)
    narrow, _, _ = region(h, w, c1, True, seed); wide, _, _ = region(h, w, c1, False, seed)
    require(np.all(wide[narrow]), "strict border selects more pixels than the not strict one", case)


@CHECK.gen("pixels_outside_do_not_matter", st.tuples(SHAPES, crop(), st.booleans(), st.integers(0, 1000), st.sampled_from([0.0, 1e6, -1e9, float("inf"), float("nan")]),
                                                     st.lists(st.integers(0, 14), min_size=1, max_size=5, unique=True)), quick=300, nontrivial=rich)
def outside(case):
    (h, w), c, strict, seed, value, osa = case
    mask, _, image = region(h, w, c, strict, seed)
    pols = tuple(ZernPol(osa=k) for k in osa); spoiled = np.where(mask, image, value)
    kw = dict(crop_radius=c, strict_circle_border=strict, suppress_warnings=True, round_digits=6)
    a, none = fit_polynomials(image, pols, **kw); b, cropped = fit_polynomials(spoiled, pols, return_cropped_image=True, **kw)
    require(none is None, "cropped image returned without request", case)
    require(np.array_equal(a, b), "pixels outside of the region influence the fit", case, a.tolist(), b.tolist())
    require(np.all(cropped[~mask] == 0), "the cropped image is not 0 outside", case)
    require(np.array_equal(cropped[mask], image[mask]), "the cropped image differs from the input inside", case)


@CHECK.gen("integer_images", st.tuples(SHAPES, crop(), st.booleans(), st.integers(0, 1000), st.sampled_from(["uint8", "int16", "uint16", "int64", "float32"])), quick=150, nontrivial=rich)
def integer_images(case):
    (h, w), c, strict, seed, dtype = case
    image = np.random.default_rng(seed).integers(1, 200, (h, w)).astype(dtype); before = image.copy()
    coefficients, cropped = fit_polynomials(image, PISTON(), crop_radius=c, strict_circle_border=strict, return_cropped_image=True, suppress_warnings=True, round_digits=12)
    require(np.array_equal(image, before), "the image is modified", case)
    mask = cropped != 0
    require(np.array_equal(cropped[mask], image[mask]), "the cropped image differs from the input", case)
    require(abs(coefficients[0] - image[mask].astype(float).mean()) <= 1e-4 * 200 if dtype == "float32" else abs(coefficients[0] - image[mask].astype(float).mean()) <= 1e-8,
            "mean of the used pixels", case, coefficients[0])


BAD_CROP = st.one_of(st.floats(-10, 0.4999), st.floats(1.0001, 10), st.sampled_from([0.4999, 1.0001, 0.0, -1.0, 2.0, float("inf"), float("-inf"), float("nan")]))


@CHECK.gen("refused", st.one_of(st.tuples(st.just("crop"), side(9), side(9), BAD_CROP), st.tuples(st.just("small"), st.integers(1, 2), st.integers(1, 9), st.booleans()),
                                st.tuples(st.just("dimensions"), st.lists(st.integers(1, 5), min_size=1, max_size=4).filter(lambda s: len(s) != 2), st.just(0), st.just(0))), quick=300)
def refused(case):
    what = case[0]; note(what); kw = {}
    if what == "crop":
        image = np.ones((case[1], case[2])); kw["crop_radius"] = case[3]
    elif what == "small":
        image = np.ones((case[1], case[2]) if case[3] else (case[2], case[1]))
    else:
        image = np.ones(case[1])
    try:
        v = fit_polynomials(image, PISTON(), suppress_warnings=True, **kw)
    except ValueError:
        return
    require(False, f"{what}: no ValueError", case, repr(v)[:100])


LARGE = st.one_of(st.integers(16, 60).map(lambda k: [2 * k + 1] * 2), st.tuples(st.integers(32, 110), st.integers(32, 110)),
                  st.integers(32, 120).flatmap(lambda k: st.sampled_from([[k, k], [k, k + 1], [k + 1, k], [k, k + 2], [2 * k // 3, k], [k, 200]])))


@CHECK.gen("large_images", st.tuples(LARGE, crop(), st.booleans(), st.integers(0, 1000)), quick=14)
def large(case):
    (h, w), c, strict, seed = case
    note("odd square" if h == w and h % 2 else "other")
    if h == w and h % 2:
        odd_images([h, c, strict, seed])
    any_image([[h, w], c, 1.0, strict, seed])


@CHECK.enum("all_small_images", lambda tier: [[h, w] for h in range(3, 13) for w in range(3, 13)])
def small(case):
    """Region at the full radius: every image side is reached, pixels in the middle of the shorter sides are used."""
    h, w = case
    for strict in (True, False):
        mask, _, _ = region(h, w, 1.0, strict)
        require(np.array_equal(mask, mask[::-1]) and np.array_equal(mask, mask[:, ::-1]), "the region is not symmetric", case)
        if h == w:
            require(np.array_equal(mask, mask.T), "the region is not symmetric about the diagonal", case)
            if h % 2:
                require(mask[0, h // 2] and mask[h // 2, 0] and mask[-1, h // 2] and mask[h // 2, -1], "middles of the sides are not used", case)
        if h % 2 and w % 2 and h == w:
            require(np.array_equal(mask, distances(h, w) <= (h - 1) / 2 * 1.0005), "region of the full radius", case)


__all__ = ["o"]
