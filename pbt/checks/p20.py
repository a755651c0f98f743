import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, fit_polynomials, generate_phases_image

from .. import oracles as o
from ..core import Check, Discard, note, require
from ..gens import coefficient
from .p16 import low_orders
from .p19 import crop

CHECK = Check("P20", "generated odd image sides 15 to 61, sets of 1 to 10 different polynomials up to order 6, amplitudes, crop radii, border modes and values of pixels "
              "outside; cases for which the rounding of coordinates (4 digits) allows an error above 0.05 are discarded; non-trivial: at least 2 polynomials with amplitudes "
              "other than 0, one of them with m other than 0",
              ["the allowed error is twice the first order effect of the resolution of pixel coordinates: 6e-5 of the radius (1.1e-3 for sides above 43 with crop radius >= 0.998, "
               "where the radius of the circle is adapted to include border pixels)"])
POLS = st.lists(st.tuples(low_orders(6), coefficient(3.0)), min_size=1, max_size=10, unique_by=lambda t: tuple(t[0]))
SIDE = st.integers(7, 30).map(lambda k: 2 * k + 1)


def nontrivial(c):
    used = [t for t in c[1] if t[1] != 0]
    return len(used) > 1 and any(t[0][0] != 0 for t in used)


def coordinates(n):
    half = (n - 1) / 2; i, j = np.mgrid[0:n, 0:n]
    rho = np.hypot(i - half, j - half) / half; theta = np.arctan2(half - i, j - half)
    return rho, np.where(theta < 0, theta + 2 * np.pi, theta)


def design(orders, rho, theta):
    return np.array([o.Zfast(m, n, rho, theta) for m, n in orders]).T


def slopes(orders, rho):
    out = []
    for m, n in orders:
        d = sum(c * np.power(rho, p) for p, c in o.derivative_coeffs(abs(m), n).items()) if n else np.zeros(rho.shape)
        out.append(o.norm(m, n) * np.abs(d + np.zeros(rho.shape)))
    return np.array(out).T


def allowed(orders, cs, n, c, used, limit=0.05):
    rho, theta = coordinates(n); rho, theta = rho[used], theta[used]
    a = design(orders, rho, theta)
    if a.shape[0] < 2 * a.shape[1] or np.linalg.cond(a) > 1e4:
        raise Discard()
    delta = 1.1e-3 if n > 43 and c >= 0.998 else 6e-5
    d = slopes(orders, rho) * delta
    tol = 2 * np.abs(np.linalg.pinv(a)) @ (d @ np.abs(cs)) + 1e-9 * (1 + np.abs(cs).max())
    if tol.max() > limit:
        raise Discard()
    return tol


def draw(n, orders, cs, outside):
    rho, theta = coordinates(n); image = np.zeros((n, n)); inside = rho <= 1.0019
    image[inside] = design(orders, rho[inside], theta[inside]) @ cs
    if outside == "noise":
        image[~inside] = np.random.default_rng(n).normal(0, 1e3, (~inside).sum())
    elif outside == "continued":
        image[~inside] = design(orders, rho[~inside], theta[~inside]) @ cs
    return image


@CHECK.gen("recovered", st.tuples(SIDE, POLS, crop(), st.booleans(), st.sampled_from(["zero", "noise", "continued"]), st.sampled_from([4, 9, 12, 2]), st.sampled_from([1.0, 1.0, 1e-3, 20.0, 1e4]), st.sampled_from([0, 0, 10.0, -1e3, 2e5])),
           quick=350, nontrivial=nontrivial)
def recovered(case):
    n, terms, c, strict, outside, digits, scale, offset = case; c = max(c, 0.5)
    orders = [t[0] for t in terms]; cs = np.array([t[1] for t in terms]) * scale; rho, _ = coordinates(n)
    if offset:  # all phases far from zero
        k = orders.index([0, 0]) if [0, 0] in orders else len(orders); orders = orders[:k] + [[0, 0]] + orders[k + 1:]; cs = np.append(cs[:k], [offset] + list(cs[k + 1:])); note("offset of phases")
    tol = allowed(orders, cs, n, c, rho <= c + 1e-3, 0.05 * scale); note("wide tolerance" if tol.max() > 0.005 else "narrow tolerance")
    image = draw(n, orders, cs, outside)
    got, _ = fit_polynomials(image, tuple(ZernPol(m=m, n=k) for m, k in orders), crop_radius=c, strict_circle_border=strict, suppress_warnings=True, round_digits=digits)
    require(isinstance(got, np.ndarray) and got.shape == cs.shape, "one amplitude per polynomial", case, np.shape(got))
    require(np.array_equal(np.round(got, digits), got), "not rounded to the requested digits", case, got.tolist())
    bad = ~(np.abs(got - cs) <= tol + 0.51 * 10.0 ** -digits)
    require(not bad.any(), "an amplitude is not recovered", case, got.tolist(), tol.tolist())


@CHECK.gen("linear", st.tuples(SIDE.filter(lambda n: n < 42), POLS, crop(), st.booleans(), st.integers(0, 2 ** 32 - 1), st.floats(-4, 4), st.floats(-4, 4)), quick=120, nontrivial=nontrivial)
def linear(case):
    """Arbitrary pixel values."""
    n, terms, c, strict, seed, ka, kb = case; c = max(c, 0.5); orders = [t[0] for t in terms]; cs = np.array([t[1] for t in terms])
    rho, theta = coordinates(n); allowed(orders, cs, n, c, rho <= c + 1e-3)
    rng = np.random.default_rng(seed); a, b = rng.normal(0, 1, (n, n)), rng.uniform(-2, 3, (n, n))
    pols = tuple(ZernPol(m=m, n=k) for m, k in orders); kw = dict(crop_radius=c, strict_circle_border=strict, suppress_warnings=True, round_digits=12)
    fa, fb, fs = (fit_polynomials(x, pols, **kw)[0] for x in (a, b, ka * a + kb * b))
    require(np.all(np.abs(fs - ka * fa - kb * fb) <= 1e-8 * (1 + abs(ka) + abs(kb))), "fit is not linear", case, fs.tolist(), (ka * fa + kb * fb).tolist())
    backwards = fit_polynomials(a, pols[::-1], **kw)[0][::-1]
    require(np.all(np.abs(backwards - fa) <= 1e-8), "order of polynomials changes the amplitudes", case, fa.tolist(), backwards.tolist())
    if len(pols) < 10:
        # the fit is the least squares one: residuals are orthogonal to all polynomials within the resolution of coordinates
        rho_u, used = rho, rho <= c
        edge = (rho > c - 1e-9) & (rho <= c + 0.0012)
        if not edge.any():
            m = design(orders, rho_u[used], theta[used]); want = np.linalg.lstsq(m, a[used], rcond=None)[0]; note("compared with own least squares")
            s = np.linalg.svd(m, compute_uv=False)[-1]
            d = np.linalg.norm(slopes(orders, rho_u[used]) * 6e-5); residual = np.linalg.norm(a[used] - m @ want)
            bound = 2 * d * (np.linalg.norm(want) / s + residual / s ** 2) + 1e-9
            require(np.all(np.abs(fa - want) <= bound), "not the least squares solution", case, fa.tolist(), want.tolist(), bound)


@CHECK.gen("round_trip_of_generated_image", st.tuples(st.integers(10, 30).map(lambda k: 2 * k + 1), POLS), quick=60, nontrivial=nontrivial)
def round_trip(case):
    """Images generated by the package use the radius one pixel larger: the fit at the inner circle has to agree in orientation and sign."""
    n, terms = case; orders = [t[0] for t in terms]; cs = np.array([t[1] for t in terms])
    pols = tuple(ZernPol(m=m, n=k) for m, k in orders); image = generate_phases_image(pols, tuple(cs), n, n)
    full = [[m, k] for k in range(7) for m in range(-k, k + 1, 2)]; fit_pols = tuple(ZernPol(m=m, n=k) for m, k in full)
    got, _ = fit_polynomials(image, fit_pols, crop_radius=0.99, suppress_warnings=True, round_digits=10)
    rho, theta = coordinates(n); used = rho <= 0.99
    scale = ((n - 1) / 2) / (1 + n // 2)  # radius of a pixel relative to the circle of the image
    want = np.linalg.lstsq(design(full, rho[used], theta[used]), design(orders, rho[used] * scale, theta[used]) @ cs, rcond=None)[0]
    tol = allowed(full, want, n, 0.99, used)
    require(np.all(np.abs(got - want) <= tol), "generated image is not recognized", case, got.tolist(), want.tolist())


@CHECK.gen("large_images_many_polynomials", st.tuples(st.integers(31, 130).map(lambda k: 2 * k + 1), st.integers(2, 28), st.integers(0, 10 ** 6), crop(), st.booleans()), quick=8, batch=25, max_shrink=20)
def large(case):
    """All accuracy limits get narrower with the size of the image."""
    n, count, seed, c, strict = case; c = max(c, 0.5); rng = np.random.default_rng(seed)
    every = [(m, k) for k in range(7) for m in range(-k, k + 1, 2)]; orders = [every[k] for k in rng.permutation(len(every))[:count]]; cs = rng.uniform(-2, 2, len(orders))
    rho, _ = coordinates(n); tol = allowed(orders, cs, n, c, rho <= c + 1e-3); note(f"{len(orders) // 10}x polynomials")
    got, _ = fit_polynomials(draw(n, orders, cs, "noise"), tuple(ZernPol(m=m, n=k) for m, k in orders), crop_radius=c, strict_circle_border=strict, suppress_warnings=True, round_digits=9)
    require(not (np.abs(got - cs) > tol + 1e-9).any(), "an amplitude is not recovered", case, got.tolist(), tol.tolist())
