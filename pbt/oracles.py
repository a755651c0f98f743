"""Reference models written from the published definitions, independent of the code under test."""
import math
from functools import lru_cache

import numpy as np

EPS = 2.220446049250313e-16
N_MAX = 54


# ------------------------------------------------------------------ indices
def all_orders(n_max=N_MAX, n_min=0):
    return [(m, n) for n in range(n_min, n_max + 1) for m in range(-n, n + 1, 2)]


@lru_cache(None)
def index_tables(n_max=120):
    """OSA, Noll and Fringe numbers by enumerating polynomials in the order of each published scheme."""
    osa = {}; noll = {}; fringe = {}
    i = 0
    for n in range(n_max + 1):  # OSA / ANSI: rows of the pyramid, from the most negative m to the most positive one
        for m in range(-n, n + 1, 2):
            osa[(m, n)] = i; i += 1
    j = 1
    for n in range(n_max + 1):  # Noll: within a row by |m|; even numbers belong to cosines (m > 0), odd ones to sines (m < 0)
        for am in range(n % 2, n + 1, 2):
            if am == 0:
                noll[(0, n)] = j; j += 1
            else:
                for k in (j, j + 1):
                    noll[(am if k % 2 == 0 else -am, n)] = k
                j += 2
    f = 1
    for s in range(2 * n_max + 1):  # Fringe: by n + |m| = 2s, within it by decreasing |m|, cosine before sine
        for am in range(s, -1, -1):
            n = 2 * s - am
            for m in ((am, -am) if am else (0,)):
                fringe[(m, n)] = f; f += 1
    return osa, noll, fringe


@lru_cache(None)
def inverse_tables():
    return tuple({v: k for k, v in t.items()} for t in index_tables())


def fringe_orders(j):
    """Orders for any Fringe number (closed form on blocks of squares)."""
    s = math.isqrt(j - 1); k = j - s * s - 1  # position within the block of 2s + 1 numbers
    am = s - k // 2; m = am if k % 2 == 0 else -am
    return m, 2 * s - am


def osa_orders(j):
    n = (math.isqrt(8 * j + 1) - 1) // 2
    return 2 * (j - n * (n + 1) // 2) - n, n


def noll_orders(j):
    k = j - 1; n = (math.isqrt(8 * k + 1) - 1) // 2; pos = k - n * (n + 1) // 2
    if n % 2 == 0:
        am = 2 * ((pos + 1) // 2)
    else:
        am = 2 * (pos // 2) + 1
    if am == 0:
        return 0, n
    return (am if j % 2 == 0 else -am), n


def valid_orders(m, n):
    return 0 <= n <= N_MAX and abs(m) <= n and (n - m) % 2 == 0


# ------------------------------------------------------------------ radial part
@lru_cache(None)
def radial_coeffs(m, n):
    """{power: integer coefficient} of R(n, |m|)."""
    m = abs(m); out = {}
    for k in range((n - m) // 2 + 1):
        c = math.comb(n - k, k) * math.comb(n - 2 * k, (n - m) // 2 - k)
        out[n - 2 * k] = -c if k % 2 else c
    return out


@lru_cache(None)
def derivative_coeffs(m, n):
    return {p - 1: p * c for p, c in radial_coeffs(m, n).items() if p > 0}


def _exact(coeffs, r):
    """Correctly rounded value of an integer polynomial at the float r (integer arithmetic only)."""
    if not coeffs:
        return 0.0
    a, b = float(r).as_integer_ratio(); top = max(coeffs); total = 0
    apow = {}; bpow = {}
    powers = sorted(coeffs)
    ap = a ** powers[0]; step = None
    for i, p in enumerate(powers):
        if i:
            d = p - powers[i - 1]
            step = a ** d if step is None or d != last_d else step
            ap *= step; last_d = d
        else:
            last_d = None
        apow[p] = ap
    shift = b.bit_length() - 1  # b is a power of two
    for p in powers:
        total += coeffs[p] * (apow[p] << (shift * (top - p)))
    del bpow
    return total / (1 << (shift * top)) if shift * top else float(total)


@lru_cache(200000)
def R(m, n, r):
    return _exact(radial_coeffs(abs(m), n), r)


@lru_cache(200000)
def dR(m, n, r):
    return _exact(derivative_coeffs(abs(m), n), r)


def _cond(coeffs, r):
    r = np.asarray(r, dtype=float); out = np.zeros(r.shape)
    for p, c in coeffs.items():
        out += abs(float(c)) * np.power(r, p)
    return out


def tol_R(m, n, r):
    """Rounding error allowed for evaluating R in double precision (conditioning of the sum of powers), capped."""
    return np.minimum(60 * EPS * _cond(radial_coeffs(abs(m), n), r), 0.1) + 1e-13


def tol_dR(m, n, r):
    """As above, capped by 1% of the largest derivative (the one at the border)."""
    border = (n * (n + 2) - m * m) / 2
    return np.minimum(60 * EPS * _cond(derivative_coeffs(abs(m), n), r), 0.01 * border + 1e-3) + 1e-12


def R_array(m, n, r):
    r = np.asarray(r, dtype=float)
    return np.array([R(abs(m), n, float(x)) for x in r.ravel()]).reshape(r.shape)


def dR_array(m, n, r):
    r = np.asarray(r, dtype=float)
    return np.array([dR(abs(m), n, float(x)) for x in r.ravel()]).reshape(r.shape)


# ------------------------------------------------------------------ polynomial
def norm(m, n):
    return math.sqrt(n + 1) if m == 0 else math.sqrt(2 * (n + 1))


def T(m, theta):
    return np.cos(m * np.asarray(theta, dtype=float)) if m >= 0 else np.sin(-m * np.asarray(theta, dtype=float))


def dT(m, theta):
    theta = np.asarray(theta, dtype=float)
    return -m * np.sin(m * theta) if m >= 0 else -m * np.cos(-m * theta)


def tol_T(m, theta):
    """Rounding of m*theta before the trigonometric function."""
    return 4 * EPS * (abs(m) * np.abs(np.asarray(theta, dtype=float)) + 2)


def Z(m, n, r, theta):
    r, theta = np.broadcast_arrays(np.asarray(r, dtype=float), np.asarray(theta, dtype=float))
    return norm(m, n) * R_array(m, n, r) * T(m, theta)


def tol_Z(m, n, r, theta):
    return norm(m, n) * (tol_R(m, n, r) + (1 + tol_R(m, n, r)) * tol_T(m, theta)) + 1e-13


def Zfast(m, n, r, theta):
    """Float evaluation for low orders (n <= 12), where powers are harmless."""
    r = np.asarray(r, dtype=float); out = np.zeros(r.shape)
    for p, c in radial_coeffs(abs(m), n).items():
        out = out + c * np.power(r, p)
    return norm(m, n) * out * T(m, theta)


# ------------------------------------------------------------------ diffraction integral
def quadrature(nr, nphi):
    p = np.arange(nr + 1) / nr; wp = np.full(nr + 1, 1.0 / nr); wp[0] = wp[-1] = 0.5 / nr
    phi = np.arange(nphi + 1) * (2 * np.pi / nphi); w = np.ones(nphi + 1)
    w[1:-1:2] = 4; w[2:-1:2] = 2; w *= 2 * np.pi / nphi / 3
    return p, wp, phi, w


def fine_quadrature(nr=80, nphi=360):
    x, w = np.polynomial.legendre.leggauss(nr)
    return (x + 1) / 2, w / 2, np.arange(nphi) * (2 * np.pi / nphi), np.full(nphi, 2 * np.pi / nphi)


def psf_kernel(pols, coeffs, NA, wavelength, pixel, size, quad):
    """|1/pi * integral|^2 for every element of the kernel with the given quadrature (p, wp, phi, wphi)."""
    p, wp, phi, wphi = quad
    P, F = np.meshgrid(p, phi, indexing="ij"); phase = np.zeros(P.shape)
    for (m, n), c in zip(pols, coeffs):
        rad = R_array(m, n, p) if n > 12 else sum(cc * np.power(p, q) for q, cc in radial_coeffs(abs(m), n).items())
        phase += (c / wavelength) * norm(m, n) * rad[:, None] * T(m, phi)[None, :]
    W = (P * wp[:, None] * wphi[None, :]) * np.exp(1j * phase)
    c = size // 2; out = np.zeros((size, size)); k = 2 * np.pi / wavelength
    for i in range(size):
        for j in range(size):
            d = k * NA * pixel * math.hypot(i - c, j - c); theta = math.atan2(i - c, j - c) + math.pi
            out[i, j] = abs(np.sum(W * np.exp(-1j * d * P * np.cos(F - theta)))) ** 2 / math.pi ** 2
    return out


def airy_kernel(NA, wavelength, pixel, size):
    from scipy.special import j1
    c = size // 2; i, j = np.mgrid[0:size, 0:size]
    x = 2 * np.pi / wavelength * NA * pixel * np.hypot(i - c, j - c)
    with np.errstate(all="ignore"):
        out = (2 * j1(x) / x) ** 2
    out[c, c] = 1.0
    return out


# ------------------------------------------------------------------ images
def phase_image(pols, coeffs, width, height):
    rc, cc = height // 2, width // 2; R0 = 1 + min(width, height) // 2
    i, j = np.mgrid[0:height, 0:width]
    d2 = (i - rc) ** 2 + (j - cc) ** 2; inside = d2 <= R0 * R0
    r = np.sqrt(d2) / R0; th = np.arctan2(rc - i, j - cc); th = np.where(th < 0, th + 2 * np.pi, th)
    out = np.zeros((height, width)); tol = np.full((height, width), 1e-12)
    for (m, n), c in zip(pols, coeffs):
        out[inside] += c * Z(m, n, r[inside], th[inside]); tol[inside] += abs(c) * (2 * tol_Z(m, n, r[inside], th[inside]) + 1e-13 * n * n)
    return out, tol, inside


def convolve_reflect(image, kernel):
    """Convolution normalized by the kernel's sum, borders reflected about the edge of the last pixel."""
    image = np.asarray(image, dtype=float); kernel = np.asarray(kernel, dtype=float)
    a, b = kernel.shape; pa, pb = a // 2, b // 2
    padded = np.pad(image, ((pa, pa), (pb, pb)), mode="symmetric"); flipped = kernel[::-1, ::-1]
    out = np.zeros(image.shape); h, w = image.shape
    for i in range(a):
        for j in range(b):
            out += flipped[i, j] * padded[i:i + h, j:j + w]
    return out / kernel.sum()
