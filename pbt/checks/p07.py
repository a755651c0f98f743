from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, note, require
from ..gens import orders

CHECK = Check("P07", "the complete Gram matrix of all polynomials with n <= 44 and those up to n = 54 with n - |m| <= 6 (one case per polynomial: its products with all others) by a quadrature "
              "exact for these products, and generated pairs with generated quadrature meshes; non-trivial: the pair has the same m (only then the radial "
              "parts decide) or is a polynomial with itself",
              ["Gauss-Legendre rule on the radius and equidistant angles, both exact for the degrees of the products"], scale=4)
N = 40
ALL = o.all_orders(44) + [(m, n) for n in range(45, 55) for m in range(-n, n + 1, 2) if n - abs(m) <= 6]


@lru_cache(None)
def mesh(nr, nt, shift):
    x, w = np.polynomial.legendre.leggauss(nr); r = (x + 1) / 2; wr = w * r  # 2 * int f r dr = sum w r f
    th = np.arange(nt) * (2 * np.pi / nt) + shift
    rr, tt = np.meshgrid(r, th, indexing="ij")
    return rr, tt, (wr[:, None] * np.full(nt, 1.0 / nt)[None, :])


@lru_cache(None)
def values():
    rr, tt, w = mesh(58, 112, 0.0)
    return np.array([ZernPol(m=m, n=n).polynomial_value(rr, tt).ravel() for m, n in ALL]), w.ravel()


def error(m, n, mesh_r, weights_r):
    """Root mean square of the allowed rounding error of the values."""
    return o.norm(m, n) * np.sqrt(np.sum(weights_r * o.tol_R(m, n, mesh_r) ** 2)) + 1e-12


@lru_cache(None)
def errors():
    rr, tt, w = mesh(58, 112, 0.0)
    return np.array([error(m, n, rr[:, 0], w.sum(axis=1)) for m, n in ALL])


@CHECK.enum("gram_matrix", lambda tier: [[m, n] for m, n in ALL])
def gram(case):
    m, n = case; k = ALL.index((m, n)); v, w = values()
    got = v @ (w * v[k]); want = np.zeros(len(ALL)); want[k] = 1.0
    limit = errors() + errors()[k] + errors() * errors()[k] + 1e-11
    bad = np.abs(got - want) > limit
    if np.any(bad):
        j = int(np.argmax(np.abs(got - want) - limit))
        require(False, "mean of the product over the unit disk", (m, n), ALL[j], float(got[j]), float(want[j]), float(limit[j]))


def pair():
    same_m = orders(N).flatmap(lambda a: st.integers(0, (N - abs(a[0])) // 2).map(lambda k: [a, [a[0], abs(a[0]) + 2 * k]]))
    listed = st.sampled_from(ALL).map(list)
    return st.one_of(same_m, st.tuples(listed, listed), st.tuples(orders(N), orders(N)), orders(N).map(lambda a: [a, a]), orders(N).map(lambda a: [a, [-a[0], a[1]]]))


@CHECK.gen("pairs_on_generated_meshes", st.tuples(pair(), st.integers(0, 12), st.integers(0, 12)), quick=300,
           nontrivial=lambda c: c[0][0][0] == c[0][1][0])
def pairs(case):
    ((m1, n1), (m2, n2)), dr, dt = case
    rr, tt, w = mesh((n1 + n2) // 2 + 2 + dr, abs(m1) + abs(m2) + 2 + dt, 0.0)
    a = ZernPol(m=m1, n=n1).polynomial_value(rr, tt); b = ZernPol(m=m2, n=n2).polynomial_value(rr, tt)
    got = float(np.sum(w * a * b)); want = 1.0 if (m1, n1) == (m2, n2) else 0.0
    e1 = error(m1, n1, rr[:, 0], w.sum(axis=1)); e2 = error(m2, n2, rr[:, 0], w.sum(axis=1))
    note("same polynomial" if want else "different")
    require(abs(got - want) <= e1 + e2 + e1 * e2 + 1e-11, "mean of the product over the unit disk", (m1, n1), (m2, n2), got, e1 + e2)
