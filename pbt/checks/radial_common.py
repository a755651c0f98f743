"""Shared by P04 and P05: radii, containers and enumeration of orders for the radial part and its derivative."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import note, require
from ..gens import RADII_SPECIAL, cheap_orders, radius

GRID = sorted(set([0.0, 1.0, 0.5, 1e-300, 1e-9, 1e-3, 0.01, 0.9999999999999999, 1 - 1e-12, 0.999, 0.99, 0.98, 0.7071067811865476]
                  + [round(k / 20 + 0.013, 4) for k in range(19)] + [0.923, 0.937, 0.951, 0.967, 0.974]))


def all_m(full_to, tail, full_thorough, tail_thorough, small_quick, small_thorough):
    """All |m| for n <= full_to; above it those with n - |m| <= 2*tail (the recursion is exponential in n - |m|) and |m| <= 1 up to small_*."""
    def cases(tier):
        top, steps, small = (full_to, tail, small_quick) if tier == "quick" else (full_thorough, tail_thorough, small_thorough)
        for n in range(0, 55):
            for m in range(n % 2, n + 1, 2):
                if n <= top or n - m <= 2 * steps or (m <= 1 and n <= small):
                    yield [m, n]
    return cases


def compare(got, m, n, r, exact, tol, what):
    want = exact(m, n, r); limit = tol(m, n, r); got = np.asarray(got, dtype=float)
    require(got.shape == np.shape(r), "shape of the result", what, got.shape, np.shape(r))
    bad = ~(np.abs(got - want) <= limit)
    if np.any(bad):
        k = int(np.argmax(np.where(np.isnan(got), np.inf, np.abs(got - want) - limit)))
        require(False, what + " differs from the exact value", (m, n), {"r": float(np.ravel(r)[k]), "got": float(np.ravel(got)[k]),
                "exact": float(np.ravel(want)[k]), "allowed": float(np.ravel(limit)[k])})


def points(max_n, limit, tail=8):
    """(m, n), radii, how they are given."""
    return st.tuples(cheap_orders(max_n, limit, tail), st.lists(radius(), min_size=1, max_size=12),
                     st.sampled_from(["array", "scalar", "numpy scalar", "list", "matrix"]))


def call_with(method, radii, kind):
    """Value(s) returned for the radii given in one of the ways; returns (radii array, values)."""
    note(kind)
    if kind == "scalar":
        return np.array(radii), np.array([method(float(r)) for r in radii])
    if kind == "numpy scalar":
        return np.array(radii), np.array([method(np.float64(r)) for r in radii])
    if kind == "list":
        return np.array(radii), method(list(radii))
    if kind == "matrix":
        a = np.array(radii + radii).reshape(2, -1)
        return a, method(a)
    return np.array(radii), method(np.array(radii))


__all__ = ["GRID", "all_m", "compare", "points", "call_with", "RADII_SPECIAL", "math"]
