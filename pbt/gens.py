"""Common Hypothesis strategies. All cases are JSON-able."""
import math

from hypothesis import strategies as st

TWO_PI = 2.0 * math.pi


def orders(n_max=54, n_min=0):
    """(m, n), all radial orders equally likely, extreme |m| favoured a bit."""
    return st.integers(n_min, n_max).flatmap(
        lambda n: st.one_of(st.integers(0, n).map(lambda k: [2 * k - n, n]), st.sampled_from([[n, n], [-n, n], [n % 2, n], [-(n % 2), n]])))


def cheap_orders(n_max, value_limit=44, tail=8):
    """As orders(), but radial orders above value_limit only with |m| near n (the recursion is exponential in n - |m|)."""
    def build(n):
        if n <= value_limit:
            return st.integers(0, n).map(lambda k: [2 * k - n, n])
        return st.tuples(st.integers(0, tail), st.sampled_from([-1, 1])).map(lambda t: [t[1] * (n - 2 * t[0]), n])
    return st.integers(0, n_max).flatmap(build)


RADII_SPECIAL = [0.0, 1.0, 0.5, 1e-300, 5e-324, 1e-16, 1e-8, 1e-3, 0.999, 0.9999999999999999, 1 - 1e-12, 0.25, 0.1, 0.7071067811865476]
ANGLES_SPECIAL = [0.0, math.pi / 2, math.pi, 1.5 * math.pi, TWO_PI, math.pi / 4, 1e-300, 6.283185307179585, math.pi / 3]


def radius():
    return st.one_of(st.floats(0.0, 1.0), st.sampled_from(RADII_SPECIAL))


def angle():
    return st.one_of(st.floats(0.0, TWO_PI), st.sampled_from(ANGLES_SPECIAL))


def pols(max_n, min_size=1, max_size=12, unique=False, n_min=0):
    if unique:
        return st.lists(orders(max_n, n_min), min_size=min_size, max_size=max_size, unique_by=tuple)
    return st.lists(orders(max_n, n_min), min_size=min_size, max_size=max_size)


def coefficient(limit=5.0):
    return st.one_of(st.floats(-limit, limit), st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, 1e-12, -limit]),
                     st.integers(-int(limit), int(limit)).map(float))


def rounded(lo, hi, digits=4):
    s = 10 ** digits
    return st.integers(math.ceil(lo * s), math.floor(hi * s)).map(lambda k: k / s)


def long_size(top, low=64):
    """Sizes as used in practice: all magnitudes up to top, also around powers of 2 and 10."""
    near = [v + d for v in [2 ** k for k in range(6, 20)] + [100, 500, 1000, 2000, 5000, 10000, 50000, 100000] for d in (-1, 0, 1)]
    return st.one_of(st.floats(math.log(low), math.log(top)).map(lambda x: min(top, int(math.exp(x)))), st.sampled_from([v for v in near if low <= v <= top]))
