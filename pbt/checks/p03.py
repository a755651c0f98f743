from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, require, note

CHECK = Check("P03", "complete grids of orders around the valid region and of numbers around the valid ranges, arbitrary integers, non-integers and keyword sets; "
              "non-trivial: the specification is not valid (must be refused)", scale=3)
N_KEYS = ["n", "radial_order"]
M_KEYS = ["m", "l", "azimuthal_order", "angular_frequency"]
SCHEME = {"osa": 0, "osa_index": 0, "ansi": 0, "ansi_index": 0, "noll": 1, "noll_index": 1, "fringe": 2, "fringe_index": 2}
ORDERS = [o.osa_orders, o.noll_orders, o.fringe_orders]
FIRST = [0, 1, 1]


def build(kwargs):
    try:
        return ZernPol(**kwargs)
    except ValueError:
        return None


def decide(kwargs, want):
    zp = build(kwargs)
    if want is None:
        note("must be refused")
        require(zp is None, "impossible specification accepted", kwargs, None if zp is None else zp.get_indices())
    else:
        note("must be accepted")
        require(zp is not None, "valid specification refused", kwargs)
        require(tuple(zp.get_mn_orders()) == tuple(want), "another polynomial built", kwargs, zp.get_mn_orders(), want)


def orders_of_index(scheme, value):
    if value < FIRST[scheme]:
        return None
    m, n = ORDERS[scheme](value)
    return (m, n) if n <= o.N_MAX else None


def bad_orders(case):
    return not o.valid_orders(case[0], case[1])


@CHECK.enum("grid_of_orders", lambda tier: [[m, n] for n in range(-6, 62) for m in range(-64, 65)], nontrivial=bad_orders)
def grid(case):
    m, n = case
    decide({N_KEYS[(m + n) % 2]: n, M_KEYS[(m * 3 + n) % 4]: m}, (m, n) if o.valid_orders(m, n) else None)


@CHECK.enum("grid_of_numbers", lambda tier: [[k, v] for k, top in (("osa", 1800), ("noll_index", 1800), ("fringe", 3400)) for v in range(-10, top)],
            nontrivial=lambda c: orders_of_index(SCHEME[c[0]], c[1]) is None)
def grid_numbers(case):
    key, value = case
    decide({key: value}, orders_of_index(SCHEME[key], value))


wide = st.one_of(st.integers(-70, 70), st.integers(-10 ** 6, 10 ** 6), st.integers(-10 ** 25, 10 ** 25), st.sampled_from([54, 55, 56, -54, -55, 0, 1, -1]))


@CHECK.gen("arbitrary_orders", st.tuples(wide, wide, st.sampled_from(N_KEYS), st.sampled_from(M_KEYS)), quick=500, nontrivial=bad_orders)
def arbitrary_orders(case):
    m, n, nk, mk = case
    decide({nk: n, mk: m}, (m, n) if o.valid_orders(m, n) else None)


@CHECK.gen("arbitrary_numbers", st.tuples(st.sampled_from(sorted(SCHEME)), st.one_of(wide, st.integers(0, 4000), st.integers(-10 ** 9, 10 ** 9))), quick=300,
           nontrivial=lambda c: orders_of_index(SCHEME[c[0]], c[1]) is None)
def arbitrary_numbers(case):
    key, value = case
    decide({key: value}, orders_of_index(SCHEME[key], value))


not_int = st.one_of(st.floats(-100, 100), st.sampled_from([2.0, 0.0, 1.0, float("inf")]), st.text(max_size=3), st.none(), st.lists(st.integers(0, 3), max_size=2))


@CHECK.gen("not_integers", st.tuples(st.integers(0, 3), not_int, st.integers(0, 20), st.sampled_from(N_KEYS), st.sampled_from(M_KEYS),
                                     st.sampled_from(sorted(SCHEME))), quick=300)
def not_integers(case):
    kind, value, whole, nk, mk, key = case
    kwargs = [{nk: value, mk: whole}, {nk: whole, mk: value}, {nk: value, mk: value}, {key: value}][kind]
    decide(kwargs, None)


ALL = N_KEYS + M_KEYS + sorted(SCHEME) + ["order", "index", "N", "M", "radial", "osa_idx"]


def meaning(kwargs):
    """Orders named by the keyword set, or None."""
    keys = set(kwargs)
    if len(keys) == 2:
        nk = [k for k in keys if k in N_KEYS]; mk = [k for k in keys if k in M_KEYS]
        if len(nk) == 1 and len(mk) == 1:
            m, n = kwargs[mk[0]], kwargs[nk[0]]
            return (m, n) if o.valid_orders(m, n) else None
    elif len(keys) == 1:
        k = next(iter(keys))
        if k in SCHEME:
            return orders_of_index(SCHEME[k], kwargs[k])
    return None


@CHECK.gen("keyword_sets", st.dictionaries(st.sampled_from(ALL), st.integers(-2, 12), max_size=4), quick=700, nontrivial=lambda c: meaning(c) is None)
def keyword_sets(case):
    decide(case, meaning(case))


@CHECK.gen("initialized_again", st.tuples(st.integers(0, 54).flatmap(lambda n: st.tuples(st.integers(0, n).map(lambda k: 2 * k - n), st.just(n))),
                                          st.one_of(st.tuples(st.sampled_from(sorted(SCHEME)), st.integers(1, 1400)).map(lambda t: {t[0]: t[1]}),
                                                    st.tuples(st.sampled_from(N_KEYS), st.sampled_from(M_KEYS), st.integers(0, 54)).map(lambda t: {t[0]: t[2], t[1]: t[2] % 2}),
                                                    st.dictionaries(st.sampled_from(ALL), st.integers(-2, 12), max_size=3))), quick=300)
def again(case):
    """A built polynomial isn't turned into another one."""
    (m, n), kwargs = case; zp = ZernPol(m=m, n=n); before = zp.get_indices(), str(zp), zp.radial(0.75) if n < 13 else None
    try:
        zp.__init__(**kwargs)
    except ValueError:
        refused = True
    else:
        refused = False
    require(refused or meaning(kwargs) is None, "initialized twice", case)
    require(before == (zp.get_indices(), str(zp), zp.radial(0.75) if n < 13 else None), "polynomial is changed afterwards", case, zp.get_indices())
