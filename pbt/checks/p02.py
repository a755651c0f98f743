from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, require, note
from ..gens import orders

CHECK = Check("P02", "all numbers of the 1540 supported polynomials in the three schemes, generated chains of conversions (non-trivial: at least two different "
              "conversions), and arbitrary numbers (non-trivial: outside the numbers of supported polynomials)", scale=3)
ORDERS = {"osa_index": o.osa_orders, "noll_index": o.noll_orders, "fringe_index": o.fringe_orders}
FIRST = {"osa_index": 0, "noll_index": 1, "fringe_index": 1}


def table(which, m, n):
    """Index by closed enumeration; valid for any order."""
    if which == "osa_index":
        return n * (n + 1) // 2 + (n + m) // 2
    if which == "noll_index":
        for j in range(n * (n + 1) // 2 + 1, (n + 1) * (n + 2) // 2 + 1):
            if o.noll_orders(j) == (m, n):
                return j
        raise AssertionError((m, n))
    s = (n + abs(m)) // 2
    return s * s + 1 + 2 * (s - abs(m)) + (1 if m < 0 else 0)


CONVERSIONS = {"osa2noll": ("osa_index", "noll_index"), "noll2osa": ("noll_index", "osa_index"), "osa2fringe": ("osa_index", "fringe_index"),
               "fringe2osa": ("fringe_index", "osa_index")}


@CHECK.enum("all_supported", lambda tier: [[m, n] for m, n in o.all_orders()])
def all_supported(case):
    m, n = case; osa, noll, fringe = (t[(m, n)] for t in o.index_tables())
    numbers = {"osa_index": osa, "noll_index": noll, "fringe_index": fringe}
    for name, (src, dst) in CONVERSIONS.items():
        got = getattr(ZernPol, name)(numbers[src])
        require(got == numbers[dst], name, numbers[src], got, numbers[dst])
        require(type(got) is int, name + " does not return a plain integer", type(got))
    for src, value in numbers.items():
        got = ZernPol.index2orders(**{src: value})
        require(tuple(got) == (m, n), "index2orders", src, value, got, (m, n))
    require(ZernPol.noll2osa(ZernPol.osa2noll(osa)) == osa, "OSA -> Noll -> OSA")
    require(ZernPol.fringe2osa(ZernPol.osa2fringe(osa)) == osa, "OSA -> Fringe -> OSA")


@CHECK.gen("conversion_chain", st.tuples(orders(), st.lists(st.integers(0, 3), min_size=2, max_size=10)), quick=300,
           nontrivial=lambda c: len(set(c[1])) > 1)
def conversion_chain(case):
    (m, n), steps = case; which = "osa_index"; value = ZernPol.get_osa_index(m, n)
    for s in steps:
        options = [k for k, (src, _) in sorted(CONVERSIONS.items()) if src == which] + ["orders", "object"]
        name = options[s % len(options)]; note(name)
        if name in CONVERSIONS:
            value = getattr(ZernPol, name)(value); which = CONVERSIONS[name][1]
        else:
            if name == "orders":
                m1, n1 = ZernPol.index2orders(**{which: value})
            else:
                m1, n1 = ZernPol(**{which: value}).get_mn_orders()
            require((m1, n1) == (m, n), "orders after conversions", which, value, (m1, n1))
            which = ("osa_index", "noll_index", "fringe_index")[s % 3]
            value = (ZernPol.get_osa_index, ZernPol.get_noll_index, ZernPol.get_fringe_index)[s % 3](m1, n1)
        require(value == table(which, m, n), "value after conversions", which, value, table(which, m, n))


def index_value():
    return st.one_of(st.integers(-20, 40), st.integers(1500, 1700), st.integers(2900, 3300), st.integers(3300, 70000), st.integers(-10 ** 12, 10 ** 12),
                     st.sampled_from([0, -1, 1539, 1540, 1541, 1595, 1596, 1597, 3025, 3026, 15625, 15626, 10 ** 30, -10 ** 30]))


@CHECK.gen("arbitrary_numbers", st.tuples(st.sampled_from(sorted(CONVERSIONS) + sorted(ORDERS)), index_value()), quick=800,
           nontrivial=lambda c: c[1] < 1 or c[1] > 1540)
def arbitrary_numbers(case):
    name, value = case
    src = CONVERSIONS[name][0] if name in CONVERSIONS else name
    try:
        got = getattr(ZernPol, name)(value) if name in CONVERSIONS else ZernPol.index2orders(**{src: value})
    except ValueError:
        note("refused")
        require(value < FIRST[src] or ORDERS[src](value)[1] > o.N_MAX, "supported number refused", name, value)
        return
    note("resolved")
    require(value >= FIRST[src], "number below the first one converted", name, value, got)
    m, n = ORDERS[src](value)
    want = (m, n) if name not in CONVERSIONS else table(CONVERSIONS[name][1], m, n)
    require((tuple(got) if name not in CONVERSIONS else got) == want, "wrong conversion", name, value, got, want)


@CHECK.gen("not_integers", st.tuples(st.sampled_from(sorted(CONVERSIONS)),
                                     st.one_of(st.floats(-1e6, 1e6), st.text(max_size=4), st.none(), st.lists(st.integers(0, 9), max_size=2))), quick=200)
def not_integers(case):
    name, value = case
    try:
        got = getattr(ZernPol, name)(value)
    except ValueError:
        return
    require(isinstance(value, float) and value == int(value), "not an integer converted", name, value, got)
    src, dst = CONVERSIONS[name]
    require(got == table(dst, *ORDERS[src](int(value))), "wrong conversion of a whole float", name, value, got)


@CHECK.gen("fractional_orders_search", st.tuples(st.sampled_from(sorted(ORDERS)), st.integers(-3, 3000), st.floats(0.01, 0.99)), quick=150)
def fractional(case):
    """A number between two indices names no polynomial."""
    which, base, frac = case
    try:
        got = ZernPol.index2orders(**{which: base + frac})
    except ValueError:
        return
    require(False, "orders returned for a fractional index", which, base + frac, got)
