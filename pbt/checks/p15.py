import re

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, generate_polynomials

from .. import oracles as o
from ..core import Check, note, require
from ..gens import orders

CHECK = Check("P15", "all maximal orders 0 to 40, all ordered pairs of polynomials with n <= 15 and generated pairs up to n = 54 built by different keywords, "
              "comparisons with other objects, names of all polynomials; non-trivial: the pair shares one of the orders, or the set has more than one member", scale=4)


@CHECK.enum("generated_sets", lambda tier: range(0, 41 if tier == "quick" else 55), nontrivial=lambda c: c > 0)
def sets(case):
    pols = generate_polynomials(case)
    require(isinstance(pols, tuple) and all(isinstance(p, ZernPol) for p in pols), "not a tuple with polynomials", case)
    got = [p.get_mn_orders() for p in pols]; want = o.all_orders(case)
    require(got == want, "the set differs", case, [x for x in got if x not in want][:3], [x for x in want if x not in got][:3], got[:5])
    require([p.get_indices()[1] for p in pols] == list(range(len(want))), "OSA indices are not increasing by one", case)


@CHECK.enum("negative_orders", lambda tier: [-1, -2, -10, -1000])
def negative(case):
    try:
        v = generate_polynomials(case)
    except ValueError:
        return
    require(False, "negative maximal order accepted", case, len(v))


@CHECK.enum("default_set", lambda tier: [0])
def default(case):
    require([p.get_mn_orders() for p in generate_polynomials()] == o.all_orders(10), "default maximal order is 10")


SMALL = o.all_orders(15)


@CHECK.enum("all_pairs", lambda tier: [[m, n] for m, n in SMALL])
def all_pairs(case):
    a = ZernPol(m=case[0], n=case[1])
    for j, (m, n) in enumerate(SMALL):
        compare(a, ZernPol(osa=j), SMALL.index(tuple(case)), j, (case, (m, n)))


def compare(a, b, i, j, what):
    for got, want, name in ((a > b, i > j, "a > b"), (a == b, i == j, "a == b"), (a < b, i < j, "a < b"), (b > a, j > i, "b > a"), (a != b, i != j, "a != b")):
        require(got is want or (isinstance(got, (bool, np.bool_)) and bool(got) == want), name, what, got, want)


@CHECK.gen("pairs", st.tuples(orders(), orders(), st.sampled_from(["free", "same n", "same |m|", "same"]), st.sampled_from(["orders", "osa", "noll", "fringe"]),
                              st.sampled_from(["orders", "osa", "noll", "fringe"])), quick=500, nontrivial=lambda c: c[2] != "free")
def pairs(case):
    a, b, relation, wa, wb = case; a = tuple(a); b = tuple(b)
    if relation == "same n":
        b = (b[0] if abs(b[0]) <= a[1] and (a[1] - b[0]) % 2 == 0 else -a[0], a[1])
    elif relation == "same |m|":
        b = (-a[0] if b[1] % 2 else a[0], min(54 - (54 - a[1]) % 2, abs(a[0]) + 2 * (b[1] // 2) if abs(a[0]) + 2 * (b[1] // 2) <= 54 else a[1]))
    elif relation == "same":
        b = a
    note(relation)
    osa = o.index_tables()[0]
    compare(build(a, wa), build(b, wb), osa[a], osa[b], (a, b))


def build(mn, way):
    tables = dict(zip(("osa", "noll", "fringe"), o.index_tables()))
    return ZernPol(m=mn[0], n=mn[1]) if way == "orders" else ZernPol(**{way: tables[way][mn]})


OTHER = st.one_of(st.integers(-3, 20), st.floats(allow_nan=False), st.text(max_size=3), st.none(), st.lists(st.integers(0, 3), max_size=2), st.booleans(),
                  st.dictionaries(st.sampled_from(["m", "n"]), st.integers(0, 3)))


@CHECK.gen("comparison_with_something_else", st.tuples(orders(), OTHER), quick=300)
def something_else(case):
    (m, n), other = case; zp = ZernPol(m=m, n=n)
    if isinstance(other, list):
        other = tuple(other)
    for name, fn in (("==", lambda: zp == other), (">", lambda: zp > other), ("!=", lambda: zp != other)):
        try:
            v = fn()
        except ValueError:
            continue
        require(False, f"comparison {name} with {other!r} gives {v!r}", case)


@CHECK.enum("sorting", lambda tier: range(30))
def sorting(case):
    import functools
    rng = np.random.default_rng(case); chosen = [SMALL[k] for k in rng.permutation(len(SMALL))[:40]]
    pols = [ZernPol(m=m, n=n) for m, n in chosen]
    got = sorted(pols, key=functools.cmp_to_key(lambda a, b: 1 if a > b else (0 if a == b else -1)))
    require([p.get_mn_orders() for p in got] == sorted(chosen, key=lambda t: o.index_tables()[0][t]), "order after sorting", chosen)


@CHECK.enum("names", lambda tier: ["unique"])
def unique(case):
    names = {mn: ZernPol(m=mn[0], n=mn[1]).get_polynomial_name() for mn in o.all_orders(7)}
    seen = {}
    for mn, name in names.items():
        require(isinstance(name, str) and name.strip(), "no name", mn)
        require(name not in seen, "the same name for different polynomials", mn, seen.get(name), name)
        seen[name] = mn


@CHECK.enum("text_form", lambda tier: o.all_orders())
def text_form(case):
    m, n = case; zp = ZernPol(m=m, n=n); text = str(zp); name = zp.get_polynomial_name(); short = zp.get_polynomial_name(short=True)
    require(isinstance(text, str) and isinstance(short, str), "not a text", case)
    if n > 7:
        require(name == "" and short == "", "name of a polynomial of high order", case, name)
        return
    require(name in text, "the name is not in the text form", case, text)
    osa, noll, fringe = (t[(m, n)] for t in o.index_tables())
    rest = text.replace(name, "", 1); numbers = [int(x) for x in re.findall(r"-?\d+", rest)]
    require(sorted(numbers) == sorted([n, m, osa, noll, fringe]), "orders and indices in the text form", case, text)
    for label, value in (("n", n), ("m", m), ("OSA", osa), ("Noll", noll), ("Fringe", fringe)):
        require(re.search(rf"\b{label}\s*=\s*{value}\b", rest) is not None, f"{label} in the text form", case, text)
