from hypothesis import strategies as st

from zernpy import ZernPol

from .. import oracles as o
from ..core import Check, require, note
from ..gens import orders

CHECK = Check("P01", "all 1540 supported (m, n) x every keyword alias of orders, OSA, Noll and Fringe numbers, plus generated chains that rebuild a "
              "polynomial through several aliases; every case is non-trivial (a polynomial is built and all its numbers compared with tables "
              "enumerated from the definition of each scheme)", scale=4)
N_KEYS = ["n", "radial_order"]
M_KEYS = ["m", "l", "azimuthal_order", "angular_frequency"]
INDEX_KEYS = {"osa": 0, "osa_index": 0, "ansi": 0, "ansi_index": 0, "noll": 1, "noll_index": 1, "fringe": 2, "fringe_index": 2}


def expected(m, n):
    return tuple(t[(m, n)] for t in o.index_tables())


def check_pol(zp, m, n, how):
    indices = zp.get_indices()
    require(isinstance(indices, tuple) and len(indices) == 4, "get_indices() is a tuple of 4", how)
    (m1, n1), osa, noll, fringe = indices
    require((m1, n1) == (m, n) and tuple(zp.get_mn_orders()) == (m, n), "orders differ", how, (m1, n1), zp.get_mn_orders(), (m, n))
    require((osa, noll, fringe) == expected(m, n), "indices differ (OSA, Noll, Fringe)", how, (osa, noll, fringe), expected(m, n))
    for v in (m1, n1, osa, noll, fringe, *zp.get_mn_orders()):
        require(type(v) is int, "not a plain integer", how, type(v))


@CHECK.enum("all_polynomials_all_aliases", lambda tier: [[m, n] for m, n in o.all_orders()])
def all_aliases(case):
    m, n = case; numbers = expected(m, n)
    for nk in N_KEYS:
        for mk in M_KEYS:
            check_pol(ZernPol(**{nk: n, mk: m}), m, n, [nk, mk])
            check_pol(ZernPol(**{mk: m, nk: n}), m, n, [mk, nk])
    for key, which in INDEX_KEYS.items():
        check_pol(ZernPol(**{key: numbers[which]}), m, n, key)


@CHECK.enum("static_index_functions", lambda tier: [[m, n] for m, n in o.all_orders()])
def static_functions(case):
    m, n = case
    got = (ZernPol.get_osa_index(m, n), ZernPol.get_noll_index(m, n), ZernPol.get_fringe_index(m, n))
    require(got == expected(m, n), "index functions (OSA, Noll, Fringe)", got, expected(m, n))
    for v in got:
        require(type(v) is int, "not a plain integer", type(v))


@CHECK.gen("rebuild_chain", st.tuples(orders(), st.lists(st.sampled_from(sorted(INDEX_KEYS) + ["orders"]), min_size=2, max_size=8)), quick=300,
           nontrivial=lambda c: len(set(c[1])) > 1)
def rebuild_chain(case):
    """What one polynomial reports is a valid specification of the same polynomial by any other keyword."""
    (m, n), keys = case; zp = ZernPol(m=m, n=n)
    for key in keys:
        note(key)
        (m1, n1), osa, noll, fringe = zp.get_indices()
        zp = ZernPol(azimuthal_order=m1, radial_order=n1) if key == "orders" else ZernPol(**{key: (osa, noll, fringe)[INDEX_KEYS[key]]})
        check_pol(zp, m, n, keys)
