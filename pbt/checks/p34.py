from hypothesis import strategies as st

from zernpy.calculations.find_pols_coeffs import find_coeffs_orders, find_coeffs_orders_dr

from .. import oracles as o
from ..core import Check, isolated, note, require
from ..gens import orders

CHECK = Check("P34", "all orders with n <= 60 for both functions and both starting sets in increasing and decreasing order, generated sequences (1 to 25) of requests in fresh processes; "
              "non-trivial: more than one request, or a polynomial of order above 10",
              ["results are compared without powers with coefficients 0"], scale=3)


def clean(d):
    return {k: v for k, v in d.items() if v != 0}


def ask(what, m, n, test, case):
    got = (find_coeffs_orders_dr if what else find_coeffs_orders)((m, n), test) if test else (find_coeffs_orders_dr if what else find_coeffs_orders)((m, n))
    want = clean((o.derivative_coeffs if what else o.radial_coeffs)(m, n)); require(isinstance(got, dict), "result isn't a dictionary", case)
    require(all(type(k) is int and type(v) is int for k, v in got.items()), "powers and coefficients aren't integers", case, got)
    require(clean(got) == want, f"coefficients of {'the derivative of ' if what else ''}{(m, n)}", case, got, want)
    return got, want


def request(n_max):
    return st.tuples(st.booleans(), orders(n_max), st.sampled_from([False, False, True]))


@CHECK.enum("all_orders", lambda tier: [[what, [m, n], test] for test in (False, True) for what in (False, True) for m, n in o.all_orders(60 if tier == "quick" else 100)],
            nontrivial=lambda c: c[1][1] > 10)
def every(case):
    what, (m, n), test = case; ask(what, m, n, test, case)


@CHECK.enum("from_high_to_low", lambda tier: [[what, test, parity] for what in (False, True) for test in (False, True) for parity in (0, 1)])
def downwards(case):
    what, test, parity = case

    def run():
        for m, n in reversed(o.all_orders(48)):
            if n % 2 == parity:
                ask(what, m, n, test, case)
    isolated(run, 60.0)


@CHECK.gen("histories", st.lists(request(60), min_size=1, max_size=25), quick=250, batch=200, nontrivial=lambda c: len(c) > 1)
def histories(case):
    def run():
        results = []
        for what, (m, n), test in case:
            note(("derivative" if what else "radial") + (", test set" if test else "")); results.append(ask(what, m, n, test, case))
        for (got, want), r in zip(results, case):
            require(clean(got) == want, "a result returned earlier is changed", case, r)
    isolated(run, 60.0)
