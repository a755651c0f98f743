import numpy as np
from hypothesis import strategies as st

from .. import oracles as o
from ..core import TIER, Check, note, require
from ..gens import orders
from .psf_common import any_points, asymmetric, calculate, check_close, make, odd, physical, pixel_of, relative_coefficient

CHECK = Check("P22", "every polynomial with n <= 10 alone, generated sets of 2 to 3 (thorough: 5) of them, coefficients to +-3 wavelengths, generated physical and calculation "
              "settings; sets with a polynomial of order above 10 for the refusal; non-trivial: a polynomial other than Piston with a coefficient other than 0")
LOW = [[m, n] for n in range(11) for m in range(-n, n + 1, 2)]


def compare(ts, phys, size, nr, nphi, case):
    plain = calculate(make(ts, phys, size, nr, nphi)); fast = calculate(make(ts, phys, size, nr, nphi), accelerated=True)
    if len(ts) == 1 and ts[0][0] == [0, 0]:
        note("Piston"); na, wl, _ = phys
        scheme = o.psf_kernel([[0, 0]], [ts[0][1] * wl], na, wl, pixel_of(phys), size, o.quadrature(nr, nphi))
        near = (np.abs(fast - scheme) <= 1e-9) | (np.abs(fast - plain) <= 1e-9)
        require(np.all(near), "accelerated Airy pattern differs from the quadrature", case)
    else:
        check_close(fast, plain, 1e-9, "accelerated kernel differs from the plain one", case)


@CHECK.enum("every_polynomial", lambda tier: [[mn, c, phys, nr, nphi] for k, mn in enumerate(LOW)
                                              for c, phys, nr, nphi in [(0.45 + 0.01 * k, [0.9, 0.55, 0.95], 20 + k, 36 + 2 * (k % 9)), (-1.7, [0.3, 1.1, 0.6], 27, 40)]])
def every(case):
    mn, c, phys, nr, nphi = case
    compare([[mn, c]], phys, 3, nr, nphi, case)


@CHECK.gen("single", st.tuples(st.sampled_from(LOW), relative_coefficient(), physical(), odd(3, 7), any_points()), quick=80, nontrivial=lambda c: c[0] != [0, 0] and c[1] != 0, share=1)
def single(case):
    mn, c, phys, size, (nr, nphi) = case
    compare([[mn, c]], phys, size, nr, nphi, case)


def several_terms():
    top = 5 if TIER[0] == "thorough" else 3
    return st.lists(st.tuples(st.sampled_from(LOW), relative_coefficient()), min_size=2, max_size=top, unique_by=lambda t: tuple(t[0]))


@CHECK.gen("several", lambda: st.tuples(several_terms(), physical(), odd(3, 5), any_points(40, 60)), quick=70, nontrivial=lambda c: asymmetric(c[0]), share=2, batch=150)
def several(case):
    ts, phys, size, (nr, nphi) = case; note(f"{len(ts)} polynomials")
    compare(ts, phys, size, nr, nphi, case)


@CHECK.enum("every_polynomial_in_a_pair", lambda tier: [[[mn, 0.37], [LOW[(7 * k + 5) % len(LOW)], -0.61]] for k, mn in enumerate(LOW) if LOW[(7 * k + 5) % len(LOW)] != mn])
def pairs(case):
    compare(case, [0.8, 0.5, 0.9], 3, 22, 36, case)


@CHECK.gen("higher_orders_refused", st.tuples(orders(54, 11), st.integers(0, 2), st.lists(st.sampled_from(LOW), min_size=2, max_size=2, unique_by=tuple), relative_coefficient(), physical()), quick=60)
def refused(case):
    mn, position, others, c, phys = case
    ts = [[mn, c]] if position == 0 else [[mn, c], [others[0], 0.3]] if position == 1 else [[others[0], 0.3], [others[1], 0.1], [mn, c]]
    psf = make(ts, phys, 3, 20, 36)
    for normalized in (True, False):
        try:
            k = calculate(psf, accelerated=True, normalized=normalized)
        except ValueError:
            continue
        require(False, "accelerated calculation of a higher order returned a kernel", case, np.asarray(k).tolist())


@CHECK.gen("larger_kernels", st.tuples(st.lists(st.tuples(st.sampled_from(LOW[1:]), relative_coefficient()), min_size=1, max_size=2, unique_by=lambda t: tuple(t[0])), physical(), odd(9, 35)), quick=60,
           nontrivial=lambda c: asymmetric(c[0]), batch=20, max_shrink=40)
def larger(case):
    """Elements far from the centre; the plain calculation (slow) is only repeated if the scheme computed by the oracle is not met."""
    ts, phys, size = case; na, wl, _ = phys
    fast = calculate(make(ts, phys, size, 20, 36), accelerated=True)
    scheme = o.psf_kernel([t[0] for t in ts], [t[1] * wl for t in ts], na, wl, pixel_of(phys), size, o.quadrature(20, 36))
    if fast.shape != scheme.shape or not np.all(np.abs(fast - scheme) <= 1e-9):
        note("compared with the plain kernel"); compare(ts, phys, size, 20, 36, case)


@CHECK.enum("numbers_of_polynomials", lambda tier: [[k, s] for k in ((4, 5, 7, 12) if tier == "quick" else range(4, 25)) for s in (0, 1)])
def numbers(case):
    """Every number of polynomials is compiled separately."""
    k, seed = case; rng = np.random.default_rng(100 * seed + k); chosen = [LOW[i] for i in rng.permutation(len(LOW))[:k]]
    compare([[mn, float(rng.uniform(-0.5, 0.5))] for mn in chosen], [0.7, 0.6, 0.9], 3, 22 + seed, 36 + 2 * seed, case)
