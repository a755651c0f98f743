import multiprocessing
import time

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF

from ..core import Check, isolated, note, require
from ..gens import orders
from .psf_common import any_points, check_close, odd, physical, pixel_of, relative_coefficient

CHECK = Check("P31", "generated histories (2 to 8 operations: new settings, parallel and sequential kernels, release of workers) over 1 to 3 PSF objects with one polynomial (1 <= n <= 20) "
              "each, kernel sizes 3 and 5, every case in a process of its own with a time limit; non-trivial: settings are changed after workers are started, or more than one object",
              ["at most 4 workers and 8 processors; polynomials other than Piston; objects whose workers are released aren't asked for parallel kernels"])
SETTINGS = st.tuples(relative_coefficient(1.5), physical(), odd(3, 3), any_points(30, 48))
OP = st.one_of(st.tuples(st.just("set"), st.integers(0, 2), SETTINGS), st.tuples(st.just("parallel"), st.integers(0, 2), st.booleans()), st.tuples(st.just("parallel"), st.integers(0, 2), st.booleans()),
               st.tuples(st.just("sequential"), st.integers(0, 2), st.booleans()), st.tuples(st.just("release"), st.integers(0, 2), st.just(0)))


def apply(psf, s):
    c, phys, size, (nr, nphi) = s
    psf.set_physical_props(phys[0], phys[1], c * phys[1], pixel_of(phys)); psf.set_calculation_props(size, nr, nphi)


def history(case):
    pols, first, ops = case; objs = [ZernPSF(ZernPol(m=m, n=n)) for m, n in pols]; started = [False] * len(objs); released = [False] * len(objs); now = [first] * len(objs)
    for x in objs:
        apply(x, first)
    ops = ops + [["parallel", k, True] for k in range(len(objs))] + [["release", k, 0] for k in range(len(objs))]
    for what, k, arg in ops:
        k %= len(objs); psf = objs[k]; note(what)
        if what == "set":
            apply(psf, arg); now[k] = arg
        elif what == "release":
            if started[k]:
                psf.deinitialize_workers(); released[k] = True
        elif what == "parallel":
            if released[k]:
                continue
            if not started[k]:
                psf.initialize_parallel_workers(); started[k] = True
            got = np.array(psf.get_kernel_parallel(normalize_values=arg)); require(np.array_equal(psf.kernel, got, equal_nan=True), "stored kernel", case)
            new = ZernPSF(ZernPol(m=pols[k][0], n=pols[k][1])); apply(new, now[k])
            want = new.calculate_psf_kernel(suppress_warnings=True, normalized=arg, accelerated=False)
            if np.all(np.isfinite(want)):
                check_close(got, want, 1e-9, "parallel kernel differs from the sequential one", case)
        else:
            new = ZernPSF(ZernPol(m=pols[k][0], n=pols[k][1])); apply(new, now[k]); kw = dict(suppress_warnings=True, normalized=arg, accelerated=False)
            check_close(psf.calculate_psf_kernel(**kw), new.calculate_psf_kernel(**kw), 1e-9, "sequential kernel depends on the history", case)
    limit = time.monotonic() + 15
    while multiprocessing.active_children() and time.monotonic() < limit:
        time.sleep(0.02)
    require(not multiprocessing.active_children(), "workers are left running after the release", case)


@CHECK.gen("histories", st.tuples(st.lists(orders(20, 1), min_size=1, max_size=3), SETTINGS, st.lists(OP, min_size=2, max_size=8)), quick=22, batch=15, max_shrink=150,
           nontrivial=lambda c: len(c[0]) > 1 or any(o[0] == "set" for o in c[2]))
def histories(case):
    isolated(lambda: history(case), 120.0)


@CHECK.gen("one_kernel", st.tuples(orders(20, 1), st.tuples(relative_coefficient(3.0), physical(), odd(3, 5), any_points(60, 80)), st.booleans()), quick=14, batch=15, max_shrink=100,
           nontrivial=lambda c: c[1][0] != 0)
def one(case):
    mn, settings, normalized = case
    isolated(lambda: history([[mn], settings, [["parallel", 0, normalized]]]), 120.0)


@CHECK.gen("larger_kernels", st.tuples(orders(10, 1), st.tuples(relative_coefficient(1.0), physical(), odd(7, 17), any_points(26, 40)), st.booleans()), quick=2, batch=6, max_shrink=20)
def larger(case):
    mn, settings, normalized = case
    isolated(lambda: history([[mn], settings, [["parallel", 0, normalized]]]), 150.0)
