import sys
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF, fit_polynomials, fit_polynomials_vectors, generate_phases_image

from .. import oracles as o
from ..core import Check, isolated, note, require
from ..gens import orders
from ..schedule import Schedule
from .psf_common import make, pixel_of

CHECK = Check("P37", "generated sets of 2 to 6 jobs (values, derivatives, sums, surfaces, images, fits, kernels of separate PSF objects, convolutions, cropping) on new or shared polynomials, "
              "every job run several times in its own thread while the others run, threads switched every few microseconds; non-trivial: at least 2 jobs of the same kind with different data",
              ["each case runs in a fresh process", "half of the schedules are generated (one thread at a time, switches before lines or operations of the package), the others those of the interpreter with a switch interval of 1 us", "one PSF object is not used by two threads"])
REPEATS = 6


def low():
    return st.one_of(orders(12), orders(20))


def job():
    seed = st.integers(0, 10 ** 6); sizes = st.integers(1, 400)
    return st.one_of(st.tuples(st.sampled_from(["radial", "radial_dr", "value", "angular"]), st.lists(low(), min_size=1, max_size=3), seed, sizes),
                     st.tuples(st.sampled_from(["sum", "surface"]), st.lists(low(), min_size=1, max_size=4), seed, st.integers(1, 60)),
                     st.tuples(st.sampled_from(["image", "fit", "fit vectors"]), st.lists(orders(6), min_size=1, max_size=4, unique_by=tuple), seed, st.integers(9, 30)),
                     st.tuples(st.sampled_from(["kernel", "kernels", "convolve"]), st.lists(orders(6, 1), min_size=2, max_size=3, unique_by=tuple), seed, st.integers(0, 3)))


def same_kind():
    kinds = ["radial", "radial_dr", "value", "angular", "sum", "surface"]
    return st.sampled_from(kinds).flatmap(lambda k: st.lists(st.tuples(st.just(k), st.lists(low(), min_size=1, max_size=2), st.integers(0, 10 ** 6), st.integers(20, 60)), min_size=2, max_size=5))


def jobs():
    return st.one_of(st.lists(job(), min_size=2, max_size=6), same_kind(), job().flatmap(lambda j: st.lists(st.tuples(st.just(j[0]), st.just(j[1]), st.integers(0, 10 ** 6), st.just(j[3])), min_size=2, max_size=5)))


def prepare(spec, shared, pool):
    """Function without arguments which does the job anew and returns arrays."""
    kind, mns, seed, size = spec; rng = np.random.default_rng(seed)
    pols = [pool.setdefault(tuple(mn), ZernPol(m=mn[0], n=mn[1])) if shared else ZernPol(m=mn[0], n=mn[1]) for mn in mns]
    c = list(rng.normal(size=len(pols)))
    if kind in ("radial", "radial_dr", "value", "angular"):
        r, th = rng.uniform(0, 1, size), rng.uniform(0, 6.28, size); scalar = float(rng.uniform(0, 1))
        if kind == "value":
            return lambda: [p.polynomial_value(r, th) for p in pols] + [p.polynomial_value(scalar, 1.0) for p in pols]
        if kind == "angular":
            return lambda: [p.triangular(th) for p in pols] + [p.triangular_dtheta(th) for p in pols]
        return lambda: [getattr(p, kind)(r) for p in pols] + [getattr(p, kind)(scalar) for p in pols] + [getattr(p, kind)(r, use_exact_eq=True) for p in pols]
    if kind == "sum":
        r, th = rng.uniform(0, 1, size), rng.uniform(0, 6.28, size)
        return lambda: [ZernPol.sum_zernikes(c, pols, r, th)]
    if kind == "surface":
        r, th = np.sort(rng.uniform(0, 1, size)), np.sort(rng.uniform(0, 6.28, size // 2 + 1))
        return lambda: [ZernPol.sum_zernikes(c, pols, r, th, get_surface=True)]
    if kind == "image":
        return lambda: [generate_phases_image(tuple(pols), tuple(c), img_width=size, img_height=size + seed % 3)]
    if kind == "fit":
        image = rng.normal(size=(size, size))
        return lambda: [np.asarray(x) for x in fit_polynomials(image, tuple(pols), return_cropped_image=True, suppress_warnings=True, round_digits=8)]
    if kind == "fit vectors":
        r, th, v = rng.uniform(0, 1, 4 * size), rng.uniform(0, 6.28, 4 * size), rng.normal(size=4 * size)
        return lambda: [fit_polynomials_vectors(tuple(pols), v, r, th, round_digits=8)]
    phys = [float(rng.uniform(0.3, 1.2)), float(rng.uniform(0.4, 0.9)), float(rng.uniform(0.3, 0.95))]; ts = [[mn, float(rng.uniform(-0.6, 0.6))] for mn in mns]
    if kind == "kernel" or (kind == "convolve" and seed % 2):
        ts = ts[:1]
    points = [int(rng.integers(20, 30)), 2 * int(rng.integers(18, 25))]
    psf = make(ts, phys, 3 + 2 * (size % 2), *points); normalized = bool(seed % 2)
    if shared:
        psf = ZernPSF(pols[0] if len(ts) == 1 else tuple(pols))
        psf.set_physical_props(phys[0], phys[1], ts[0][1] if len(ts) == 1 else tuple(t[1] for t in ts), pixel_of(phys)); psf.set_calculation_props(3 + 2 * (size % 2), *points)
    image = rng.uniform(0, 200, (9 + size, 11))

    def kernels():
        k = psf.calculate_psf_kernel(suppress_warnings=True, normalized=normalized, accelerated=False)
        return [k] + ([psf.convolute_img(image)] if kind == "convolve" else [])
    return kernels


def schedules():
    """None: as the interpreter does it; otherwise seed, rate of switching and whether also inside of lines."""
    return st.one_of(st.none(), st.tuples(st.integers(0, 10 ** 6), st.sampled_from([0.003, 0.02, 0.1, 0.4]), st.booleans()))


def run_all(works, schedule, limit):
    """Functions in threads; under the given schedule or with very frequent switches."""
    if schedule is not None:
        s = Schedule(*schedule); ended = s.run(works, limit)
        note("schedule followed to the end" if not s.free or s.complete else "schedule given up"); note(f"switches {len(str(s.switches))} digits")
        return ended
    before = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
    start = threading.Barrier(len(works))

    def body(w):
        start.wait(30); w()
    try:
        threads = [threading.Thread(target=body, args=(w,), daemon=True) for w in works]
        for t in threads:
            t.start()
        for t in threads:
            t.join(limit)
    finally:
        sys.setswitchinterval(before)
    return not any(t.is_alive() for t in threads)


def decide(specs, shared, schedule):
    warnings.simplefilter("ignore"); pool = {}
    work = [prepare(s, shared, pool) for s in specs]
    first_in_threads = bool(specs[0][2] % 2)  # otherwise anything cached is already there
    if not first_in_threads:
        alone = [[np.array(x) for x in w()] for w in work]
    results = [[] for _ in work]; errors = [None] * len(work)
    fast = [s[0] in ("kernel", "kernels", "convolve") for s in specs]

    def run(k):
        try:
            for _ in range(2 if fast[k] or schedule else REPEATS):
                results[k].append([np.array(x) for x in work[k]()])
        except BaseException as e:  # reported below
            errors[k] = f"{type(e).__name__}: {e}"
    require(run_all([lambda k=k: run(k) for k in range(len(work))], schedule, 100), "a thread does not end", specs)
    if first_in_threads:
        alone = [[np.array(x) for x in w()] for w in work]
    for k, spec in enumerate(specs):
        require(errors[k] is None, "error only when other threads run", spec, errors[k])
        for one in results[k]:
            require(len(one) == len(alone[k]) and all(a.shape == b.shape for a, b in zip(one, alone[k])), "shapes of results", spec)
            for a, b in zip(one, alone[k]):
                top = np.max(np.abs(b), initial=1.0)
                require(np.all(np.abs(a - b) <= 1e-9 * top) or np.array_equal(a, b), "the result depends on other threads", spec, specs, float(np.max(np.abs(a - b), initial=0.0)))


def rich(case):
    kinds = [s[0] for s in case[0]]
    return any(kinds.count(k) > 1 for k in kinds)


@CHECK.gen("jobs_in_threads", st.tuples(jobs(), st.booleans(), schedules()), quick=110, nontrivial=rich, max_shrink=30)
def in_threads(case):
    specs, shared, schedule = case
    for k in sorted({s[0] for s in specs}):
        note(k)
    note("shared polynomials" if shared else "own polynomials")
    isolated(lambda: decide(specs, shared, schedule), 150)


KINDS = {"radial": 30, "radial_dr": 30, "value": 30, "angular": 30, "sum": 20, "surface": 12, "image": 11, "fit": 11, "fit vectors": 12, "kernel": 0, "kernels": 0, "convolve": 0}


def each_kind(tier):
    for kind, size in KINDS.items():
        for rate in (0.005, 0.02, 0.1, 0.4):
            for seed in range(2 if tier == "quick" else 12):  # also decides whether anything is calculated before
                for number in (2,) if tier == "quick" else (2, 3):
                    yield [[[kind, [[1, 3], [-2, 4]], 3 * seed + 100 * k, size] for k in range(number)], False, [seed, rate, rate < 0.05 and bool(seed % 3)]]


@CHECK.enum("each_kind_against_itself", each_kind, nontrivial=rich)
def against_itself(case):
    in_threads(case)


@CHECK.gen("accelerated_kernels", st.tuples(st.lists(st.tuples(st.lists(st.tuples(orders(6, 1), st.floats(-0.6, 0.6)), min_size=1, max_size=2, unique_by=lambda t: tuple(t[0])),
                                                             st.tuples(st.floats(0.3, 1.2), st.floats(0.4, 0.9), st.floats(0.3, 0.95))), min_size=2, max_size=4), st.booleans()),
           quick=6, batch=10, share=2, max_shrink=30)
def accelerated(case):
    specs, normalized = case
    psfs = [make(ts, phys, 9, 30, 40) for ts, phys in specs]; got = [[] for _ in psfs]; start = threading.Barrier(len(psfs))
    call = lambda p: p.calculate_psf_kernel(suppress_warnings=True, normalized=normalized, accelerated=True).copy()
    call(psfs[0])  # compilation

    def run(k):
        start.wait(60)
        for _ in range(4):
            got[k].append(call(psfs[k]))
    before = sys.getswitchinterval(); sys.setswitchinterval(2e-6)
    try:
        threads = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(len(psfs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(200)
    finally:
        sys.setswitchinterval(before)
    for k, p in enumerate(psfs):
        want = call(make(*specs[k], 9, 30, 40))
        require(len(got[k]) == 4, "calculation failed only when other threads run", case, k)
        require(all(np.all(np.abs(g - want) <= 1e-9) for g in got[k]), "the kernel depends on other threads", case, k)


def decide_cold(mns, seeds, derivative, schedule):
    """Nothing is cached when the threads start; all of them need the same intermediate results."""
    warnings.simplefilter("ignore"); wrong = []; name = "radial_dr" if derivative else "radial"; r = np.array([0.3, 0.77, 1.0])
    objects = [[(m, n, ZernPol(m=m, n=n)) for m, n in np.random.default_rng(s).permutation(mns).tolist()] if s else [(m, n, ZernPol(m=m, n=n)) for m, n in mns] for s in seeds]

    def run(k):
        try:
            for m, n, zp in objects[k]:
                wrong.append((k, m, n, getattr(zp, name)(r)))
        except BaseException as e:
            wrong.append((k, None, None, f"{type(e).__name__}: {e}"))
    require(run_all([lambda k=k: run(k) for k in range(len(seeds))], schedule, 60), "a thread does not end", mns)
    exact, tol = (o.dR_array, o.tol_dR) if derivative else (o.R_array, o.tol_R)
    for k, m, n, got in wrong:
        require(m is not None, "error only when other threads run", got)
        require(np.all(np.abs(got - exact(m, n, r)) <= tol(m, n, r)), "wrong values when other threads run", (m, n), got.tolist())
    require(len(wrong) == sum(map(len, objects)), "results are missing", len(wrong))


@CHECK.gen("cold_start", st.tuples(st.lists(orders(36, 12), min_size=6, max_size=40), st.lists(st.integers(0, 5), min_size=2, max_size=6), st.booleans(), schedules()), quick=40, max_shrink=30,
           nontrivial=lambda c: len({tuple(x) for x in c[0]}) >= 5)
def cold(case):
    isolated(lambda: decide_cold(*case), 100)
