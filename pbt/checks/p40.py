import contextlib
import io
import multiprocessing
import os
import re
import sys
import tempfile
import time
import warnings
from pathlib import Path

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from zernpy import (ZernPol, ZernPSF, fit_polynomials, fit_polynomials_vectors, force_get_psf_compilation, generate_phases_image, generate_polynomials,
                    generate_random_phases)
from zernpy.calculations import calc_psfs, calc_psfs_numba
from zernpy.utils.intmproc import DispenserManager

from ..core import Check, Discard, isolated, note, require
from .psf_common import any_points, make, odd, physical, terms

CHECK = Check("P40", "kernels of 3x3 to 27x27 of single polynomials, sums and Piston, both ways of calculation, with and without reports; settings around the limits of the notes; computations of "
              "2 to 4 workers for 8 to 700 parameters with generated delays, a counter of the really finished calls is read at each printed line; folders for saving; calls of all other parts; "
              "non-trivial: a report is requested",
              ["texts are compared by the words and numbers which they contain, not by their layout", "measured times are compared with each other and with the clock only"])
POINT = re.compile(r"[Cc]alculated point\s*#?\s*(\d+)\s+from\s+(\d+)\D*?(\d+)"); OVERALL = re.compile(r"[Oo]verall.*?:\s*([\d.]+)\s*(ms|sec)"); TIME = re.compile(r"(\d+)\s*sec")
TOOK = re.compile(r"took:?\s*([\d.]+)\s*(ms|sec)")


def printed(fn):
    """Result, printed text, elapsed ms."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = time.perf_counter(); result = fn(); t = 1000.0 * (time.perf_counter() - t)
    return result, out.getvalue(), t


def expected_points(total, limit):
    """Points announced: all up to 100 of them, then the first and each tenth, nothing for kernels which are larger."""
    if total <= 100:
        return list(range(1, total + 1))
    if total < limit:
        return [1] + list(range(10, total + 1, 10))
    return []


def check_points(text, total, limit, case):
    found = [tuple(map(int, t)) for t in POINT.findall(text)]
    require([p for p, _, _ in found] == expected_points(total, limit), "announced points aren't the calculated ones", case, [p for p, _, _ in found][:40], total)
    require(all(n == total for _, n, _ in found), "announced number of points isn't that of the kernel", case, sorted({n for _, n, _ in found}), total)
    require(len(re.findall("[Cc]alculated point", text)) == len(found), "report which isn't recognized", case, text[:300])
    return sum(ms for _, _, ms in found)


def in_ms(value, unit):
    return float(value) * (1000.0 if unit == "sec" else 1.0)


@CHECK.gen("kernel_reports", st.tuples(terms(6, 1, 3, limit=1.0), physical(0.2), odd(3, 27), any_points(24, 40), st.booleans(), st.booleans(), st.booleans()), quick=40, batch=40, share=4,
           nontrivial=lambda c: c[2] > 3)
def kernels(case):
    ts, phys, size, (nr, nphi), accelerated, normalized, suppress = case
    if not accelerated and size > 19 and len(ts) > 1:
        raise Discard()  # slow
    psf = make(ts, phys, size, nr, nphi); airy = len(ts) == 1 and ts[0][0][1] == 0 and not accelerated
    call = lambda **kw: psf.calculate_psf_kernel(normalized=normalized, accelerated=accelerated, suppress_warnings=suppress, **kw).copy()
    quiet, text, _ = printed(call)
    if size > 25 and not suppress and not accelerated and not airy:
        require("alculation may take" in text or "stimated calc" in text, "long calculation isn't announced", case, text[:200])
        require(not POINT.search(text) and not OVERALL.search(text), "report which isn't requested", case, text[:200])
    else:
        require(text.strip() == "", "something is printed without request", case, text[:200])
    again, text, elapsed = printed(lambda: call(verbose_info=True))
    require(np.array_equal(quiet, again), "report changes the kernel", case)
    total = size * size; part = check_points(text, 1 if airy and total <= 0 else total, 651 if accelerated else 301, case) if not airy else 0
    if airy:
        require(not POINT.search(text), "points of the Airy pattern aren't calculated one by one", case, text[:200])
    note("accelerated" if accelerated else "plain"); note("Airy" if airy else "one" if len(ts) == 1 else "sum"); note("all points" if total <= 100 else "each tenth" if total < (651 if accelerated else 301) else "no points")
    overall = OVERALL.findall(text)
    require(len(overall) == 1, "overall time isn't reported once", case, text[-200:])
    require(("alculation started" in text) == (total >= 301), "start of a calculation is announced for large kernels", case, text[:100], total)
    value = in_ms(*overall[0]); announced = len(POINT.findall(text))
    require(value <= elapsed + 12.0, "overall time is longer than the calculation", case, value, elapsed)
    require(part <= value + 0.5 * announced + 12.0, "points take longer than the calculation", case, part, value)


@CHECK.gen("functions_for_kernels", st.tuples(st.sampled_from(["one", "loops", "sum", "accelerated", "accelerated sum", "Airy"]), terms(5, 2, 3, n_min=1, limit=1.0), physical(0.2), st.integers(3, 18),
                                              any_points(24, 40), st.booleans()), quick=40, batch=40, share=2, nontrivial=lambda c: c[3] % 2 == 0)
def functions(case):
    """Sizes of any parity: an even one is enlarged, so are the announced numbers."""
    kind, ts, (na, wl, part), size, (nr, nphi), verbose = case; pols = [ZernPol(m=m, n=n) for (m, n), _ in ts]; cs = [c * wl for _, c in ts]; pixel = part * wl / (4 * na)
    common = dict(n_int_r_points=nr, n_int_phi_points=nphi, suppress_warns=True, verbose=verbose, kernel_size=size)
    call = {"one": lambda: calc_psfs.get_psf_kernel(pols[0], pixel, cs[0], wl, na, test_vectorized=True, **common),
            "loops": lambda: calc_psfs.get_psf_kernel(pols[0], pixel, cs[0], wl, na, **dict(common, kernel_size=3)),
            "Airy": lambda: calc_psfs.get_psf_kernel(pols[0], pixel, cs[0], wl, na, airy_pattern=True, **common),
            "sum": lambda: calc_psfs.get_psf_kernel_zerns(pols, np.asarray(cs) / wl, pixel, wl, na, **common),
            "accelerated": lambda: calc_psfs_numba.get_psf_kernel_comp(pols[0], pixel, float(cs[0]), wl, na, **common),
            "accelerated sum": lambda: calc_psfs_numba.get_psf_kernel_comp(tuple(pols), pixel, np.asarray(cs) / wl, wl, na, **common)}[kind]
    kernel, text, _ = printed(call); note(kind)
    if kind != "loops":
        require(kernel.shape == (size + 1 - size % 2,) * 2, "shape", case, kernel.shape)
    if verbose and kind not in ("loops", "Airy"):
        check_points(text, kernel.size, 651 if kind.startswith("acc") else 301, case)
        require(len(text.strip().splitlines()) == len(expected_points(kernel.size, 651 if kind.startswith("acc") else 301)), "other lines in the report", case, text[:300])
    else:
        require(not POINT.search(text) and text.strip() == "", "report without a reason", case, text[:200])


@CHECK.gen("notes_of_settings", st.tuples(st.integers(3, 90), st.one_of(st.integers(20, 700), st.sampled_from([270, 271, 369, 370])), st.one_of(st.integers(36, 700), st.sampled_from([260, 261, 339, 340]),
                                                                                                                 st.integers(255, 345)),
                                          st.booleans()), quick=300, nontrivial=lambda c: abs(c[1] - 320) <= 50 or c[0] % 2 == 0)
def settings(case):
    size, nr, nphi, props = case; psf = ZernPSF(ZernPol(m=1, n=3))
    if props:
        psf.set_physical_props(0.5, 0.5, 0.1, 0.2)
    _, text, _ = printed(lambda: psf.set_calculation_props(size, nr, nphi)); used = size + 1 - size % 2
    require(psf.kernel_size == used, "size", case, psf.kernel_size)
    slow = abs(nphi - 300) < 40 and abs(nr - 320) < 50 and used > 25; note("slow" if slow else "usual"); lines = text.strip().splitlines()
    require(len(lines) == (size % 2 == 0) + slow, "notes don't correspond to the settings", case, text)
    require(("odd" in text) == (size % 2 == 0), "note about an even size", case, text)
    found = TIME.findall(text)
    require(len(found) == slow and all(abs(int(t) - used * used * 0.0385) <= 1 for t in found), "estimated time", case, text)
    _, text, _ = printed(lambda: psf.set_physical_props(0.5, 0.5, 0.1, 0.2))
    require(text.strip() == "", "something is printed without request", case, text)


@CHECK.enum("estimated_times", lambda tier: [[kind, size, nr, nphi] for kind in ("one", "sum") for size, nr, nphi in ([25, 40, 36], [26, 20, 36], [27, 20, 300])]
            + ([["one", 27, 320, 36], ["one", 27, 271, 262], ["one", 27, 271, 259], ["sum", 27, 20, 38]] if tier != "quick" else []))
def estimated(case):
    kind, size, nr, nphi = case; pols = [ZernPol(m=1, n=3), ZernPol(m=0, n=2)]
    call = (lambda **kw: calc_psfs.get_psf_kernel(pols[0], 0.1, 0.05, 0.5, 0.5, kernel_size=size, n_int_r_points=nr, n_int_phi_points=nphi, test_vectorized=True, **kw)) if kind == "one" else \
        (lambda **kw: calc_psfs.get_psf_kernel_zerns(pols, np.asarray([0.1, 0.05]), 0.1, 0.5, 0.5, size, nr, nphi, **kw))
    if kind == "sum" and nphi + nr > 300:
        raise Discard()  # slow
    kernel, text, _ = printed(call); used = size + 1 - size % 2; normal = abs(nphi - 300) < 40 and abs(nr - 320) < 50
    require(kernel.shape == (used, used), "shape", case, kernel.shape)
    require(len(text.strip().splitlines()) == (used > 25), "note about a long calculation", case, text)
    if used > 25:
        found = TIME.findall(text)
        require(len(found) == normal and all(abs(int(t) - used * used * 0.0385) <= 1 for t in found), "estimated time", case, text)
        require(kind == "sum" or f"{used}x{used}" in text, "size in the note", case, text)
    if nr + nphi < 100:
        _, text, _ = printed(lambda: call(suppress_warns=True)); require(text.strip() == "", "notes aren't suppressed", case, text)


@CHECK.gen("parallel_kernels", st.tuples(terms(4, 1, 1, n_min=1, limit=0.5), physical(0.3), st.sampled_from([3, 5]), st.booleans()), quick=4, batch=10, share=1)
def parallel(case):
    ts, phys, size, normalized = case

    def do():
        psf = make(ts, phys, size, 20, 36)
        _, text, _ = printed(psf.initialize_parallel_workers); require(text.strip() == "", "something is printed at the start", case, text)
        try:
            kernel, text, elapsed = printed(lambda: psf.get_kernel_parallel(normalized))
        finally:
            _, after, _ = printed(psf.deinitialize_workers)
        found = [tuple(map(int, t)) for t in POINT.findall(text)]
        require([(p, n) for p, n, _ in found] == [(i, size * size) for i in range(1, size * size + 1)], "announced points aren't the calculated ones", case, text[:300])
        require(sum(ms for _, _, ms in found) <= elapsed + 0.5 * len(found) + 12.0, "points take longer than the calculation", case, elapsed)
        require(after.strip() == "", "something is printed at the release", case, after)
    isolated(do, 200.0)


class Watched(io.StringIO):
    """Stores how many calls are finished at the moment of each line."""

    def __init__(self, counter):
        super().__init__(); self.counter = counter; self.seen = []; self.rest = ""

    def write(self, text):
        done = self.counter.value; self.rest += text
        while "\n" in self.rest:
            line, self.rest = self.rest.split("\n", 1)
            if line.strip():
                self.seen.append((line, done))
        return len(text)


COUNTER = multiprocessing.Value("i", 0)


def counted(p):
    if p[1]:
        time.sleep(p[1])
    with COUNTER.get_lock():
        COUNTER.value += 1
    return p[0]


def delays(n, kind):
    return [0.03 if kind == "last slow" and i >= n - 2 or kind == "first slow" and i == 0 else 0.004 if kind == "equal" and n < 100 else 0.0005 if kind == "equal" else 0.0 for i in range(n)]


@CHECK.gen("progress_of_workers", st.tuples(st.integers(2, 4), st.lists(st.tuples(st.one_of(st.integers(8, 60), st.sampled_from([8, 100, 199, 201, 250, 400, 700])),
                                                                               st.sampled_from(["no", "last slow", "last slow", "first slow", "equal"])), min_size=1, max_size=3), st.booleans()),
           quick=16, batch=10, share=2, nontrivial=lambda c: c[2])
def workers(case):
    """Each announced percentage is reached at this moment, the end is announced once, after the last parameter."""
    n_workers, runs, verbose = case

    def do():
        params = lambda i: [(1000 * i + k, d) for k, d in enumerate(delays(*runs[i]))]
        manager, text, _ = printed(lambda: DispenserManager(compute_func=counted, params_list=params(0), n_workers=n_workers, verbose_info=verbose))
        numbers = [int(t) for t in re.findall(r"initialized:\s*(\d+)", text)]
        require(numbers == ([n_workers] if verbose else []) and (verbose or text.strip() == ""), "announced number of workers", case, text)
        try:
            for i, (n, _) in enumerate(runs):
                if i > 0:
                    manager.update_params(params(i))
                COUNTER.value = 0; out = Watched(COUNTER)
                with contextlib.redirect_stdout(out):
                    got = manager.compute()
                require(got == [k for k, _ in params(i)], "results", case, i)
                if not verbose:
                    require(not out.seen and not out.rest.strip(), "something is printed without request", case, out.seen[:3]); continue
                ends = [k for k, (line, _) in enumerate(out.seen) if "ompleted" in line]; last = 0
                require(len(ends) == 1, "end of the computation isn't announced once", case, out.seen[-6:])
                require(out.seen[ends[0]][1] == n, "end is announced before all parameters are done", case, out.seen[-6:])
                for line, done in out.seen:
                    for percent in map(int, re.findall(r"(\d+)\s*%", line)):
                        require(last + 10 <= percent <= 100, "percentages don't grow by tens", case, out.seen)
                        require(percent <= 100.0 * done / n + 0.5 + 1e-9 and (percent < 100 or done == n), "announced part isn't done", case, line, done, n)
                        require(percent <= last + 11 + 100.0 * n_workers / n, "percentages are left out", case, out.seen); last = percent
                require(100 <= last + 11 + 100.0 * n_workers / n, "percentages are left out", case, out.seen)
                for k, (line, _) in enumerate(out.seen):
                    require(k <= ends[0] or "100" in line, "progress after the end", case, out.seen[-6:])
        finally:
            _, text, _ = printed(manager.close); require(text.strip() == "", "something is printed at the release", case, text)
    isolated(do, 90.0)


@CHECK.gen("places_of_saved_files", st.tuples(st.sampled_from(["folder", "missing", "text", "path"]), terms(4, 1, 2, n_min=1), st.booleans()), quick=24, batch=30, share=1)
def saved(case):
    """The automatically chosen folder is named; a given one isn't commented."""
    where, ts, overwrite = case

    def do(folder):
        os.chdir(folder); psf = make(ts, [0.5, 0.5, 0.5], 3, 20, 36); psf.calculate_psf_kernel(suppress_warnings=True, accelerated=False)
        target = {"folder": folder, "missing": os.path.join(folder, "nothing"), "text": str(folder), "path": Path(folder)}[where]
        _, text, _ = printed(lambda: psf.save_json(target, overwrite=overwrite))
        file = Path(psf.json_file_path)
        require(file.is_file(), "no file", case, psf.json_file_path)
        if where == "missing":
            require(str(file.parent) in text and len(text.strip().splitlines()) == 1, "used folder isn't announced", case, text, str(file))
        else:
            require(text.strip() == "", "something is printed without request", case, text)
        other = ZernPSF(ZernPol(osa=5)); _, text, _ = printed(lambda: other.read_json(file)); require(text.strip() == "", "something is printed without request", case, text)
    with tempfile.TemporaryDirectory() as folder:
        isolated(lambda: do(folder), 60.0)


@CHECK.enum("compilation", lambda tier: [False, True, False], nontrivial=lambda c: c)
def compilation(case):
    (a, b), text, elapsed = printed(lambda: force_get_psf_compilation(verbose_report=case))
    require(a.kernel.size >= 1 and b.kernel.size == 9, "kernels", case)
    if not case:
        require(text.strip() == "", "something is printed without request", case, text); return
    took = TOOK.findall(text)
    require("started" in text and len(took) == 1 and text.index("started") < text.index("took"), "report of the compilation", case, text)
    require(in_ms(*took[0]) <= elapsed + 12.0, "reported time is longer than the compilation", case, took, elapsed)
    require(not POINT.search(text) and not OVERALL.search(text), "report which isn't requested", case, text)


def quiet_calls(g):
    """Calls without an own report, over all parts."""
    every = [(m, n) for n in range(12) for m in range(-n, n + 1, 2)]; m, n = every[int(g.integers(1, 66))]; k = int(g.integers(2, 6))
    pols = [ZernPol(m=a, n=b) for a, b in [every[i] for i in g.permutation(65)[:k] + 1]]; cs = [float(c) for c in g.uniform(-1, 1, k)]; zp = ZernPol(m=m, n=n)
    r = np.linspace(0, 1, 9); th = np.linspace(0, 6.2, 9); image = g.uniform(0, 200, (11, 11)); kernel = np.abs(g.normal(size=(5, 5)))
    high = ZernPol(m=int(g.choice([0, 2, -2])), n=int(g.choice([12, 26, 38, 42])))
    psf = ZernPSF(zp); several = ZernPSF(tuple(pols))
    return {
        "orders": lambda: (zp.get_mn_orders(), zp.get_indices(), zp.get_polynomial_name(), zp.get_polynomial_name(True), zp == pols[0], zp > pols[0], zp.normf()),
        "conversions": lambda: (ZernPol.osa2noll(7), ZernPol.osa2fringe(7), ZernPol.noll2osa(7), ZernPol.fringe2osa(7), ZernPol.get_osa_index(-1, 3), ZernPol.index2orders(osa_index=7)),
        "values": lambda: (zp.polynomial_value(r, th), zp.radial(r), zp.radial_dr(r), zp.triangular(th), zp.triangular_dtheta(th)),
        "exact equation": lambda: (zp.polynomial_value(0.5, 1.0, use_exact_eq=True), zp.radial_dr(0.5, use_exact_eq=True)), "high orders": lambda: (high.radial(0.9), high.radial_dr(0.9)),
        "sum": lambda: ZernPol.sum_zernikes(cs, pols, r, th), "surface": lambda: ZernPol.gen_zernikes_surface(cs, pols, 0.1, 0.2), "coordinates": lambda: (ZernPol.gen_polar_coordinates(0.1, 0.2), ZernPol.gen_equal_polar_mesh(20)),
        "set": lambda: generate_polynomials(int(g.integers(0, 32))), "random phases": lambda: generate_random_phases(3, 21, 20), "phases": lambda: generate_phases_image(tuple(pols), tuple(cs), 21, 20),
        "fit": lambda: fit_polynomials(image, tuple(pols)), "fit of vectors": lambda: fit_polynomials_vectors(tuple(pols), g.normal(size=40), g.uniform(0, 1, 40), g.uniform(0, 6.28, 40)),
        "profile": lambda: ZernPol.plot_profile(zp, use_defaults=False, polar_coordinates=ZernPol.gen_polar_coordinates(0.1, 0.2)), "figure": lambda: ZernPol.plot_sum_zernikes_on_fig(plt.figure(), cs, pols, use_defaults=False, zernikes_sum_surface=ZernPol.gen_zernikes_surface(cs, pols, 0.1, 0.2)),
        "settings": lambda: psf.set_physical_props(0.5, 0.5, 0.02, 0.1), "settings of several": lambda: several.set_physical_props(0.5, 0.5, tuple(0.01 * c for c in cs), 0.1), "precision": lambda: psf.set_calculation_props(5, 20, 36),
        "kernel": lambda: psf.calculate_psf_kernel(), "convolution": lambda: psf.convolute_img(image), "crop": lambda: psf.crop_kernel(0.05), "figure of a kernel": lambda: psf.plot_kernel(),
        "convolution of a disk": lambda: psf.visualize_convolution(3.0), "functions": lambda: (calc_psfs.convolute_img_psf(image, kernel), calc_psfs.get_kernel_size(zp, 0.1, 0.1, 0.5, 0.5), calc_psfs.get_bumped_circle(2.0))}


@CHECK.gen("silence", st.tuples(st.integers(0, 10 ** 6)), quick=12, batch=20, share=1)
def silence(case):
    calls = quiet_calls(np.random.default_rng(case[0]))
    for name, fn in calls.items():
        _, text, _ = printed(fn)
        require(text == "", "something is printed without request", case, name, text[:200]); plt.close("all")


@CHECK.enum("compared_performances", lambda tier: [[a, b] for a in range(0, 8) for b in range(a, 8)] + [[10, 14], [40, 41]])
def compared(case):
    """Reported numbers of polynomials, radii and times."""
    from zernpy.zernikepol import compare_performances
    low, high = case
    (direct, exact, used, radii), text, elapsed = printed(lambda: compare_performances(low, high))
    require(text == "", "something is printed without request", case, text)
    require(re.findall(r"\d+", used) == [str(sum(n + 1 for n in range(low, high + 1)))], "reported number of polynomials", case, used)
    require(re.findall(r"\d+", radii) == ["251"], "reported number of radii", case, radii)
    require(0 <= direct and 0 <= exact and direct + exact <= elapsed + 1, "reported times", case, direct, exact, elapsed)


@CHECK.enum("refused_calls", lambda tier: list(range(14)))
def refused(case):
    """An error is raised and not printed."""
    one, two = ZernPol(m=1, n=1), ZernPol(m=0, n=2); psf = ZernPSF(one); v = np.linspace(0, 1, 9)
    call = [lambda: fit_polynomials(np.ones((9, 9)), (one, two, one)), lambda: fit_polynomials(np.ones((9, 9)), ()), lambda: fit_polynomials(np.ones((2, 9)), (one,)), lambda: fit_polynomials(np.ones(9), (one,)),
            lambda: fit_polynomials_vectors((one, one), v, v, v), lambda: fit_polynomials(np.ones((9, 9)), (one,), crop_radius=0.2), lambda: ZernPol(m=2, n=3), lambda: ZernPol(osa=-1), lambda: one.radial(1.5),
            lambda: ZernPol.sum_zernikes([1.0], [one, two], 0.5, 0.5), lambda: ZernPSF([one, two, one]), lambda: psf.set_physical_props(2.0, 0.5, 0.1, 0.1), lambda: psf.set_calculation_props(2, 20, 36),
            lambda: DispenserManager(compute_func=counted, params_list=[])][case]

    def do():
        try:
            call()
        except (ValueError, TypeError):
            return True
        return False
    raised, text, _ = printed(do)
    require(raised, "no error", case); require(text == "", "something is printed without request", case, text)
