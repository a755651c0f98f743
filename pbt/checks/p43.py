import contextlib
import gc
import io
import math
import multiprocessing
import os
import shutil
import tempfile
import threading
import time
import tracemalloc
import warnings

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF, fit_polynomials, generate_phases_image, generate_polynomials
from zernpy.utils.intmproc import DispenserManager

from ..core import Check, note, require
from .p39 import CALLS, HEAVY, plt_show, rng_terms

CHECK = Check("P43", "the documented functions and methods called many times with other generated arguments each time, cycles of operations on PSF objects and on objects created and dropped, cycles of "
              "workers; memory, objects, open files, threads and processes between the cycles; non-trivial: every case",
              ["growth counts if it is found in each of ten successive periods", "coefficients of all radial orders are calculated before (they are kept on purpose)", "figures are closed after each plot"])
ROUNDS = 10


def state():
    gc.collect()
    return {"memory": tracemalloc.get_traced_memory()[0], "objects": len(gc.get_objects()), "files": len(os.listdir("/proc/self/fd")), "threads": threading.active_count(),
            "processes": len(multiprocessing.active_children()), "figures": len(plt.get_fignums())}


def settled(limit=15.0):
    """State after the end of threads and processes which are about to end."""
    end = time.monotonic() + limit; now = state()
    while time.monotonic() < end and (now["processes"] or now["threads"] > 1):
        time.sleep(0.05); now = state()
    return now


def bounded(cycle, n, label, case, allowed=None, wait=False):
    """The same n cycles again and again: nothing grows each time. Growth per period: memory 48 bytes per cycle (image processing of scipy keeps some), objects one per two cycles, others any."""
    allowed = {"memory": 48 * n + 600, "objects": n / 2, "files": 0, "threads": 0, "processes": 0, "figures": 0} | (allowed or {}); get = settled if wait else state
    tracemalloc.is_tracing() or tracemalloc.start(1)
    for i in range(max(3, n // 2)):
        cycle(i)
    now = get(); suspicious = set(allowed)
    for k in range(ROUNDS):
        for i in range(n):
            cycle(1000 * (k + 1) + i)
        after = get(); suspicious = {x for x in suspicious if after[x] - now[x] > allowed[x]}
        if not suspicious:
            return
        last = now; now = after
    require(False, f"{label}: grows with each use", case, {x: (last[x], now[x]) for x in suspicious})


@contextlib.contextmanager
def quiet():
    """Also the registers of given warnings, kept by Python, stay empty."""
    here = os.getcwd(); show, plt.show = plt.show, plt_show
    with tempfile.TemporaryDirectory() as folder, warnings.catch_warnings(), contextlib.redirect_stdout(None):
        warnings.simplefilter("ignore"); os.chdir(folder)
        try:
            yield folder
        finally:
            os.chdir(here); plt.show = show; plt.close("all")


WARM = []


def warm():
    """Coefficients of all orders, compiled functions and first plots."""
    if not WARM:
        WARM.append(1); tracemalloc.is_tracing() or tracemalloc.start(1)  # before, as kept coefficients can be replaced by others later
        for n in range(0, 43):
            for m in range(-n, n + 1, 2):
                p = ZernPol(m=m, n=n); p.radial(0.5); p.radial_dr(0.5)
        psf = ZernPSF(ZernPol(m=1, n=3)); psf.set_physical_props(0.5, 0.5, 0.1, 0.1); psf.set_calculation_props(3, 20, 36); psf.calculate_psf_kernel(suppress_warnings=True)


NAMES = [n for n in CALLS if n not in HEAVY and CALLS[n][2] > 0 and n not in ("ZernPSF.get_kernel_parallel",)]


@CHECK.enum("calls", lambda tier: [[n, k] for n in NAMES for k in (0, 1)], nontrivial=lambda c: True)
def calls(case):
    name, others = case; make, optional, weight = CALLS[name]; note(name); plots = weight < 0.2 or name.startswith("plot_zerns")
    with quiet() as folder:
        warm()

        def cycle(i):
            function, required = make(np.random.default_rng(i % 12 if "save" in name or "json" in name else i))  # Python keeps names of files
            given = {p: v[i % len(v)] for p, _, v in optional if v} if others and name not in ("ZernPol.plot_profile", "ZernPol.plot_sum_zernikes_on_fig") else {}
            if name == "ZernPol.plot_sum_zernikes_on_fig":
                given = {p: v[0] for p, _, v in optional if p in ("coefficients", "polynomials")}
            if name.startswith("calc_psfs") and "save" not in name:
                given |= {p: v[0] for k, (p, _, v) in enumerate(optional) if k in (0, 1) and v}
            if name.startswith("generate_random") or name == "generate_phases_image":
                given |= {"img_width": 5 + i % 3, "img_height": 6}
            try:
                function(*required, **given)
            except ValueError:
                pass
            plt.close("all")
            for entry in os.scandir(folder):
                shutil.rmtree(entry.path) if entry.is_dir() else os.remove(entry.path)
        n = 4 if plots else 12 if weight < 1 else 40
        # figures keep caches of their own
        bounded(cycle, n, name, case, {"memory": 60000 * n, "objects": 300 * n} if plots else {"memory": 250 * n} if "save" in name or "json" in name else {})


@CHECK.enum("radii_and_angles", lambda tier: list(range(43)), nontrivial=lambda c: True)
def radii(case):
    """Polynomials of one radial order for single radii and angles and arrays of them, others each time."""
    with quiet():
        warm(); pols = [ZernPol(m=m, n=case) for m in range(-case, case + 1, 2)]
        if len(pols) > 13:
            pols = [pols[i] for i in np.random.default_rng(case).permutation(len(pols))[:5]]

        def cycle(i):
            g = np.random.default_rng(i); r = g.random(); th = 6.28 * g.random(); v = g.random(3)
            for p in pols:
                p.radial(r); p.radial_dr(r); p.polynomial_value(r, th); p.triangular(th); p.triangular_dtheta(th); p.radial(v); p.radial_dr(v); p.polynomial_value(v, v)
                if case < 14:
                    p.radial(r, use_exact_eq=True); p.radial_dr(r, use_exact_eq=True)
        bounded(cycle, 10, f"polynomials of the order {case}", case, {"memory": 500})


STEPS = st.lists(st.sampled_from(["physical", "size", "calculate", "crop", "convolve", "save", "read", "refuse", "new", "text", "several", "image", "fit", "sum", "surface", "random order"]), min_size=1, max_size=7)


@CHECK.gen("cycles", st.tuples(STEPS, st.integers(0, 10 ** 6)), quick=9, batch=9, share=1, max_shrink=20, nontrivial=lambda c: True)
def cycles(case):
    """The same operations on the same objects (or on new ones), again and again, with other values."""
    steps, seed = case
    with quiet() as folder:
        warm(); pols = [ZernPol(m=1, n=3), ZernPol(m=0, n=2), ZernPol(m=-2, n=4)]; box = {}

        def start():
            box["one"] = ZernPSF(pols[0]); box["one"].set_physical_props(0.5, 0.5, 0.1, 0.1); box["one"].set_calculation_props(3, 20, 36)
            box["several"] = ZernPSF(tuple(pols)); box["several"].set_physical_props(0.5, 0.5, [0.1, 0.0, 0.05], 0.1); box["several"].set_calculation_props(3, 20, 36)
        start(); box["one"].save_json(folder, overwrite=True); path = box["one"].json_file_path; image = np.arange(99.0).reshape(9, 11)

        def cycle(i):
            g = np.random.default_rng([seed, i]); one, several = box["one"], box["several"]
            for s in steps:
                if s == "physical":
                    one.set_physical_props(float(g.uniform(0.3, 1)), float(g.uniform(0.4, 0.8)), float(g.choice([-0.3, -0.11, 0.07, 0.2])), float(g.uniform(0.01, 0.09))); one.set_calculation_props(3, 20, 36)
                elif s == "size":
                    one.set_calculation_props(int(g.choice([3, 5, 6])), 20, 36)
                elif s == "calculate":
                    one.calculate_psf_kernel(suppress_warnings=True, accelerated=bool(g.integers(2)), normalized=bool(g.integers(2)))
                elif s == "crop":
                    with contextlib.suppress(ValueError, IndexError):
                        one.crop_kernel(float(g.uniform(0.001, 0.5)))
                elif s == "convolve":
                    one.convolute_img(image)
                elif s == "save":
                    one.save_json(folder, overwrite=bool(g.integers(2)))
                    if one.json_file_path != path:
                        with contextlib.suppress(OSError):
                            os.remove(one.json_file_path)
                elif s == "read":
                    one.read_json(path)
                elif s == "refuse":
                    with contextlib.suppress(ValueError):
                        several.set_physical_props(0.5, 0.5, g.uniform(-1, 1, 5), 0.1)
                elif s == "new":
                    start(); one, several = box["one"], box["several"]
                elif s == "text":
                    p = ZernPol(osa=int(g.integers(60))); str(p); p.get_polynomial_name(); p.get_indices()
                elif s == "several":
                    several.set_physical_props(0.5, 0.5, g.uniform(-0.1, 0.1, 3), 0.1); several.set_calculation_props(3, 20, 36); several.calculate_psf_kernel(suppress_warnings=True, accelerated=False)
                elif s == "image":
                    generate_phases_image(tuple(pols), tuple(g.uniform(-1, 1, 3)), 7, 6)
                elif s == "fit":
                    fit_polynomials(g.normal(size=(9, 9)), tuple(generate_polynomials(2)), suppress_warnings=True)
                elif s == "sum":
                    ZernPol.sum_zernikes(g.uniform(-1, 1, 3), pols, g.random(6), g.random(6))
                elif s == "surface":
                    ZernPol.gen_zernikes_surface(g.uniform(-1, 1, 3), pols, float(g.uniform(0.1, 0.3)), 0.5)
                else:
                    n = int(g.integers(0, 43)); p = ZernPol(m=int(g.choice(np.arange(-n, n + 1, 2))), n=n); p.polynomial_value(g.random(3), g.random(3)); p.radial_dr(g.random(3)); p.radial(float(g.random()), use_exact_eq=True)
            note(steps[0])
        bounded(cycle, 12, "cycle of operations", case, {"memory": 48 * 12 + 600 + 250 * 12 * sum(s in ("save", "read") for s in steps)})  # Python itself keeps names of files


WORK = st.tuples(st.integers(2, 3), st.lists(st.sampled_from(["compute", "update", "close", "close twice", "drop", "refuse", "report"]), min_size=1, max_size=4), st.sampled_from(["each time", "once"]))


@CHECK.gen("workers", WORK, quick=8, batch=4, share=1, max_shrink=8, nontrivial=lambda c: True)
def workers(case):
    number, steps, how = case; note(how)
    with quiet():
        box = []

        def cycle(i):
            if not box:
                box.append(DispenserManager(math.sqrt, [float(x) for x in range(5)], number))
            m = box[0]
            for s in steps:
                if s == "compute":
                    m.compute()
                elif s == "update":
                    m.update_params([float(x) for x in range(90 + (i + 1) % 9)]); m.compute()
                elif s == "refuse":
                    for wrong in ([], [1.0]):
                        with contextlib.suppress(TypeError, ValueError):
                            m.update_params(wrong)
                elif s == "report":
                    m.get_max_workers()
                elif how == "each time":
                    if s != "drop":
                        m.close()
                    if s == "close twice":
                        m.close()
            if how == "each time":
                if steps[-1] != "drop":
                    m.close()
                box.clear(); del m
        # workers which live as long as the object
        kept = settled
        if how == "once":
            cycle(0); t0 = threading.active_count(); p0 = len(multiprocessing.active_children())

            def kept_state():
                gc.collect(); now = state(); return now
            n = 6
            bounded(cycle, n, "computing by the same workers", case, {"memory": 4000, "objects": 60})
            require(len(multiprocessing.active_children()) <= p0 and threading.active_count() <= t0 + number, "more workers than created", case)
            box[0].close(); box.clear()
        else:
            bounded(cycle, 3, "creating and closing of workers", case, {"memory": 6000, "objects": 60}, wait=True)
        end = settled(); require(end["processes"] == 0, "workers are left", case, end)


@CHECK.enum("parallel_kernels", lambda tier: [[n, h] for n in (3, 5) for h in ("released", "again", "dropped")], nontrivial=lambda c: True)
def kernels(case):
    """Workers of a PSF object: released, initialized once more without the release, or left with the object."""
    number, how = case  # size of the kernel
    with quiet():
        box = []

        def cycle(i):
            if not box or how != "again":
                psf = ZernPSF(ZernPol(m=1, n=3)); psf.set_physical_props(0.5, 0.5, 0.1, 0.1); psf.set_calculation_props(number, 20, 36); box[:] = [psf]
            psf = box[0]; psf.initialize_parallel_workers(); psf.get_kernel_parallel()
            if how == "released":
                psf.deinitialize_workers()
            if how == "dropped":
                box.clear(); del psf
        if how == "again":
            for i in range(2):
                cycle(i)
            sizes = []
            for k in range(4):
                cycle(k); time.sleep(0.5); gc.collect(); sizes.append([len(multiprocessing.active_children()), len(os.listdir("/proc/self/fd"))])
            require(sizes[-1][0] <= sizes[0][0] and sizes[-1][1] <= sizes[0][1] + 2, "workers of earlier initializations are kept", case, sizes)
            box[0].deinitialize_workers(); box.clear()
        else:
            bounded(cycle, 2, "parallel calculation of kernels", case, {"memory": 6000, "objects": 60}, wait=True)
        end = settled(); require(end["processes"] == 0, "workers are left", case, end)
