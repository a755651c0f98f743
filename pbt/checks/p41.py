import contextlib
import copy
import gc
import io
import json
import locale
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF, fit_polynomials, fit_polynomials_vectors, generate_phases_image
from zernpy.calculations import calc_psfs

from .. import boot
from ..core import Check, note, require
from .p39 import CALLS, CHOICES, HEAVY, copied, plain, plt_show, same

CHECK = Check("P41", "the documented functions and methods with generated required and optional arguments, arrays of arguments writable or read-only, random state and other process-wide settings "
              "set to generated values before; import of the package in fresh processes; non-trivial: every case",
              ["figures are allowed to be opened by plotting functions, the interactive mode of matplotlib to be switched on by plots of kernels", "files are allowed to be written by saving functions only"])
PLOTS = ("plot", "visualize", "show_kernel")


def settings():
    """Process-wide settings which no calculation has to change."""
    params = {k: copy.deepcopy(v) for k, v in dict.items(matplotlib.rcParams)}
    return {"random state": random.getstate(), "random state of numpy": [np.array(x) if isinstance(x, np.ndarray) else x for x in np.random.get_state()], "float errors": [np.geterr(), str(np.geterrcall())],
            "printing of arrays": json.dumps(np.get_printoptions(), default=str), "filters of warnings": list(warnings.filters), "showing of warnings": [warnings.showwarning, warnings.formatwarning],
            "current folder": os.getcwd(), "environment": dict(os.environ), "signals": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)],
            "limits": [sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold()], "path": list(sys.path), "hooks": [sys.excepthook, sys.displayhook, threading.excepthook],
            "locale": [locale.setlocale(locale.LC_NUMERIC), locale.setlocale(locale.LC_TIME)], "start of processes": multiprocessing.get_start_method(allow_none=True),
            "settings of figures": {k: v for k, v in params.items() if k not in ("backend", "interactive")}, "hook of figures": [plt.show, plt.rcParams is matplotlib.rcParams]}


def listed(folder):
    return sorted(os.path.relpath(os.path.join(base, n), folder) for base, ds, names in os.walk(folder) for n in names + ds)


def frozen(v):
    """Copy of an argument for the comparison."""
    if isinstance(v, np.ndarray):
        return ("array", v.copy(), v.dtype.str, v.shape, v.strides, v.flags.writeable)
    if isinstance(v, ZernPol):
        return ("polynomial", v.get_indices(), str(v))
    if isinstance(v, ZernPSF):
        return ("PSF", v.NA, v.wavelength, v.kernel_size, v.kernel.copy())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [frozen(x) for x in v])
    if isinstance(v, dict):
        return ("dict", [(k, frozen(x)) for k, x in v.items()])
    return ("figure",) if isinstance(v, plt.Figure) else (type(v).__name__, repr(v))


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(b, np.ndarray) and isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    return a is b or a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b)


def read_only(v):
    if isinstance(v, np.ndarray):
        v.flags.writeable = False
    elif isinstance(v, (list, tuple)):
        for x in v:
            read_only(x)


def ended(threads):
    """No processes and not more threads than before: those which are about to end get the time for it."""
    limit = time.monotonic() + 20
    while (multiprocessing.active_children() or threading.active_count() > threads) and time.monotonic() < limit:
        time.sleep(0.02); gc.collect()
    return not multiprocessing.active_children() and threading.active_count() <= threads


def decide(name, seed, given, locked, how, case):
    here = os.getcwd(); show, plt.show = plt.show, plt_show; optional = CALLS[name][1]; state = settings(); saved_errors = np.geterr(); note(name)
    with tempfile.TemporaryDirectory() as folder, warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore"); os.chdir(folder)
        try:
            plt.close("all"); g = np.random.default_rng(seed); function, required = CALLS[name][0](g)
            kwargs = {parameter: others[given[k] % len(others)] for k, (parameter, _, others) in enumerate(optional) if k in given and others}
            kwargs = copy.deepcopy(kwargs)
            if locked:
                read_only(required); read_only(list(kwargs.values()))
            # settings which differ from the usual ones
            random.seed(seed); np.random.seed(seed % 2 ** 32); random.gauss(0, 1); np.random.standard_normal(how)  # a stored second number as well
            np.set_printoptions(precision=3 + how); np.seterr(all=["ignore", "warn"][how % 2]); warnings.filterwarnings(["ignore", "default", "once"][how % 3], message="something else")
            plt.rcParams["lines.linewidth"] = 1.5 + how; figure = plt.figure("own") if how % 2 else None
            before = settings(); args_before = frozen([required, kwargs]); files_before = listed(folder); figures_before = set(plt.get_fignums()); threads = threading.active_count()
            err = None
            try:
                function(*required, **kwargs)
            except ValueError as e:
                err = e
            after = settings()
            if name == "generate_random_phases":
                before.pop("random state"); after.pop("random state")  # its purpose; P17
            for what in before:
                require(equal(before[what], after[what]), f"{name} changes: {what}", case, str(before[what])[:150], str(after[what])[:150])
            require(equal(args_before, frozen([required, kwargs])), f"{name} changes its arguments", case, str(args_before)[:200], str(frozen([required, kwargs]))[:200])
            if not ("save" in name):
                require(listed(folder) == files_before, f"{name} leaves files", case, listed(folder))
            figures = set(plt.get_fignums())
            require(figures_before <= figures, f"{name} closes figures", case)
            if not any(p in name for p in PLOTS) and not kwargs.get("show_kernel"):
                require(figures == figures_before, f"{name} leaves figures", case)
            if name.startswith("plot_zerns.subplot") or name.endswith("plot_sum_zernikes_on_fig"):
                require(figures == figures_before, "more figures than the given one", case)
            require(ended(threads), f"{name} leaves threads or processes", case, threading.enumerate(), multiprocessing.active_children())
            if err is not None:
                note("refused")
        finally:
            os.chdir(here); plt.show = show; plt.close("all"); plt.rcParams["lines.linewidth"] = state["settings of figures"]["lines.linewidth"]
            np.seterr(**saved_errors); options = json.loads(state["printing of arrays"]); np.set_printoptions(precision=options["precision"])


@CHECK.enum("nothing_given", lambda tier: [[name, locked, how] for name in CALLS if name not in HEAVY for locked in (False, True) for how in ((0, 1, 2) if CALLS[name][2] >= 1 else (1,))
                                           if name != "calc_psfs_numba.get_psf_kernel_comp" or not locked], nontrivial=lambda c: True)
def nothing(case):
    name, locked, how = case; given = {0: 0, 1: 0} if name.startswith("calc_psfs") and name != "calc_psfs.save_psf" else {}
    decide(name, 31 + how, given, locked, how, case)


@CHECK.gen("subsets", st.tuples(st.sampled_from(CHOICES), st.integers(0, 10 ** 6), st.dictionaries(st.integers(0, 11), st.integers(0, 2), max_size=11), st.booleans(), st.integers(0, 5)),
           quick=250, batch=100, max_shrink=60, share=2, nontrivial=lambda c: True)
def subsets(case):
    name, seed, given, locked, how = case; given = {int(k): v for k, v in dict(given).items()}
    for k in HEAVY.get(name, ()):
        given.setdefault(k, 0)
    if name.startswith("calc_psfs") and name != "calc_psfs.save_psf":
        for k in (0, 1):
            given.setdefault(k, 0)
    if name == "generate_phases_image" and ((0 in given) != (1 in given)):
        given.pop(0, None); given.pop(1, None)
    decide(name, seed, given, locked, how, case)


KINDS = ["float64", "float32", "int64", "uint8", "uint16"]


@CHECK.gen("arrays_of_any_kind", st.tuples(st.sampled_from(["fit", "vectors", "convolution", "convolution of a PSF", "sum", "surface", "coefficients", "phases"]), st.integers(0, 10 ** 6), st.sampled_from(KINDS),
                                           st.sampled_from(["contiguous", "Fortran", "reversed", "part"]), st.booleans()), quick=250, share=1, nontrivial=lambda c: c[3] != "contiguous" or c[4])
def arrays(case):
    """Arguments stay as they were, and read-only ones give the same results."""
    kind, seed, dtype, layout, locked = case; g = np.random.default_rng(seed); base = []

    def made(*shape, low=0.0, high=200.0, dt=dtype):
        a = g.uniform(low, high, tuple(2 * s for s in shape)).astype(dt); base.append(a)
        part = a[tuple(slice(0, s) for s in shape)]
        if layout == "contiguous":
            part = np.ascontiguousarray(part)
        elif layout == "Fortran":
            part = np.asfortranarray(part)
        elif layout == "reversed":
            part = a[tuple(slice(None, None, -2) for _ in shape)]
        base.append(part); return part
    every = [(m, n) for n in range(5) for m in range(-n, n + 1, 2)]; pols = [ZernPol(m=every[i][0], n=every[i][1]) for i in g.permutation(15)[:3]]
    if kind == "fit":
        image = made(int(g.integers(5, 14)), int(g.integers(5, 14))); call = lambda: fit_polynomials(image, tuple(pols), suppress_warnings=True, return_cropped_image=True)
    elif kind == "vectors":
        v, r, th = made(40), made(40, low=0, high=1, dt="float64"), made(40, low=0, high=6.2, dt="float64"); call = lambda: fit_polynomials_vectors(tuple(pols), v, r, th)
    elif kind == "convolution":
        image, kernel = made(9, 8), made(3, 5, low=0, high=1, dt="float64"); call = lambda: calc_psfs.convolute_img_psf(image, kernel, bool(seed % 2))
    elif kind == "convolution of a PSF":
        image = made(9, 8); psf = ZernPSF(pols[0]); psf.kernel = made(5, 5, low=0, high=1, dt="float64"); psf.kernel_size = 5; call = lambda: psf.convolute_img(image, bool(seed % 2))
    elif kind == "sum":
        c, r, th = made(3, low=-2, high=2, dt="float64"), made(7, low=0, high=1, dt="float64"), made(7, low=0, high=6.2, dt="float64"); call = lambda: ZernPol.sum_zernikes(c, pols, r, th)
    elif kind == "surface":
        c, r, th = made(3, low=-2, high=2, dt="float64"), made(7, low=0, high=1, dt="float64"), made(5, low=0, high=6.2, dt="float64"); call = lambda: ZernPol.sum_zernikes(c, pols, r, th, get_surface=True)
    elif kind == "coefficients":
        c = made(3, low=0.01, high=0.1, dt="float64"); psf = ZernPSF(tuple(pols))

        def call():
            psf.set_physical_props(0.5, 0.5, c, 0.1); psf.set_calculation_props(5, 20, 36); return psf.calculate_psf_kernel(suppress_warnings=True, accelerated=False), psf.coefficients
    else:
        c = made(3, low=-1, high=1, dt="float64"); call = lambda: generate_phases_image(tuple(pols), c, 7, 8)
    note(kind); before = [a.copy() for a in base]
    want = copied(plain(call()))
    require(all(equal(a, b) for a, b in zip(before, base)), f"{kind}: arguments are changed", case)
    if locked:
        for a in base:
            a.flags.writeable = False
    again = call()
    require(same(plain(again), want) if not isinstance(want, list) else all(same(x, y) for x, y in zip(plain(again), want)), f"{kind}: another result of the second call", case, str(again)[:200], str(want)[:200])
    require(all(equal(a, b) for a, b in zip(before, base)), f"{kind}: arguments are changed", case)
    # what is returned isn't a part of the arguments
    if kind not in ("coefficients",):
        for x in (again if isinstance(again, tuple) else (again,)):
            require(not isinstance(x, np.ndarray) or not any(np.shares_memory(x, a) for a in base), f"{kind}: result shares memory with an argument", case)


@CHECK.enum("import", lambda tier: ["zernpy", "zernpy.zernikepol", "zernpy.zernpsf", "zernpy.calculations.calc_psfs", "zernpy.utils.intmproc", "zernpy.plotting.plot_zerns"], nontrivial=lambda c: True)
def importing(case):
    """Importing doesn't change anything, writes nothing, prints nothing, starts nothing."""
    script = f'''
import sys, os, json
for p in ({boot.HYPOTHESIS_SITE!r},):
    if p not in sys.path: sys.path.append(p)
import numpy as np, scipy.signal, scipy.ndimage, scipy.special, matplotlib, matplotlib.pyplot as plt, multiprocessing, random, numba, threading, warnings, signal, gc, locale, copy
from matplotlib import patches
sys.path.insert(0, {os.path.join(boot.REPO, "src")!r})
random.seed(5); np.random.seed(7); np.set_printoptions(precision=5); plt.rcParams["lines.linewidth"] = 2.5; plt.figure("own")
def settings():
    return repr([random.getstate(), np.random.get_state(), np.geterr(), np.get_printoptions(), list(warnings.filters), warnings.showwarning, os.getcwd(), sorted(os.environ.items()),
        [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)], sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), sys.excepthook, sys.displayhook, sys.stdout, sys.stderr,
        locale.setlocale(locale.LC_ALL), multiprocessing.get_start_method(allow_none=True), sorted((k, str(v)) for k, v in dict.items(matplotlib.rcParams) if k != "backend"), plt.isinteractive(),
        plt.get_fignums(), threading.active_count(), len(multiprocessing.active_children()), sys.path])
before = settings()
import {case}
after = settings()
if before != after:
    k = next((i for i, (a, b) in enumerate(zip(before, after)) if a != b), 0)
    print("CHANGED", before[max(0, k - 60):k + 60], "->", after[max(0, k - 60):k + 60])
'''
    with tempfile.TemporaryDirectory() as folder:
        r = subprocess.run([sys.executable, "-B", "-c", script], cwd=folder, capture_output=True, text=True, timeout=120)
        require(r.returncode == 0, "import failed", case, r.stderr[-500:])
        require(r.stdout.strip() == "" and r.stderr.strip() == "", "import isn't without effects", case, r.stdout[:400], r.stderr[:400])
        require(os.listdir(folder) == [], "import leaves files", case, os.listdir(folder))


def unchanged(call, arguments, label, case):
    """The call with these arguments, which may be refused; arguments and settings are compared."""
    before = frozen(arguments); state = settings(); threads = threading.active_count(); figures = plt.get_fignums()
    with warnings.catch_warnings(record=True), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always"); inner = settings()["filters of warnings"]
        try:
            call(*arguments)
        except (ValueError, np.linalg.LinAlgError, TypeError, ArithmeticError) as e:
            note(f"refused: {type(e).__name__}")
        require(equal(inner, list(warnings.filters)), f"{label} changes filters of warnings", case)
    after = settings()
    for what in state:
        require(equal(state[what], after[what]), f"{label} changes: {what}", case, str(state[what])[:150], str(after[what])[:150])
    require(equal(before, frozen(arguments)), f"{label} changes its arguments", case, str(before)[:300], str(frozen(arguments))[:300])
    require(ended(threads) and plt.get_fignums() == figures, f"{label} leaves something", case)


@CHECK.gen("unusual_arguments", st.tuples(st.sampled_from(["order", "sum", "surface", "shown surface", "vectors", "image", "convolution", "phases", "PSF", "orders of a list"]), st.integers(0, 10 ** 6),
                                          st.sampled_from(["list", "tuple", "array"]), st.sampled_from(["zeros", "last zero", "not finite", "outside", "equal", "large", "usual"])), quick=250, batch=100, share=1,
           nontrivial=lambda c: c[3] != "usual")
def unusual(case):
    kind, seed, container, what, = case; g = np.random.default_rng(seed); note(f"{kind}, {what}")
    form = {"list": list, "tuple": tuple, "array": np.array}[container]; pair = {"list": list, "tuple": tuple, "array": tuple}[container]
    every = [(m, n) for n in range(7) for m in range(-n, n + 1, 2)]; k = int(g.integers(2, 6)); pols = [ZernPol(m=every[i][0], n=every[i][1]) for i in g.permutation(len(every))[:k]]

    def values(n, low=-1.0, high=1.0):
        v = g.uniform(low, high, n)
        if what == "zeros":
            v[:] = 0.0
        elif what == "last zero":
            v[-int(g.integers(1, n)):] = 0.0
        elif what == "not finite":
            v.flat[int(g.integers(v.size))] = g.choice([np.nan, np.inf, -np.inf])
        elif what == "equal":
            v[:] = v.flat[0]
        elif what == "large":
            v *= 1e6
        return v
    r, th = g.uniform(0, 1, 8), g.uniform(0, 6.2, 8)
    if what == "outside":
        th = g.uniform(-8, 15, 8)
        if g.integers(3) == 0:
            r[int(g.integers(8))] = float(g.choice([1.0005, 1.2, -0.1]))
    numbers = form(values(k).tolist())
    if kind == "order":
        n = int(g.integers(44, 55)); m = int(g.choice(np.arange(-n, n + 1, 2))) if n <= 46 else int(g.choice([n, -n, n - 2, 2 - n])); pol = ZernPol(m=m, n=n); one = bool(g.integers(2))
        call, arguments = [pol.polynomial_value, pol.radial, pol.radial_dr][int(g.integers(3))], [form(r) if not one else 0.3]
        if call == pol.polynomial_value:
            arguments.append(form(th) if not one else 0.7)
        arguments.append(bool(g.integers(2)))
    elif kind == "sum":
        call, arguments = ZernPol.sum_zernikes, [numbers, pair(pols), form(r.tolist()), form(th.tolist())]
    elif kind == "surface":
        call, arguments = ZernPol.sum_zernikes, [numbers, pair(pols), r, th[:5], True]
    elif kind == "shown surface":
        call, arguments = ZernPol.gen_zernikes_surface, [numbers, pair(pols), 0.2, 0.5]
    elif kind == "vectors":
        call, arguments = fit_polynomials_vectors, [pair(pols), values(40), np.tile(r, 5), np.concatenate([th, g.uniform(0, 6.2, 32)])]
    elif kind == "image":
        call, arguments = fit_polynomials, [values(int(g.integers(3, 12)) * 9).reshape(-1, 9), pair(pols), 0.5 + 0.5 * float(g.random()), bool(seed % 2)]
    elif kind == "convolution":
        call, arguments = calc_psfs.convolute_img_psf, [values(90).reshape(10, 9), values(15, 0.0, 1.0).reshape(3, 5), bool(seed % 2)]
    elif kind == "phases":
        call, arguments = generate_phases_image, [pair(pols), numbers, int(g.integers(1, 9)), int(g.integers(1, 9))]
    elif kind == "PSF":
        numbers = form([0.05 * float(x) for x in numbers])

        def call(pols, numbers, image):
            psf = ZernPSF(pols); psf.set_physical_props(0.5, 0.5, numbers, 0.1); psf.set_calculation_props(3, 20, 36); psf.calculate_psf_kernel(accelerated=False); psf.crop_kernel(0.1)
            psf.convolute_img(image)
        arguments = [pair(pols), numbers, values(64).reshape(8, 8)]
    else:
        call, arguments = (lambda p: [str(x) + x.get_polynomial_name() for x in sorted(p)] + [p[0] == p[-1], p[0] > p[-1]]), [pols]
    unchanged(call, arguments, kind, case)


@CHECK.enum("opened_figures", lambda tier: [[name, number] for name in CALLS if any(p in name for p in PLOTS) for number in (1, 3, 21, 30)], nontrivial=lambda c: True)
def opened(case):
    """Figures of the user, whatever their number, stay as they were while others are plotted."""
    name, number = case; g = np.random.default_rng(number); show, plt.show = plt.show, plt_show
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            plt.close("all"); function, required = CALLS[name][0](g); kwargs = {}
            if name == "ZernPol.plot_sum_zernikes_on_fig":
                kwargs = {"coefficients": [0.5, -0.2], "polynomials": [ZernPol(osa=3), ZernPol(osa=7)]}
            own = []
            for i in range(number):
                f = plt.figure(f"own {i}", figsize=(3, 2)); f.add_subplot().plot([1, i]); f.suptitle(f"title {i}"); own.append(f)
            before = [(f.number, len(f.axes), f.axes[0].lines[0].get_ydata().tolist(), f.texts[0].get_text(), f.get_size_inches().tolist()) for f in own]
            function(*required, **kwargs)
            require(all(plt.fignum_exists(f.number) for f in own), f"{name} closes figures", case, plt.get_fignums())
            after = [(f.number, len(f.axes), [x.get_ydata().tolist() for x in f.axes[0].lines][0] if f.axes and f.axes[0].lines else None, f.texts[0].get_text() if f.texts else None, f.get_size_inches().tolist()) for f in own]
            require(before == after, f"{name} changes figures of the user", case, [x for x in zip(before, after) if x[0] != x[1]])
        finally:
            plt.close("all"); plt.show = show
