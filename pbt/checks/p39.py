import contextlib
import io
import json
import os
import random
import re
import tempfile
import warnings

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from zernpy import (ZernPol, ZernPSF, fit_polynomials, fit_polynomials_vectors, force_get_psf_compilation, generate_phases_image, generate_polynomials,
                    generate_random_phases)
from zernpy.calculations import calc_psfs, calc_psfs_numba, find_pols_coeffs
from zernpy.plotting import plot_zerns

from ..core import Check, Discard, note, require

CHECK = Check("P39", "every documented function and method with optional arguments, generated required arguments, every subset of the optional ones given, a generated number of them by "
              "position; objects without any settings; non-trivial: at least one optional argument is left out or given by position",
              ["values, warnings, printed texts (times removed), figures (pixels) and written files are compared", "the default step of angles, pi/240 or pi/180, is accepted rounded or not"])


def plt_show(*args, **kwargs):
    pass


def rng_terms(g, low, high, n_max=5):
    every = [(m, n) for n in range(n_max + 1) for m in range(-n, n + 1, 2)]; k = int(g.integers(low, high + 1))
    return [ZernPol(m=every[i][0], n=every[i][1]) for i in g.permutation(len(every))[:k]], [round(float(c), 3) for c in g.uniform(-1, 1, k)]


def settled(g, several=None, accelerated=None):
    """PSF object with generated settings; the kernel border is anything."""
    several = bool(g.integers(2)) if several is None else several
    pols, cs = rng_terms(g, 2 if several else 1, 3 if several else 1, 4); na = float(g.uniform(0.3, 1.2)); wl = float(g.uniform(0.4, 0.8))
    psf = ZernPSF(tuple(pols) if several else pols[0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        psf.set_physical_props(na, wl, tuple(0.3 * c for c in cs) if several else 0.3 * cs[0], 0.8 * wl / (4 * na)); psf.set_calculation_props(int(g.choice([5, 7])), 20 + int(g.integers(4)), 36 + int(g.integers(6)))
        if accelerated is not None:
            psf.calculate_psf_kernel(suppress_warnings=True, accelerated=accelerated)
    return psf


def surface(g, down=4):
    r = np.linspace(0, 1, int(g.integers(down, 9))); th = np.linspace(0, 2 * np.pi, int(g.integers(down, 12)))
    return g.normal(size=(r.size, th.size)), r, th


CALLS = {}


def call(name, *optional, weight=1):
    """Register: the function gets a generator of random numbers and returns (callable, required arguments); optional - (name, default, others)."""
    def add(fn):
        CALLS[name] = (fn, optional, weight); return fn
    return add


@call("ZernPol.polynomial_value", ("use_exact_eq", False, [True]))
def _(g):
    return rng_terms(g, 1, 1, 45)[0][0].polynomial_value, [g.random(5), 6 * g.random(5)]


@call("ZernPol.radial", ("use_exact_eq", False, [True]))
def _(g):
    return rng_terms(g, 1, 1, 45)[0][0].radial, [g.random(5)]


@call("ZernPol.radial_dr", ("use_exact_eq", False, [True]))
def _(g):
    return rng_terms(g, 1, 1, 45)[0][0].radial_dr, [g.random(5)]


@call("ZernPol.get_polynomial_name", ("short", False, [True]))
def _(g):
    return rng_terms(g, 1, 1, 8)[0][0].get_polynomial_name, []


@call("ZernPol.sum_zernikes", ("get_surface", False, [True]))
def _(g):
    pols, cs = rng_terms(g, 1, 4, 14)
    return ZernPol.sum_zernikes, [cs, pols, g.random(6), 6 * g.random(6)]


STEP = {"theta_rad_step 240": [round(np.pi / 240, 7), np.pi / 240], "theta_rad_step 180": [round(np.pi / 180, 7), np.pi / 180]}


@call("ZernPol.gen_polar_coordinates", ("r_step", 0.01, [0.02, 0.1]), ("theta_rad_step", STEP["theta_rad_step 240"], [0.1, 0.02]))
def _(g):
    return ZernPol.gen_polar_coordinates, []


@call("ZernPol.gen_equal_polar_mesh", ("n_points", 250, [249, 7]))
def _(g):
    return ZernPol.gen_equal_polar_mesh, []


@call("ZernPol.gen_zernikes_surface", ("r_step", 0.01, [0.1, 0.02]), ("theta_rad_step", STEP["theta_rad_step 180"], [0.2, 0.1]), ("equal_n_coordinates", False, [True]), ("n_points", 250, [9, 100]))
def _(g):
    pols, cs = rng_terms(g, 1, 3)
    return ZernPol.gen_zernikes_surface, [cs, pols]


@call("ZernPol.plot_profile", ("color_map", "coolwarm", ["viridis", "jet"]), ("show_title", True, [False]), ("use_defaults", True, [False]), ("projection", "2d", ["3d", "2D"]),
      ("polar_coordinates", (), [ZernPol.gen_polar_coordinates(0.1, 0.3), ZernPol.gen_equal_polar_mesh(8)]), weight=0.1)
def _(g):
    return ZernPol.plot_profile, [rng_terms(g, 1, 1)[0][0]]


@call("ZernPol.plot_sum_zernikes_on_fig", ("coefficients", (), [[0.5, -0.2]]), ("polynomials", (), [[ZernPol(osa=3), ZernPol(osa=7)]]), ("use_defaults", True, [False]),
      ("zernikes_sum_surface", (), [ZernPol.gen_zernikes_surface([0.3, 1.0], [ZernPol(osa=4), ZernPol(osa=8)], 0.1, 0.3)]), ("show_range", True, [False]), ("color_map", "coolwarm", ["viridis"]),
      ("projection", "2d", ["3d"]), weight=0.15)
def _(g):
    return ZernPol.plot_sum_zernikes_on_fig, [plt.figure(figsize=(3, 3))]


@call("generate_polynomials", ("max_order", 10, [3, 9, 11]))
def _(g):
    return generate_polynomials, []


@call("generate_random_phases", ("max_order", 4, [2, 5]), ("img_width", 513, [4, 9]), ("img_height", 513, [5, 8]), ("round_digits", 4, [1, 8]), weight=0.3)
def _(g):
    def size_and_set(*args, **kwargs):
        image, amplitudes, polynomials = generate_random_phases(*args, **kwargs); return image.shape, len(amplitudes), polynomials
    return size_and_set, []


@call("generate_phases_image", ("polynomials", (), [tuple(ZernPol(osa=k) for k in (2, 4))]), ("polynomials_amplitudes", (), [(0.5, -1.25)]), ("img_width", 513, [4, 9]), ("img_height", 513, [5, 8]), weight=0.3)
def _(g):
    return generate_phases_image, []


@call("fit_polynomials", ("crop_radius", 1.0, [0.9, 0.6]), ("suppress_warnings", False, [True]), ("strict_circle_border", False, [True]), ("round_digits", 4, [1, 9]), ("return_cropped_image", False, [True]), weight=2)
def _(g):
    return fit_polynomials, [g.normal(size=(int(g.integers(7, 20)), int(g.integers(7, 20)))), tuple(rng_terms(g, 2, 5, 3)[0])]


@call("fit_polynomials_vectors", ("round_digits", 4, [1, 3, 9]))
def _(g):
    r, th = np.sqrt(g.random(60)), 6.28 * g.random(60)
    return fit_polynomials_vectors, [tuple(rng_terms(g, 2, 5, 3)[0]), g.normal(size=60), r, th]


@call("force_get_psf_compilation", ("verbose_report", False, [True]), weight=0)
def _(g):
    return lambda *a, **k: [p.kernel.copy() for p in force_get_psf_compilation(*a, **k)], []


@call("ZernPSF.calculate_psf_kernel", ("suppress_warnings", False, [True]), ("normalized", True, [False]), ("verbose_info", False, [True]), ("accelerated", None, [True, False]), weight=0.5)
def _(g):
    return settled(g).calculate_psf_kernel, []


@call("ZernPSF.plot_kernel", ("id_str", "", ["id", "7"]), weight=0.1)
def _(g):
    return settled(g, accelerated=True).plot_kernel, []


@call("ZernPSF.convolute_img", ("scale2original", True, [False]))
def _(g):
    return settled(g, accelerated=True).convolute_img, [g.integers(0, 200, (8, 9)).astype("uint8") if g.integers(2) else g.random((9, 8))]


@call("ZernPSF.visualize_convolution", ("radius", 4.0, [3.0, 5.5]), ("max_intensity", 255, [254, 1000]), weight=0.1)
def _(g):
    return settled(g, accelerated=True).visualize_convolution, []


@call("ZernPSF.crop_kernel", ("min_part_of_max", 0.01, [0.2, 0.05]))
def _(g):
    psf = settled(g); k = np.zeros((15, 15)); d = np.abs(np.arange(15) - 7); k[:] = 10.0 ** (-0.5 * np.maximum(d[:, None], d[None, :])) * g.uniform(0.8, 1.0, (15, 15)); k[7, 7] = 1.0
    psf.kernel = k; psf.kernel_size = 15

    def crop(*args, **kwargs):
        out = psf.crop_kernel(*args, **kwargs); return out, psf.kernel, psf.kernel_size
    return crop, []


@call("ZernPSF.save_json", ("overwrite", False, [True]))
def _(g):
    psf = settled(g, accelerated=True); folder = os.path.join(os.getcwd(), "out"); os.mkdir(folder); psf.save_json(abs_path=folder); psf.calculate_psf_kernel(suppress_warnings=True, normalized=False)
    return lambda *a, **k: psf.save_json(folder, *a, **k), []


@call("ZernPSF.read_json", ("abs_path", "the stored path", []))
def _(g):
    psf = settled(g, accelerated=True); folder = os.path.join(os.getcwd(), "out"); os.mkdir(folder); psf.save_json(abs_path=folder); psf.kernel = np.zeros((3, 3)); path = psf.json_file_path

    def read(**kwargs):
        if kwargs:
            kwargs = {"abs_path": path}
        psf.read_json(**kwargs); return psf.kernel, psf.kernel_size, psf.NA, psf.wavelength
    return read, []


@call("ZernPSF.get_kernel_parallel", ("normalize_values", True, [False]), weight=0.3)
def _(g):
    psf = settled(g, several=False); psf.kernel_size = 3; psf.initialize_parallel_workers()

    def parallel(*args, **kwargs):
        try:
            return psf.get_kernel_parallel(*args, **kwargs)
        finally:
            psf.deinitialize_workers()
    return parallel, []


RAW = (("n_int_r_points", 320, [20, 33]), ("n_int_phi_points", 300, [36, 48]))


def raw_settings(g):
    """Pixel much larger than the pattern: estimated sizes are small."""
    return [2.0 * float(g.uniform(0.9, 1.1)), 0.1 * float(g.uniform(0.1, 1)), 0.55, 0.9]


@call("calc_psfs.get_psf_kernel", *RAW, ("show_kernel", False, [True]), ("fig_title", None, ["title"]), ("normalize_values", False, [True]), ("airy_pattern", False, [True]), ("kernel_size", 0, [3, 5]),
      ("test_parallel", False, []), ("fig_id", "", ["number"]), ("test_vectorized", False, [True]), ("suppress_warns", False, [True]), ("verbose", False, [True]), weight=0.15)
def _(g):
    return calc_psfs.get_psf_kernel, [rng_terms(g, 1, 1, 2)[0][0]] + raw_settings(g)


@call("calc_psfs.get_psf_kernel_zerns", *RAW, ("normalize_values", False, [True]), ("suppress_warns", False, [True]), ("verbose", False, [True]), weight=0.15)
def _(g):
    pols, cs = rng_terms(g, 2, 3, 3); pixel, _, wl, na = raw_settings(g)
    return calc_psfs.get_psf_kernel_zerns, [tuple(pols), np.array(cs), pixel, wl, na, 3]


@call("calc_psfs_numba.get_psf_kernel_comp", *RAW, ("show_kernel", False, [True]), ("fig_title", None, ["title"]), ("normalize_values", False, [True]), ("kernel_size", 3, [5]), ("fig_id", "", ["number"]),
      ("suppress_warns", False, [True]), ("verbose", False, [True]), weight=0.15)
def _(g):
    return calc_psfs_numba.get_psf_kernel_comp, [rng_terms(g, 1, 1, 4)[0][0]] + raw_settings(g)


@call("calc_psfs.convolute_img_psf", ("scale2original", False, [True]))
def _(g):
    return calc_psfs.convolute_img_psf, [g.integers(0, 200, (8, 9)).astype("uint16") if g.integers(2) else g.random((9, 8)), g.random((3, 5))]


@call("calc_psfs.get_bumped_circle", ("max_intensity", 255, [254, 3000]))
def _(g):
    return calc_psfs.get_bumped_circle, [float(g.uniform(1, 6))]


@call("calc_psfs.save_psf", ("folder_path", None, ["out"]), ("overwrite", True, [False]), ("additional_file_name", None, ["more"]))
def _(g):
    pol = rng_terms(g, 1, 1)[0][0]; os.mkdir("out"); required = [g.random((3, 3)), 0.5, 0.6, 0.1, 0.25, 3, 20, 36, pol]

    def save(*args, **kwargs):
        calc_psfs.save_psf(np.zeros((3, 3)), *required[1:]); return calc_psfs.save_psf(*args, **kwargs)
    return save, required


@call("find_pols_coeffs.make_orders_coeffs", ("minus", False, [True]))
def _(g):
    return find_pols_coeffs.make_orders_coeffs, [{int(k): int(g.integers(-9, 9)) for k in g.permutation(8)[:3]}, 8]


@call("plot_zerns.plot_sum_fig", ("title", "", ["title"]), ("color_map", "coolwarm", ["viridis"]), weight=0.1)
def _(g):
    return plot_zerns.plot_sum_fig, list(surface(g))


@call("plot_zerns.plot_sum_fig_3d", ("color_map", "coolwarm", ["viridis"]), weight=0.1)
def _(g):
    return plot_zerns.plot_sum_fig_3d, list(surface(g))


@call("plot_zerns.subplot_sum_on_fig", ("show_range_colorbar", False, [True]), ("color_map", "coolwarm", ["viridis"]), weight=0.1)
def _(g):
    return plot_zerns.subplot_sum_on_fig, [plt.figure(figsize=(3, 3))] + list(surface(g))


@call("plot_zerns.subplot_sum_on_fig_3d", ("show_range_colorbar", False, [True]), ("color_map", "coolwarm", ["viridis"]), weight=0.1)
def _(g):
    return plot_zerns.subplot_sum_on_fig_3d, [plt.figure(figsize=(3, 3))] + list(surface(g))


def copied(v):
    return v.copy() if isinstance(v, np.ndarray) else {k: copied(x) for k, x in v.items()} if isinstance(v, dict) else [copied(x) for x in v] if isinstance(v, list) else v


def spoil(v):
    """What the caller does with returned arrays has no influence on the next calls."""
    if isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = 7
    elif isinstance(v, (tuple, list)):
        for x in v:
            spoil(x)


def plain(v):
    if isinstance(v, ZernPol):
        return ("polynomial", v.get_indices())
    if isinstance(v, plt.Figure):
        return "figure"
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return [plain(x) for x in v]
    return v


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and getattr(a, "dtype", None) == getattr(b, "dtype", None) and np.array_equal(a, b, equal_nan=np.asarray(a).dtype.kind == "f")
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or a != a and b != b)


def figures():
    out = []
    for number in plt.get_fignums():
        f = plt.figure(number); f.canvas.draw(); out.append((f.get_label(), np.asarray(f.canvas.buffer_rgba()).copy()))
    plt.close("all")
    return out


def files(folder):
    out = {}
    for base, _, names in os.walk(folder):
        for n in names:
            with open(os.path.join(base, n)) as f:
                out[os.path.relpath(os.path.join(base, n), folder)] = json.load(f)
    return out


def observed(name, seed, args, kwargs):
    here = os.getcwd(); text = io.StringIO(); show, plt.show = plt.show, plt_show
    with tempfile.TemporaryDirectory() as folder, warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(text):
        warnings.simplefilter("always"); os.chdir(folder)
        try:
            plt.close("all"); function, required = CALLS[name][0](np.random.default_rng(seed))
            try:
                raw = function(*required, *args, **kwargs); value = copied(plain(raw)); spoil(raw)
            except ValueError as e:
                value = ("ValueError", str(e))
            if isinstance(value, str):
                value = value.replace(os.path.realpath(folder), "").replace(folder, "")
            return {"value": value, "warnings": [str(x.message) for x in w], "printed": re.sub(r"(?m)^.*(ms|sec|saving calculated).*$", "timed", text.getvalue()), "figures": figures(),
                    "files": files(folder)}
        finally:
            os.chdir(here); plt.show = show; plt.close("all")


def compare(name, seed, given, position, case):
    """given - indices of arguments passed to the first call, with numbers of other values; the second call gets everything by name."""
    optional = CALLS[name][1]; args = []; kwargs = {}; everything = [{}]
    for k, (parameter, default, others) in enumerate(optional):
        if k in given and others:
            value = others[given[k] % len(others)]
            if k < position and len(args) == k:
                args.append(value); note("by position")
            else:
                kwargs[parameter] = value
            everything = [dict(e, **{parameter: value}) for e in everything]
        else:
            everything = [dict(e, **{parameter: d}) for e in everything for d in (default if isinstance(default, list) else [default])]
    got = observed(name, seed, args, kwargs); wants = [observed(name, seed, [], e) for e in everything]
    part = ""
    for want in wants:
        wrong = [what for what in got if not (same(got[what], want[what]) if what != "figures" else len(got[what]) == len(want[what]) and all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(got[what], want[what])))]
        if not wrong:
            return
        part = wrong[0]
    require(False, f"{name}: {part} with arguments left out differ from those with the documented defaults", case, [str(sorted(kwargs)), len(args)], str(got[part])[:300], str(wants[0][part])[:300])


HEAVY = {"generate_random_phases": (1, 2), "generate_phases_image": (2, 3)}


@CHECK.enum("each_argument_left_out", lambda tier: [[name, k, s] for name, (_, optional, weight) in CALLS.items() for k in range(len(optional)) for s in ((0, 1) if weight >= 1 else (0,))], nontrivial=lambda c: True)
def each(case):
    """All other arguments are given."""
    name, left, seed = case; count = len(CALLS[name][1]); note(name)
    compare(name, 7 * seed + 1, {k: seed + k for k in range(count) if k != left}, left, case)


@CHECK.enum("digits_of_random_amplitudes", lambda tier: [[s] for s in range(4)])
def digits(case):
    random.seed(case[0]); np.random.seed(case[0]); four = more = 0
    for _ in range(40):
        a = np.asarray(generate_random_phases(4, 3, 3)[1]); four += bool(np.all(np.round(a, 4) == a)); more += bool(np.any(np.round(a, 3) != a))
    require(four >= 30 and more >= 30, "random amplitudes have not the default number of digits", case, four, more)


@CHECK.enum("nothing_given", lambda tier: [[name, s] for name in CALLS for s in ((0, 1, 2) if name not in HEAVY else (0,))], nontrivial=lambda c: True)
def nothing(case):
    name, seed = case; note(name)
    compare(name, 100 + seed, {}, 0, case)


CHOICES = [n for n, (_, optional, weight) in CALLS.items() for _ in range(int(round(20 * weight)))]


@CHECK.gen("subsets", st.tuples(st.sampled_from(CHOICES), st.integers(0, 10 ** 6), st.dictionaries(st.integers(0, 11), st.integers(0, 2), max_size=11), st.integers(0, 12)), quick=250, batch=100, max_shrink=60)
def subsets(case):
    name, seed, given, position = case; note(name); given = {int(k): v for k, v in dict(given).items()}
    for k in HEAVY.get(name, ()):
        given.setdefault(k, 0)
    if name.startswith("calc_psfs") and name != "calc_psfs.save_psf":
        for k in (0, 1):
            given.setdefault(k, 0)
    if name == "generate_phases_image" and ((0 in given) != (1 in given)):
        given.pop(0, None); given.pop(1, None)
    compare(name, seed, given, position, case)


@CHECK.gen("no_settings", st.tuples(st.integers(1, 20), st.booleans(), st.sampled_from([3, 5, 7, None])), quick=12, batch=20)
def no_settings(case):
    """Objects without any settings have the documented ones; what other objects are given has no influence."""
    osa, accelerated, size = case
    if size is None and not accelerated:
        raise Discard()
    other = settled(np.random.default_rng(osa)); psf = ZernPSF(ZernPol(osa=osa)); want = ZernPSF(ZernPol(osa=osa)); n = (20, 36) if size else (320, 300)
    want.set_physical_props(NA=1.0, wavelength=0.532, expansion_coeff=0.5, pixel_physical_size=0.98 * 0.25 * 0.532); want.set_calculation_props(size or 19, *n)
    if size:
        psf.set_calculation_props(size, *n)
    got = psf.calculate_psf_kernel(suppress_warnings=True, accelerated=accelerated); other.calculate_psf_kernel(suppress_warnings=True)
    k = want.calculate_psf_kernel(suppress_warnings=True, accelerated=accelerated)
    require(got.shape == k.shape and np.allclose(got, k, rtol=0, atol=1e-9), "kernel without settings isn't the one of the documented default settings", case)
    fresh = ZernPSF(ZernPol(osa=osa))
    require(fresh.kernel.shape == (1, 1) and fresh.kernel[0, 0] == 1.0 and fresh.kernel_size == 1, "kernel of a new object", case, fresh.kernel_size)


@CHECK.gen("workers", st.tuples(st.integers(0, 3), st.booleans()), quick=2, batch=4)
def workers(case):
    from zernpy.utils.intmproc import DispenserManager
    more, verbose = case; cores = os.cpu_count()
    if cores // 2 < 2:
        raise Discard()
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        d = DispenserManager(abs, [-k for k in range(cores + more)], **({"verbose_info": True} if verbose else {}))
        try:
            got = d.compute()
        finally:
            d.close()
    require(d.workers_number == cores // 2, "default number of workers", case, d.workers_number, cores // 2)
    require(d.get_max_workers() == cores, "maximum number of workers", case, d.get_max_workers())
    require(got == list(range(cores + more)), "results", case, got)
    require(bool(text.getvalue()) == verbose, "printed texts", case, text.getvalue()[:200])
