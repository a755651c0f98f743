import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF

from ..core import Check, note, require
from ..gens import orders
from .p24 import orders_of
from .psf_common import odd, physical, pixel_of, wavelengths

CHECK = Check("P28", "generated PSF objects (one polynomial to order 54 or 2 to 25 of them, arbitrary settings of different numeric types, calculated, cropped, loaded or no kernels) "
              "saved and read into objects with different generated content, chains of several saves and reads; non-trivial: the reading object had other polynomials",
              ["kernels calculated after reading are compared for sets with orders to 8"])
SEED = st.integers(0, 2 ** 32 - 1)
KERNEL = st.tuples(st.sampled_from(["calculated", "calculated normalized", "cropped", "random", "none"]), odd(3, 5), SEED)
NUMBERS = st.sampled_from(["float", "float", "float", "numpy", "integer"])


def content(top=54, most=25):
    cs = st.lists(st.one_of(st.floats(-3, 3), st.floats(-1e-6, 1e-6), st.sampled_from([0.0, 1.0, -2.0, 0.1])), min_size=most, max_size=most)
    pols = st.one_of(orders(top).map(lambda x: [x]), st.lists(orders(top), min_size=2, max_size=4, unique_by=tuple), st.lists(orders(top), min_size=min(5, most), max_size=most, unique_by=tuple))
    return st.tuples(pols, cs, physical(), st.integers(20, 40), st.integers(36, 60), KERNEL, NUMBERS)


def build(spec):
    """PSF object with the generated content."""
    pols, cs, phys, nr, nphi, (kind, size, seed), numbers = spec; na, wl, _ = phys; pixel = pixel_of(phys)
    objs = [ZernPol(m=m, n=n) for m, n in pols]; psf = ZernPSF(objs[0] if len(pols) == 1 else objs); c = [x * wl for x in cs[:len(pols)]]
    if numbers == "numpy":
        na, wl, pixel, size, nr, nphi = np.float64(na), np.float64(wl), np.float64(pixel), np.int64(size), np.int32(nr), np.int64(nphi); c = np.array(c)
    elif numbers == "integer":
        na, wl = 1, 4; pixel = 1; c = [int(x) for x in cs[:len(pols)]]
    psf.set_physical_props(NA=na, wavelength=wl, expansion_coeff=c[0] if len(pols) == 1 else c, pixel_physical_size=pixel)
    psf.set_calculation_props(size, nr, nphi)
    rng = np.random.default_rng(seed)
    if max(n for _, n in pols) > 8 or len(pols) > 4:
        kind = "random" if kind != "none" else kind
    if kind.startswith("calculated"):
        psf.calculate_psf_kernel(suppress_warnings=True, normalized=kind.endswith("normalized"), accelerated=False)
    elif kind in ("random", "cropped"):
        n = int(size) + 4 + 2 * (seed % 25 if seed % 3 else 0); k = rng.random((n, n)) * 10.0 ** rng.integers(-12, 3)
        if kind == "cropped":
            k[0] = k[-1] = k[:, 0] = k[:, -1] = 0.0
        psf.kernel = k; psf.kernel_size = n
        if kind == "cropped":
            psf.crop_kernel(1e-6)
    return psf, [float(x) for x in np.ravel(c)], kind


def state(psf):
    return {"kernel": np.array(psf.kernel), "kernel_size": psf.kernel_size, "NA": psf.NA, "wavelength": psf.wavelength, "pixel_size": psf.pixel_size,
            "coefficients": [float(psf.expansion_coeff)] if psf.zernpol is not None else [float(x) for x in psf.coefficients],
            "polynomials": orders_of(psf), "n_int_r_points": psf.n_int_r_points, "n_int_phi_points": psf.n_int_phi_points}


def same(a, b, what, case):
    for key in a:
        equal = np.array_equal(a[key], b[key]) if key == "kernel" else a[key] == b[key]
        require(equal, f"{what}: {key} differs", case, str(a[key])[:150], str(b[key])[:150])


def save(psf, folder, as_path):
    psf.save_json(abs_path=Path(folder) if as_path else str(folder), overwrite=True)
    return psf.json_file_path


def read(psf, path, how):
    if how == "Path":
        psf.read_json(Path(path))
    elif how == "remembered":
        psf.json_file_path = path; psf.read_json()
    else:
        psf.read_json(str(path))


HOW = st.sampled_from(["text", "Path", "remembered"])


@CHECK.gen("restored", st.tuples(content(), content(), st.booleans(), HOW), quick=250, nontrivial=lambda c: c[0][0] != c[1][0])
def restored(case):
    a, b, as_path, how = case
    with tempfile.TemporaryDirectory(prefix="pbt_p28_") as folder:
        first, cs, kind = build(a); want = state(first); second, _, _ = build(b); note(f"kernel {kind}"); note("several" if len(a[0]) > 1 else "single")
        require(want["coefficients"] == cs and want["polynomials"] == a[0], "content of the object before saving", case)
        path = save(first, folder, as_path); same(want, state(first), "saving changes the object", case)
        require(len(os.listdir(folder)) == 1, "one file is created", case)
        read(second, path, how); same(want, state(second), "after reading", case); same(want, state(first), "reading changes another object", case)
        text = open(path).read(); os.mkdir(os.path.join(folder, "again")); again = save(second, os.path.join(folder, "again"), as_path)
        require(os.path.basename(again) == os.path.basename(path), "name of the file saved by the reading object", case, again)
        third, _, _ = build(b); read(third, again, how); same(want, state(third), "after the second save and read", case)
        require(text == open(path).read(), "the first file is changed by saving in another folder", case)


@CHECK.gen("behaves_alike", st.tuples(content(8, 4), content(8, 4), st.integers(20, 25), st.integers(36, 40), st.booleans()), quick=30, nontrivial=lambda c: c[0][0] != c[1][0])
def alike(case):
    a, b, nr, nphi, normalized = case
    with tempfile.TemporaryDirectory(prefix="pbt_p28_") as folder:
        first, _, _ = build(a); second, _, _ = build(b); path = save(first, folder, False); read(second, path, "text")
        img = np.random.default_rng(a[3]).random((7, 8))
        require(np.array_equal(first.convolute_img(img), second.convolute_img(img)), "convolution differs", case)
        kernels = []
        for psf in (first, second):
            if psf.kernel_size < 3 or psf.kernel_size > 7:
                psf.set_calculation_props(3, nr, nphi)
            kernels.append([psf.calculate_psf_kernel(suppress_warnings=True, normalized=normalized, accelerated=False)])
            psf.set_calculation_props(5, nr, nphi); kernels[-1].append(psf.calculate_psf_kernel(suppress_warnings=True, normalized=normalized, accelerated=False))
            c = [0.1 * psf.wavelength] * len(a[0]); psf.set_physical_props(0.7, psf.wavelength, c[0] if len(c) == 1 else c, psf.wavelength / 10)
            kernels[-1].append(psf.kernel_size); psf.set_calculation_props(3, 20, 36)
            kernels[-1].append(psf.calculate_psf_kernel(suppress_warnings=True, normalized=normalized, accelerated=False))
        for k1, k2 in zip(*kernels):
            require(np.all(np.abs(np.asarray(k1) - np.asarray(k2)) <= 1e-12) if np.all(np.isfinite(k1)) else True, "kernels differ after reading", case)
        same(state(first), state(second), "after calculations", case)


@CHECK.gen("chains", st.tuples(st.lists(content(20, 6), min_size=2, max_size=4), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), min_size=2, max_size=8)), quick=60,
           nontrivial=lambda c: len(c[1]) > 2)
def chains(case):
    """Several objects read what others saved."""
    specs, steps = case
    with tempfile.TemporaryDirectory(prefix="pbt_p28_") as folder:
        objs = [build(s)[0] for s in specs]; states = [state(x) for x in objs]
        for k, (i, j) in enumerate(steps):
            i %= len(objs); j %= len(objs); sub = os.path.join(folder, str(k)); os.mkdir(sub)
            objs[j].read_json(save(objs[i], sub, k % 2)); states[j] = states[i]
            for x, want in zip(objs, states):
                same(want, state(x), f"after step {k}", case)


@CHECK.enum("shipped_example", lambda tier: [[0]])
def shipped(case):
    """The file which comes with the package."""
    import zernpy
    folder = Path(zernpy.__file__).parent / "saved_psfs"; found = sorted(folder.glob("psf_(-3, 3)_-0.25.json"))
    for path in found:
        psf = ZernPSF(ZernPol(m=-3, n=3)); psf.read_json(path)  # written by an earlier version: without the polynomial
        require(orders_of(psf) == [[-3, 3]] and psf.expansion_coeff == -0.25 and psf.kernel.shape == (psf.kernel_size, psf.kernel_size), "content", orders_of(psf), psf.expansion_coeff)
        require((psf.NA, psf.wavelength, psf.n_int_r_points, psf.n_int_phi_points) == (0.95, 0.55, 250, 320), "settings", psf.NA, psf.wavelength)


__all__ = ["wavelengths"]
