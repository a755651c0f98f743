import copy
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF

from ..core import Check, Discard, note, require
from ..gens import orders
from .. import oracles as o
from .psf_common import check_close, make, odd, physical, pixel_of, points, terms

CHECK = Check("P24", "generated histories of 6 to 18 operations (set physical properties, rejected ones, set calculation properties, rejected ones, calculate, crop, convolve, "
              "save, read what another object saved, change of the passed sequences by the caller) on two interleaved PSF objects with one or several polynomials; after every "
              "calculation the kernel and the properties are compared with a new object with the settings in force; non-trivial: at least two calculations with another "
              "accepted setting in between, or a rejected setting before a calculation")

PROPERTIES = ("NA", "wavelength", "pixel_size", "kernel_size", "n_int_r_points", "n_int_phi_points", "k", "pixel_size_nyquist")
PHYS = st.tuples(st.floats(0.08, 0.25), st.sampled_from([0.4, 0.5, 0.55, 1.0, 2.0]), st.floats(0.8, 0.999), st.lists(st.one_of(st.floats(-0.35, 0.35), st.just(0.0)), min_size=3, max_size=3))
CALC = st.tuples(st.sampled_from([3, 3, 4, 5, 7]), st.integers(20, 26), st.integers(36, 40))
BAD_PHYS = st.tuples(st.sampled_from(["NA", "NA high", "wavelength", "pixel", "pixel high", "coefficients", "coefficients more"]), PHYS)
BAD_CALC = st.tuples(st.sampled_from(["size", "r", "phi"]), CALC)


NEW = ZernPSF(ZernPol(m=1, n=1)); DEFAULTS = {name: getattr(NEW, name) for name in PROPERTIES + ("expansion_coeff", "coefficients")}  # of a process without any history


def op():
    who = st.integers(0, 1)
    return st.one_of(st.tuples(st.just("phys"), who, PHYS), st.tuples(st.just("bad phys"), who, BAD_PHYS), st.tuples(st.just("calc"), who, CALC),
                     st.tuples(st.just("bad calc"), who, BAD_CALC), st.tuples(st.just("kernel"), who, st.booleans()), st.tuples(st.just("kernel"), who, st.booleans()),
                     st.tuples(st.just("kernel"), who, st.booleans()), st.tuples(st.just("phys"), who, PHYS),
                     st.tuples(st.just("crop"), who, st.sampled_from([0.01, 0.05, 0.2, 0.49])), st.tuples(st.just("convolve"), who, st.booleans()),
                     st.tuples(st.just("save"), who, st.booleans()), st.tuples(st.just("read"), who, st.just(0)), st.tuples(st.just("mutate"), who, st.sampled_from(["coefficients", "polynomials"])))


def polynomials():
    return st.one_of(orders(5).map(lambda x: [x]), st.lists(orders(5), min_size=2, max_size=3, unique_by=tuple))


class Model:
    """Settings in force of one object."""

    def __init__(self, pols, calc):
        self.pols = pols; self.phys = None; self.calc = None; self.size = None; self.kernel = None

    def coefficients(self, phys):
        return [c * phys[1] for c in phys[3][:len(self.pols)]]

    def props(self, phys):
        cs = self.coefficients(phys)
        return dict(NA=phys[0], wavelength=phys[1], expansion_coeff=cs[0] if len(cs) == 1 else tuple(cs), pixel_physical_size=phys[2] * phys[1] / (4 * phys[0]))

    def fresh(self, with_calc=True):
        pols = tuple(ZernPol(m=m, n=n) for m, n in self.pols); psf = ZernPSF(pols[0] if len(pols) == 1 else pols)
        if self.phys is not None:
            psf.set_physical_props(**self.props(self.phys))
        if with_calc and self.calc is not None:
            size = psf.kernel_size if self.size is None else self.size
            psf.set_calculation_props(size if size >= 3 else 3, *self.calc)
            if size < 3:
                raise Discard()
        return psf


def orders_of(psf):
    return [list(p.get_mn_orders()) for p in psf.polynomials] if psf.zernpol is None else [list(psf.zernpol.get_mn_orders())]


def compare_properties(psf, model, fresh, case):
    for name in PROPERTIES:
        require(getattr(psf, name) == getattr(fresh, name), f"property {name} differs from the one of a new object", case, getattr(psf, name), getattr(fresh, name))
    require(orders_of(psf) == model.pols, "polynomials changed", case, orders_of(psf))
    if model.phys is not None:
        want = model.coefficients(model.phys)
        got = [psf.expansion_coeff] if len(want) == 1 else list(psf.coefficients)
        require(got == want, "coefficients differ from the accepted ones", case, got, want)


def nontrivial(case):
    changed = False; calculated = False
    for o in case[1]:
        if o[0] == "kernel":
            if calculated and changed:
                return True
            calculated = True; changed = False
        elif o[0] in ("phys", "calc", "bad phys", "bad calc", "read"):
            changed = True
    return False


def run(case, accelerated):
    sets, ops = case
    with tempfile.TemporaryDirectory(prefix="pbt_p24_") as folder:
        history(sets, ops, accelerated, folder, case)


def history(sets, ops, accelerated, folder, case):
    objects = []; models = []; passed = []
    for who, pols in enumerate(sets):
        given = [ZernPol(m=m, n=n) for m, n in pols]
        objects.append(ZernPSF(given[0] if len(given) == 1 else given)); models.append(Model(pols, None)); passed.append({"pols": given, "coefficients": None})
        objects[-1].set_calculation_props(5, 20, 36); models[-1].calc = [20, 36]; models[-1].size = 5
    files = [None, None]  # (path, state of the model when saved)
    for what, who, arg in ops:
        psf, model = objects[who], models[who]; note(what)
        if what == "phys":
            props = model.props(arg)
            if len(model.pols) > 1:
                props["expansion_coeff"] = np.array(props["expansion_coeff"]) if who else list(props["expansion_coeff"])
            before = copy.deepcopy(props); psf.set_physical_props(**props)
            require(list(np.ravel(before["expansion_coeff"])) == list(np.ravel(props["expansion_coeff"])), "passed coefficients are changed", case)
            passed[who]["coefficients"] = props["expansion_coeff"]; model.phys = arg; model.size = None
        elif what == "bad phys":
            kind, phys = arg; props = model.props(phys)
            if kind == "NA":
                props["NA"] = 0.0 if phys[2] > 0.85 else -phys[0]
            elif kind == "NA high":
                props["NA"] = 1.71
            elif kind == "wavelength":
                props["wavelength"] = -phys[1] if phys[2] > 0.85 else 0.0
            elif kind == "pixel":
                props["pixel_physical_size"] = -0.1 if phys[2] > 0.85 else 0.0
            elif kind == "pixel high":
                props["pixel_physical_size"] *= 1.5
            elif kind == "coefficients":
                props["expansion_coeff"] = [0.1] * (len(model.pols) - 1) if len(model.pols) > 2 else 0.3 if len(model.pols) == 2 else [0.1, 0.2]
            else:
                props["expansion_coeff"] = [0.1] * (len(model.pols) + 1)
            try:
                psf.set_physical_props(**props)
            except ValueError:
                pass
            else:
                require(False, "wrong physical properties are accepted", case, kind)
        elif what == "calc":
            size, nr, nphi = arg; psf.set_calculation_props(size, nr, nphi); model.calc = [nr, nphi]; model.size = size + 1 - size % 2
        elif what == "bad calc":
            kind, (size, nr, nphi) = arg; size += 20
            try:
                psf.set_calculation_props(2 if kind == "size" else size, 19 if kind == "r" else nr + 50, 35 if kind == "phi" else nphi + 50)
            except ValueError:
                pass
            else:
                require(False, "wrong calculation properties are accepted", case, kind)
        elif what == "kernel":
            if model.phys is None and len(model.pols) > 1:
                continue
            fresh = model.fresh()
            if fresh.kernel_size > 9:
                continue
            got = psf.calculate_psf_kernel(suppress_warnings=who == 0, normalized=arg, accelerated=accelerated)
            want = fresh.calculate_psf_kernel(suppress_warnings=True, normalized=arg, accelerated=accelerated)
            if np.all(np.isfinite(want)):
                check_close(got, want, 1e-12, "kernel depends on the history", case)
            require(np.array_equal(psf.kernel, got, equal_nan=True), "stored kernel is not the calculated one", case)
            compare_properties(psf, model, fresh, case); model.kernel = np.array(got)
        elif what == "crop":
            if model.kernel is None or psf.kernel.shape[0] != psf.kernel_size:
                continue
            before = psf.kernel.copy(); psf.crop_kernel(arg); k = psf.kernel; cut = (before.shape[0] - k.shape[0]) // 2
            require(np.array_equal(before[cut:before.shape[0] - cut, cut:before.shape[0] - cut], k), "cropping changes elements", case)
            if cut:
                note("cropped by a frame"); model.size = k.shape[0]
            model.kernel = np.array(k)
        elif what == "convolve":
            if model.kernel is None:
                continue
            psf.convolute_img(np.random.default_rng(1).uniform(0, 1, (9, 8)), scale2original=arg)
        elif what == "save":
            if model.kernel is None or model.phys is None:
                continue
            sub = os.path.join(folder, str(who)); os.makedirs(sub, exist_ok=True); psf.save_json(abs_path=sub, overwrite=True)
            files[who] = (psf.json_file_path, copy.deepcopy(model), np.array(psf.kernel), psf.kernel_size)
        elif what == "read":
            if files[1 - who] is None:
                continue
            path, saved, kernel, size = files[1 - who]; psf.read_json(path)
            models[who] = model = copy.deepcopy(saved); model.size = size; model.kernel = np.array(kernel)
            passed[who] = {"pols": [], "coefficients": None}
            compare_properties(psf, model, model.fresh(), case)
        elif what == "mutate":
            given = passed[who]
            if arg == "polynomials" and len(given["pols"]) > 1:
                given["pols"].reverse(); given["pols"].append(ZernPol(m=0, n=8))
            elif arg == "coefficients" and isinstance(given["coefficients"], (list, np.ndarray)):
                for i in range(len(given["coefficients"])):
                    given["coefficients"][i] = 7.0
            given.clear(); given.update({"pols": [], "coefficients": None})
        if model.kernel is not None:
            require(np.array_equal(objects[who].kernel, model.kernel, equal_nan=True), f"operation '{what}' changes the calculated kernel", case)
        other = 1 - who
        if models[other].kernel is not None:
            require(np.array_equal(objects[other].kernel, models[other].kernel, equal_nan=True), f"operation '{what}' changes the kernel of another object", case)
        else:
            require(objects[other].kernel.shape == (1, 1), "an object without calculation has a kernel", case)
    for psf, model in zip(objects, models):
        fresh = model.fresh(); compare_properties(psf, model, fresh, case)
    new = ZernPSF(ZernPol(m=1, n=1))
    for name, value in DEFAULTS.items():
        require(getattr(new, name) == value, f"property {name} of a new object depends on other objects", case, getattr(new, name), value)
    require(new.kernel.shape == (1, 1), "kernel of a new object", case)


@CHECK.gen("histories", st.tuples(st.tuples(polynomials(), polynomials()), st.lists(op(), min_size=7, max_size=18)), quick=110, nontrivial=nontrivial)
def histories(case):
    run(case, False)


@CHECK.gen("histories_accelerated", st.tuples(st.tuples(orders(5).map(lambda x: [x]), orders(5).map(lambda x: [x])), st.lists(op(), min_size=6, max_size=14)), quick=40, nontrivial=nontrivial)
def histories_accelerated(case):
    run(case, True)


WHAT = ["NA", "wavelength", "pixel", "coefficient", "sign", "size", "nr", "nphi", "normalized", "polynomial", "polynomials swapped", "another object", "accelerated", "back"]
START = st.tuples(terms(6, 1, 3, n_min=1, limit=0.8), physical(), odd(3, 5), points(24, 42))
CHANGE = st.tuples(st.sampled_from(WHAT), st.integers(0, 2), st.sampled_from([1.25, 0.8, 1.01, 0.999, 1.0001]))


@CHECK.gen("one_setting_changed", st.tuples(START, st.lists(CHANGE, min_size=2, max_size=7), st.booleans()), quick=60, nontrivial=lambda c: True)
def one_changed(case):
    """Every kernel is calculated from the settings in force, not from similar ones used before: compared with a separate quadrature."""
    (ts, phys, size, (nr, nphi)), changes, accelerated = case; accelerated = accelerated and len(ts) <= 2; normalized = False
    psf = None; states = []; now = [[[list(t[0]), t[1]] for t in ts], list(phys), size, nr, nphi, False, accelerated, False]
    for what, k, factor in [["start", 0, 1.0]] + changes:
        now = copy.deepcopy(now); note(what); ts, phys = now[0], now[1]; k %= len(ts); now[7] = False
        if what == "NA":
            phys[0] = min(phys[0] * factor, 1.7)
        elif what == "wavelength":
            for t in ts:
                t[1] /= factor  # the coefficients themselves aren't changed
            phys[1] *= factor; phys[2] /= max(factor, phys[2] * 1.001)
        elif what == "pixel":
            phys[2] = phys[2] * factor if phys[2] * factor < 1 else phys[2] / 2
        elif what == "coefficient":
            ts[k][1] = ts[k][1] * factor + (factor - 1)
        elif what == "sign":
            ts[k][1] *= -1
        elif what == "size":
            now[2] = 3 if now[2] == 5 else 5
        elif what == "nr":
            now[3] += 1 + k
        elif what == "nphi":
            now[4] += 2 + 2 * k
        elif what == "normalized":
            now[5] = not now[5]
        elif what == "polynomial":
            m, n = ts[k][0]; used = [t[0] for t in ts]; new = next(q for q in ([-m, n], [m, n + 2], [m + (1 if m > 0 else -1), n + 1], [m, n + 4]) if q not in used)
            ts[k][0] = new
        elif what == "polynomials swapped" and len(ts) > 1:
            cs = [t[1] for t in ts]
            for t, c in zip(ts, cs[1:] + cs[:1]):
                t[1] = c
        elif what == "another object":
            now[7] = True
        elif what == "accelerated" and len(ts) <= 2:
            now[6] = not now[6]
        elif what == "back" and states:
            now = copy.deepcopy(states[k % len(states)]); ts, phys = now[0], now[1]
        if psf is None or now[7] or what in ("polynomial", "back"):
            psf = make(ts, phys)
        cs = [t[1] * phys[1] for t in ts]
        psf.set_physical_props(phys[0], phys[1], cs[0] if len(cs) == 1 else cs, pixel_of(phys)); psf.set_calculation_props(now[2], now[3], now[4]); states.append(copy.deepcopy(now))
        got = psf.calculate_psf_kernel(suppress_warnings=True, normalized=now[5], accelerated=now[6])
        want = o.psf_kernel([t[0] for t in ts], cs, phys[0], phys[1], pixel_of(phys), now[2], o.quadrature(now[3], now[4]))
        if now[5]:
            want = want / want.max()
        check_close(got, want, 1e-9, f"kernel isn't the one of the settings in force (after change of {what})", case)
