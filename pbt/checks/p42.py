import contextlib
import copy
import io
import json
import os
import pickle
import subprocess
import sys
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF, fit_polynomials_vectors

from .. import boot
from ..core import Check, note, require
from ..gens import orders

CHECK = Check("P42", "histories of operations on PSF objects and their copies (deepcopy, pickle of every protocol, copies of copies), compared with new objects on which the same operations are repeated, "
              "and with the other objects before each operation; polynomials of all orders; objects sent to fresh processes; non-trivial: at least one copy with operations before or after it",
              ["objects with initialized workers aren't copied", "after a shallow copy only the equality is decided, not the independence"])
TERMS = [(m, n) for n in range(1, 6) for m in range(-n, n + 1, 2)]
HOW = ["deepcopy"] + [f"pickle {k}" for k in range(pickle.HIGHEST_PROTOCOL + 1)]


def made(obj, how):
    if how == "deepcopy":
        return copy.deepcopy(obj)
    if how == "shallow":
        return copy.copy(obj)
    return pickle.loads(pickle.dumps(obj, int(how.split()[1])))


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b); return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def text(a):
    return np.asarray(a).tobytes().hex() + str(np.asarray(a).shape)


def seen(psf):
    """What a user can see of a PSF object."""
    pols = [psf.zernpol] if psf.zernpol is not None else list(psf.polynomials)
    return {"polynomials": [str(p) for p in pols], "NA": psf.NA, "wavelength": psf.wavelength, "pixel": psf.pixel_size, "limit": psf.pixel_size_nyquist, "size": psf.kernel_size, "k": psf.k, "alpha": psf.alpha,
            "coefficient": psf.expansion_coeff, "points": [psf.n_int_r_points, psf.n_int_phi_points], "airy": psf.airy, "coefficients": None if psf.coefficients is None else text(psf.coefficients),
            "amplitudes": None if psf.amplitudes is None else text(psf.amplitudes), "kernel": text(psf.kernel)}


def new(pols):
    objs = [ZernPol(m=m, n=n) for m, n in pols]
    return ZernPSF(objs[0] if len(objs) == 1 else tuple(objs))


PHYS = st.tuples(st.just("phys"), st.floats(0.2, 1.2), st.floats(0.3, 0.9), st.floats(0.4, 0.99), st.lists(st.floats(-0.5, 0.5), min_size=3, max_size=3))
OPS = st.one_of(PHYS, PHYS, st.tuples(st.just("refused"), st.sampled_from(["NA", "wavelength", "pixel", "number", "points"])), st.tuples(st.just("props"), st.sampled_from([3, 5, 6, 7]), st.integers(20, 22), st.sampled_from([36, 38])),
                st.tuples(st.just("calc"), st.booleans()), st.tuples(st.just("calc"), st.booleans()), st.tuples(st.just("crop"), st.sampled_from([0.01, 0.2, 0.5])), st.tuples(st.just("convolve"), st.booleans()),
                st.tuples(st.just("save"), st.integers(0, 2)), st.tuples(st.just("read"), st.integers(0, 2)))
STEP = st.one_of(st.tuples(st.just("op"), st.integers(0, 3), OPS), st.tuples(st.just("op"), st.integers(0, 3), OPS), st.tuples(st.just("op"), st.integers(0, 3), OPS),
                 st.tuples(st.just("copy"), st.integers(0, 3), st.sampled_from(HOW + ["deepcopy", "deepcopy"])), st.tuples(st.just("shallow"), st.integers(0, 3)))


def done(psf, op, stored, k):
    """Carry out one operation, its result as text; stored - files written before by any object: their own content is kept."""
    kind = op[0]
    if k > 1 and psf.coefficients is None and kind in ("calc", "save"):
        return "no coefficients"  # there are no default ones for several polynomials
    if kind == "phys":
        _, na, wl, part, cs = op; psf.set_physical_props(na, wl, cs[0] if k == 1 else cs[:k], part * wl / (4 * na)); return ""
    if kind == "refused":
        args = {"NA": (1.9, 0.5, [0.1] * k, 0.01), "wavelength": (0.5, -1.0, [0.1] * k, 0.1), "pixel": (0.5, 0.5, [0.1] * k, 3.0), "number": (0.5, 0.5, [0.1] * (k + 2), 0.1)}
        try:
            psf.set_calculation_props(5, 3, 36) if op[1] == "points" else psf.set_physical_props(*args[op[1]])
        except ValueError as e:
            return f"refused {e}"
        return "accepted"
    if kind == "props":
        psf.set_calculation_props(*op[1:]); return ""
    if kind == "calc":
        if psf.kernel_size > 7 or psf.n_int_r_points > 22 or psf.n_int_phi_points > 38:
            psf.set_calculation_props(5, 20, 36)  # otherwise too long
        return text(psf.calculate_psf_kernel(suppress_warnings=True, normalized=op[1], accelerated=False))
    if kind == "crop":
        try:
            psf.crop_kernel(op[1])
        except (ValueError, IndexError) as e:
            return type(e).__name__
        return text(psf.kernel)
    if kind == "convolve":
        image = np.arange(63, dtype="float64").reshape(7, 9) ** 1.5; return text(psf.convolute_img(image, op[1]))
    if kind == "save":
        with tempfile.TemporaryDirectory() as folder:
            psf.save_json(folder, overwrite=True)
            name = sorted(os.listdir(folder))[0]; content = open(os.path.join(folder, name)).read()
        stored.append((op[1], content)); return name + content
    found = [c for i, c in stored if i == op[1]]
    if not found:
        return "no file"
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "psf.json"); open(path, "w").write(found[-1]); psf.read_json(path); return ""


@CHECK.gen("psf_histories", st.tuples(st.lists(st.sampled_from(TERMS), min_size=1, max_size=3, unique=True), st.lists(STEP, min_size=2, max_size=14)), quick=320, batch=40, share=3, max_shrink=60,
           nontrivial=lambda c: len(c[1]) > 1 and any(s[0] == "copy" for s in c[1]))
def histories(case):
    pols, steps = case; pols = [tuple(p) for p in pols]; k = len(pols)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        objs = [new(pols)]; logs = [[]]; results = [[]]; files = [[]]
        for step in steps:
            i = step[1] % len(objs)
            before = [seen(o) for o in objs]
            if step[0] == "op":
                op = tuple(step[2])
                if op[0] == "read" and k > 1:
                    op = ("calc", True)  # restored objects of several polynomials are decided in P28
                results[i].append(done(objs[i], op, files[i], k)); logs[i].append(op); note(op[0])
            elif step[0] == "shallow":
                require(seen(made(objs[i], "shallow")) == before[i], "shallow copy differs", case); note("shallow")
                continue
            else:
                c = made(objs[i], step[2]); require(type(c) is ZernPSF and c is not objs[i], "copy isn't another PSF object", case)
                got = seen(c); require(got == before[i], f"{step[2]}: copy differs from the original", case, [(x, str(got[x])[:80], str(before[i][x])[:80]) for x in got if got[x] != before[i][x]])
                require(c.kernel.size == 1 or not np.shares_memory(c.kernel, objs[i].kernel), "copy shares its kernel with the original", case)
                note(step[2])
                if len(objs) < 4:
                    objs.append(c); logs.append(list(logs[i])); results.append(list(results[i])); files.append(list(files[i]))
                continue
            for j, o in enumerate(objs):
                if j != i:
                    require(seen(o) == before[j], f"operation {op[0]} on one object changes another one", case, j, [x for x in before[j] if seen(o)[x] != before[j][x]])
        for i, o in enumerate(objs):
            fresh = new(pols); again = []; stored = []
            for op in logs[i]:
                again.append(done(fresh, op, stored, k))
            require(again == results[i], "other results than of a new object with the same operations", case, i, [(logs[i][j][0], x[:60], y[:60]) for j, (x, y) in enumerate(zip(again, results[i])) if x != y])
            a, b = seen(o), seen(fresh); require(a == b, "other state than of a new object with the same operations", case, i, [(x, str(a[x])[:80], str(b[x])[:80]) for x in a if a[x] != b[x]])


@CHECK.gen("polynomials", st.tuples(orders(54), st.sampled_from(HOW + ["shallow"]), st.sampled_from(["new", "used", "copied"]), orders(12), st.integers(0, 10 ** 6)), quick=500, share=1, nontrivial=lambda c: True)
def polynomials(case):
    (m, n), how, state, other, seed = case; p = ZernPol(m=m, n=n); g = np.random.default_rng(seed); note(how); fast = n <= 46
    r, th = g.random(4), 6.28 * g.random(4)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if state == "used" and fast:
            p.polynomial_value(r, th); p.radial_dr(r); str(p)
        if state == "copied":
            p = made(p, "deepcopy")
        c = made(p, how); require(type(c) is ZernPol and c is not p, "copy isn't another polynomial", case)
        q = ZernPol(m=other[0], n=other[1])
        for what, f in (("indices", lambda x: list(x.get_indices()) + [x.get_mn_orders()]), ("name", lambda x: [x.get_polynomial_name(), x.get_polynomial_name(True)]), ("text", str), ("equality", lambda x: [x == p, x == q, p == x, q == x]),
                        ("order", lambda x: [x > q, q > x, x < q]), ("place", lambda x: [[q, p].index(x), x in [q], x in [p], [p, q, p].count(x)])):
            require(f(c) == f(p), f"{what} of the copy", case, f(c), f(p))
        if fast:
            for what, f in (("value", lambda x: x.polynomial_value(r, th)), ("radial", lambda x: x.radial(r)), ("derivative", lambda x: x.radial_dr(r)), ("exact", lambda x: x.radial(r, use_exact_eq=True)), ("angle", lambda x: x.triangular(th)),
                            ("sum", lambda x: ZernPol.sum_zernikes([0.7], [x], r, th)), ("angular derivative", lambda x: x.triangular_dtheta(th)), ("normalization", lambda x: [x.normf()] if hasattr(x, "normf") else [0.0])):
                require(same_bits(f(c), f(p)), f"{what} of the copy", case, f(c), f(p))
        for fn in (lambda: ZernPSF((p, c)), lambda: fit_polynomials_vectors((p, c), np.ones(9), np.linspace(0, 1, 9), np.linspace(0, 6, 9))):
            try:
                fn()
            except ValueError:
                continue
            require(False, "copy isn't treated as the repeated polynomial", case)
        try:
            c.__init__(m=other[0], n=other[1])
        except ValueError:
            pass
        require(p.get_mn_orders() == (m, n) == c.get_mn_orders(), "initialized once more", case)


OTHER = """
import sys, os
for p in ({site!r},):
    if p not in sys.path: sys.path.append(p)
sys.path.insert(0, {src!r})
import pickle, warnings, io, contextlib
import numpy as np
warnings.simplefilter("ignore")
with open(sys.argv[1], "rb") as f:
    data = f.read()
objs = pickle.loads(data); out = []
for kind, o in objs:
    if kind == "pol":
        r, th = np.linspace(0, 1, 7), np.linspace(0, 6, 7)
        out.append([o.polynomial_value(r, th).tobytes(), o.radial_dr(r).tobytes(), str(o), o.get_indices()])
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            first = o.kernel.tobytes(); o.calculate_psf_kernel(suppress_warnings=True, accelerated=False)
        out.append([first, o.kernel.tobytes(), o.NA, o.wavelength, o.kernel_size, o.pixel_size])
with open(sys.argv[2], "wb") as f:
    pickle.dump([out, objs], f)
"""


@CHECK.enum("other_processes", lambda tier: [[seed, protocol] for seed in range(2 if tier == "quick" else 10) for protocol in (2, 4, pickle.HIGHEST_PROTOCOL)], nontrivial=lambda c: True)
def processes(case):
    """Objects sent to another process give there, and after the return, the same results."""
    seed, protocol = case; g = np.random.default_rng(seed); objs = []; want = []
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore"); r, th = np.linspace(0, 1, 7), np.linspace(0, 6, 7)
        for i in range(30):
            n = int(g.integers(0, 40)); m = int(g.choice(np.arange(-n, n + 1, 2))); p = ZernPol(m=m, n=n); objs.append(("pol", p))
            want.append([p.polynomial_value(r, th).tobytes(), p.radial_dr(r).tobytes(), str(p), p.get_indices()])
        for i in range(12):
            pols = [TERMS[j] for j in g.permutation(len(TERMS))[:1 + i % 3]]; psf = new(pols); cs = g.uniform(-0.2, 0.2, len(pols))
            if i % 4 or len(pols) > 1:
                psf.set_physical_props(0.5 + 0.05 * i, 0.5, float(cs[0]) if len(pols) == 1 else cs, 0.08)
            psf.set_calculation_props(5, 20, 36)
            if i % 2:
                psf.calculate_psf_kernel(suppress_warnings=True, accelerated=False, normalized=bool(i % 3))
            objs.append(("psf", psf)); c = copy.deepcopy(psf); first = c.kernel.tobytes(); c.calculate_psf_kernel(suppress_warnings=True, accelerated=False)
            want.append([first, c.kernel.tobytes(), c.NA, c.wavelength, c.kernel_size, c.pixel_size])
        with tempfile.TemporaryDirectory() as folder:
            a, b = os.path.join(folder, "a"), os.path.join(folder, "b")
            with open(a, "wb") as f:
                pickle.dump(objs, f, protocol)
            script = OTHER.format(site=boot.HYPOTHESIS_SITE, src=os.path.join(boot.REPO, "src"))
            res = subprocess.run([sys.executable, "-B", "-c", script, a, b], cwd=folder, capture_output=True, text=True, timeout=200)
            require(res.returncode == 0, "another process failed", case, res.stderr[-600:])
            with open(b, "rb") as f:
                got, back = pickle.load(f)
        for i, (x, y) in enumerate(zip(got, want)):
            require(x == y, "another result in another process", case, i, str(objs[i][1]) if objs[i][0] == "pol" else seen(objs[i][1]))
        for (kind, o), (_, b) in zip(objs, back):
            if kind == "pol":
                require(o == b and str(o) == str(b) and same_bits(o.polynomial_value(r, th), b.polynomial_value(r, th)), "returned polynomial differs", case, str(o))
            else:
                o.calculate_psf_kernel(suppress_warnings=True, accelerated=False); require(seen(o) == seen(b), "returned PSF object differs", case, seen(o), seen(b))
