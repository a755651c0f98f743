import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from zernpy import ZernPol, ZernPSF

from .. import boot
from ..core import Check, note, require
from .p24 import orders_of
from .p28 import same, state

CHECK = Check("P29", "generated histories of 4 to 16 saves (several folders given as text or path, with or without overwriting), reads (remembered, foreign, missing paths, folders) and "
              "changes of content over three PSF objects which share names of files, with all files compared before and after every step; saving without a folder runs in a copy of "
              "the package in a scratch folder; non-trivial: a save meets an existing file",
              ["the given folder exists"], scale=2)


def op():
    who = st.integers(0, 3)
    return st.one_of(st.tuples(st.just("change"), who, st.integers(0, 6), st.integers(0, 5)), st.tuples(st.just("save"), who, st.integers(0, 2), st.booleans(), st.booleans()),
                     st.tuples(st.just("save"), who, st.integers(0, 1), st.booleans(), st.booleans()), st.tuples(st.just("read"), who, st.sampled_from(["own", "own", "text", "path"]), st.integers(0, 2)),
                     st.tuples(st.just("read wrong"), who, st.sampled_from(["missing", "folder", "missing path", "never saved"])))


COEFFICIENTS = [-0.25, 0.1, 2.0, 0.1000001, 0.12, -0.2500000000000001, 1e-7]  # some are close


def change(psf, coefficient, kernel):
    c = COEFFICIENTS[coefficient]
    psf.set_physical_props(NA=0.5 + 0.1 * kernel, wavelength=0.5, expansion_coeff=c if psf.zernpol is not None else [c, 0.5], pixel_physical_size=0.05 + 0.01 * kernel)
    psf.set_calculation_props(5 + 2 * (kernel % 2), 20 + kernel, 40 + kernel); psf.kernel = np.random.default_rng(kernel).random((psf.kernel_size,) * 2)


def files(folder):
    return {str(p): p.read_bytes() for p in Path(folder).rglob("*") if p.is_file()}


def recorded(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        fn()
    return len(w)


def nontrivial(case):
    saves = [(o[1] if o[1] == 2 else 0, o[2]) for o in case if o[0] == "save"]
    return len(set(saves)) < len(saves)


@CHECK.gen("histories", st.lists(op(), min_size=4, max_size=16), quick=250, nontrivial=nontrivial)
def histories(case):
    with tempfile.TemporaryDirectory(prefix="pbt_p29_") as root:
        run(case, root)


UNUSUAL = ["sub folder", "ends with space ", " starts with space", "ünïcödé λ", "with.dots.", "psf_(1, 3)_0.1.json", "~", "$HOME", "a%20b", "UPPER", "[1, 3]", "back\\slash", "quote'\"", ".hidden"]


def run(case, root):
    unusual = UNUSUAL[sum(len(s) + s[1] for s in case) % len(UNUSUAL)]
    folders = [os.path.join(root, name) for name in ("a", "b.json", unusual)]
    for f in folders:
        os.mkdir(f)
    objs = [ZernPSF(ZernPol(m=-1, n=3)), ZernPSF(ZernPol(m=-1, n=3)), ZernPSF((ZernPol(m=0, n=2), ZernPol(m=2, n=2))), ZernPSF(ZernPol(m=1, n=3))]
    contents = {}  # path -> saved state
    saved = [False] * 4; owners = {}
    for k, x in enumerate(objs):
        change(x, 0, k)
    for step in case:
        what, who = step[0], step[1]; psf = objs[who]; before = files(root); before_state = state(psf); others = [(x, state(x)) for x in objs if x is not psf]
        if what == "change":
            change(psf, step[2], step[3])
            require(files(root) == before, "changing settings writes files", case)
        elif what == "save":
            folder, as_path, overwrite = folders[step[2]], step[3], step[4]
            warned = recorded(lambda: psf.save_json(abs_path=Path(folder) if as_path else folder, overwrite=overwrite))
            after = files(root); path = psf.json_file_path
            require(isinstance(path, str) and os.path.dirname(path) == folder, "remembered path isn't in the given folder", case, path, folder)
            require(path in after, "remembered path is not a file", case, path)
            require({p: t for p, t in after.items() if p != path} == {p: t for p, t in before.items() if p != path}, "another file is changed, created or deleted", case)
            saved[who] = True; of = (orders_of(psf), psf.expansion_coeff if psf.zernpol is not None else None)
            require(owners.setdefault(path, of) == of, "PSFs of different polynomials or coefficients share a file", case, path, owners[path], of)
            if path in before and not overwrite:
                note("kept"); require(after[path] == before[path], "an existing file is changed without the flag", case, path)
                require(warned > 0, "no warning that the file exists", case)
            else:
                note("overwritten" if path in before else "created")
                require(warned == 0, "warning in spite of saving", case); contents[path] = before_state
            same(before_state, state(psf), "saving changes the object", case)
            fresh = ZernPSF(ZernPol(m=4, n=4)); fresh.read_json(path); same(contents[path], state(fresh), "content of the file", case)
        elif what == "read":
            how, k = step[2], step[3]; source = psf if how == "own" else objs[k]
            if not (saved[who] if how == "own" else saved[k]):
                continue
            path = source.json_file_path; warned = recorded(lambda: psf.read_json() if how == "own" else psf.read_json(path if how == "text" else Path(path)))
            require(path in contents, "remembered path was never written", case, path); same(contents[path], state(psf), "content after reading", case)
            require(warned == 0, "warning in spite of reading", case); require(files(root) == before, "reading changes files", case)
        else:
            how = step[2]; missing = os.path.join(folders[0], "psf_missing.json")
            target = {"missing": missing, "folder": folders[1], "missing path": Path(missing), "never saved": None}[how]
            if how == "never saved":
                if saved[who]:
                    continue
            warned = recorded(lambda: psf.read_json(target))
            require(warned > 0, "no warning for a missing file", case, how); same(before_state, state(psf), "reading a missing file changes the object", case)
            require(files(root) == before, "reading a missing file changes files", case)
        for x, want in others:
            same(want, state(x), f"'{what}' changes another object", case)


SCRIPT = """
import json, os, sys, warnings
sys.path.insert(0, sys.argv[1]); warnings.simplefilter("ignore")
import numpy as np
from pathlib import Path
import zernpy
from zernpy import ZernPol, ZernPSF
root = Path(sys.argv[1]); assert str(root) in zernpy.__file__, zernpy.__file__
out = []; elsewhere = root / "elsewhere"; elsewhere.mkdir()
for number, steps in enumerate(json.loads(sys.argv[2])):
    objs = [ZernPSF(ZernPol(m=1, n=3)), ZernPSF((ZernPol(m=0, n=2), ZernPol(m=2, n=2)))]; log = []
    for step in steps:
        psf = objs[step[1]]; before = {str(p.relative_to(root)): p.read_bytes() for p in root.rglob("*.json")}
        c = 0.1 + number / 1000 + step[2] / 10
        psf.set_physical_props(0.5, 0.5, c if step[1] == 0 else [c, 0.25], 0.1); psf.set_calculation_props(3, 20, 36); psf.kernel = np.full((3, 3), len(log) + 1.0)
        if step[0] == "given":
            psf.save_json(abs_path=str(elsewhere), overwrite=True)
        elif step[0] == "load":
            psf.save_json(overwrite=True); other = ZernPSF(ZernPol(m=3, n=3)); other.read_json(psf.json_file_path); psf = other; psf.save_json(overwrite=True)
        else:
            psf.save_json(overwrite=step[0] == "overwrite")
        after = {str(p.relative_to(root)): p.read_bytes() for p in root.rglob("*.json")}
        again = ZernPSF(ZernPol(m=2, n=4)); again.read_json(psf.json_file_path)
        log.append({"path": os.path.relpath(psf.json_file_path, root), "new": sorted(set(after) - set(before)), "changed": sorted(p for p in before if after.get(p) != before[p]), "value": float(again.kernel.flat[0])})
    out.append(log)
print("RESULT" + json.dumps(out))
"""
DEFAULT = st.lists(st.lists(st.tuples(st.sampled_from(["plain", "plain", "overwrite", "given", "load"]), st.integers(0, 1), st.integers(0, 1)), min_size=1, max_size=6), min_size=10, max_size=25)


@CHECK.gen("without_folder", DEFAULT, quick=2, nontrivial=lambda c: len(c) > 1, max_shrink=60)
def without_folder(case):
    """Saving without a folder: always into 'saved_psfs' in the package, wherever the same object was saved before."""
    with tempfile.TemporaryDirectory(prefix="pbt_p29_") as root:
        root = os.path.realpath(root); shutil.copytree(os.path.join(boot.REPO, "src", "zernpy"), os.path.join(root, "zernpy"), ignore=shutil.ignore_patterns("__pycache__", "tests"))
        os.makedirs(os.path.join(root, "zernpy", "saved_psfs"), exist_ok=True); cwd = os.path.join(root, "cwd"); os.mkdir(cwd)
        env = boot.environment(); env["NUMBA_DISABLE_JIT"] = "1"
        p = subprocess.run([sys.executable, "-c", SCRIPT, root, json.dumps(case)], capture_output=True, text=True, timeout=300, cwd=cwd, env=env)
        lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
        require(p.returncode == 0 and lines, "the program failed", p.stderr[-1500:])
        value = {}
        for number, (steps, log) in enumerate(zip(case, json.loads(lines[0][6:]))):
            for k, (step, entry) in enumerate(zip(steps, log)):
                where = [case[number], k, entry]; want = "elsewhere" if step[0] == "given" else os.path.join("zernpy", "saved_psfs"); path = entry["path"]
                require(os.path.dirname(path) == want, "not saved in the expected folder", where)
                kept = path in value and step[0] == "plain"; note("kept" if kept else "saved")
                require(entry["changed"] in ([], [path]) and entry["new"] in ([], [path]) and (path in value) == (not entry["new"]), "another file is written", where)
                if not kept:
                    value[path] = k + 1.0
                require(entry["value"] == value[path], "reading the saved file gives another content", where, value[path])
