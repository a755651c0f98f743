"""Mechanical small changes of the package (not committed anywhere): which of them are not noticed by the checks.

mutate.py [--per-function N] [--seed S] [--jobs J] [--files part] [--functions part] [--out file] : prints survivors.
Every change is made in a copy of /repo in a scratch folder; the checks are pointed at it with PBT_REPO.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/zernpy"
FILES = ["zernikepol.py", "zernpsf.py", "calculations/calc_psfs.py", "calculations/calc_psfs_numba.py", "calculations/calc_zernike_pol.py",
         "calculations/find_pols_coeffs.py", "calculations/fit_zernike_pols.py", "plotting/plot_zerns.py", "utils/intmproc.py", "props/properties.py"]
SKIP = ("test_", "measure_", "time_", "check_conformity", "check_equal", "check_high", "_estimate", "radial_integral_s")
POL = "P04 P05 P06 P09 P10 P11 P08 P38 P07 P36 P12 P13 P03 P01 P37"
PSF = "P21 P22 P23 P24 P25 P38 P36 P40 P35 P28 P31"
RELEVANT = {  # function -> checks in the order of use
    "__init__": "P03 P01 P36 P25 P24 P30", "get_indices": "P01 P15", "get_polynomial_name": "P15", "__str__": "P15", "__gt__": "P15", "__eq__": "P15",
    "polynomial_value": "P06 P08 P09 P10 P36 P11", "radial": "P04 P08 P09 P10 P36", "radial_dr": "P05 P08 P09 P10 P36", "triangular": "P06 P10", "triangular_dtheta": "P06 P10 P05",
    "index2orders": "P02 P01", "osa2noll": "P02", "noll2osa": "P02", "osa2fringe": "P02", "fringe2osa": "P02", "get_noll_index": "P01 P02", "get_osa_index": "P01 P02", "get_fringe_index": "P01 P02",
    "sum_zernikes": "P12 P13 P10 P36", "_sum_zernikes_meshgrid": "P13", "gen_polar_coordinates": "P14", "gen_equal_polar_mesh": "P14 P13", "plot_profile": "P32", "gen_zernikes_surface": "P13 P32 P36",
    "plot_sum_zernikes_on_fig": "P32", "_plot_zernikes_half_pyramid": "P32 P33", "_check_radii": "P10 P09", "_check_angles": "P10 P09", "generate_polynomials": "P15", "generate_random_phases": "P17",
    "generate_phases_image": "P16", "fit_polynomials": "P19 P20 P18", "fit_polynomials_vectors": "P18",
    "set_physical_props": "P25 P24 P36", "set_calculation_props": "P25 P24 P36 P40", "calculate_psf_kernel": "P23 P24 P36 P40 P22 P21 P25", "plot_kernel": "P33", "convolute_img": "P27", "visualize_convolution": "P33",
    "crop_kernel": "P26 P24 P36", "save_json": "P29 P28 P36 P40", "read_json": "P28 P25 P36", "initialize_parallel_workers": "P31", "get_psf_point_r_parallel": "P31 P38", "get_kernel_parallel": "P31 P40",
    "deinitialize_workers": "P31 P30", "_sanity_check_expansion_coefficient": "P36 P25", "force_get_psf_compilation": "P35 P40 P36",
    "compare_performances": "P40", "airy_ref_pattern": "P21 P38", "get_kernel_size": "P23 P38", "convolute_img_psf": "P27 P33", "save_psf": "P29 P28 P40", "read_psf": "P28 P29", "get_bumped_circle": "P33",
    "crop_phases_img": "P19 P20", "fit_zernikes": "P18 P20"}
BY_FILE = {"zernikepol.py": POL, "zernpsf.py": PSF, "calculations/calc_psfs.py": PSF, "calculations/calc_psfs_numba.py": "P22 P38 P21 P23 P36 P40 P35", "calculations/calc_zernike_pol.py": "P04 P05 P06 P08 P38 P09 P11 P34",
           "calculations/find_pols_coeffs.py": "P34 P04 P05 P11 P37", "calculations/fit_zernike_pols.py": "P18 P19 P20", "plotting/plot_zerns.py": "P32", "utils/intmproc.py": "P30 P31 P40", "props/properties.py": "P15"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["//"]}


class Finder(ast.NodeVisitor):
    def __init__(self, source):
        self.source = source; self.offsets = [0]
        for line in source.splitlines(keepends=True):
            self.offsets.append(self.offsets[-1] + len(line.encode()))
        self.data = source.encode(); self.stack = []; self.found = []

    def span(self, node):
        return self.offsets[node.lineno - 1] + node.col_offset, self.offsets[node.end_lineno - 1] + node.end_col_offset

    def add(self, a, b, new, kind):
        function = next((s for s in reversed(self.stack)), "")
        if function.startswith(SKIP) or not self.stack:
            return
        self.found.append({"function": function, "start": a, "end": b, "old": self.data[a:b].decode(), "new": new, "kind": kind, "line": self.data[:a].count(b"\n") + 1})

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        body = node.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        for d in node.args.defaults:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.stack.pop()

    def visit_If(self, node):
        if isinstance(node.test, ast.Compare) and "__name__" in ast.dump(node.test):
            return
        a, b = self.span(node.test); self.add(a, b, f"not ({self.data[a:b].decode()})", "negated condition")
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            a = self.span(node.left)[1]; b = self.span(node.comparators[0])[0]
            for new in CMP.get(type(node.ops[0]), []):
                text = self.data[a:b].decode()
                if "(" not in text and ")" not in text:
                    self.add(a, b, f" {new} ", "comparison")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        a = self.span(node.left)[1]; b = self.span(node.right)[0]; text = self.data[a:b].decode()
        if "(" not in text and ")" not in text and "\n" not in text and not (isinstance(node.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(node.left, "value", ""), str)) \
                and not isinstance(node.right, ast.JoinedStr):
            for new in BIN.get(type(node.op), []):
                self.add(a, b, f" {new} ", "arithmetic")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        a = self.span(node.values[0])[1]; b = self.span(node.values[1])[0]; text = self.data[a:b].decode()
        if len(node.values) == 2 and "(" not in text and ")" not in text:
            self.add(a, b, text.replace("and", "or") if isinstance(node.op, ast.And) else text.replace("or", "and"), "and/or")
        for k, v in enumerate(node.values):
            a, b = self.span(v)
            self.add(a, b, "True" if isinstance(node.op, ast.And) else "False", "part of condition dropped")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        a, b = self.span(node); x, y = self.span(node.operand)
        if isinstance(node.op, (ast.USub, ast.Not)):
            self.add(a, b, self.data[x:y].decode(), "unary operator dropped")
        self.generic_visit(node)

    def visit_Constant(self, node):
        a, b = self.span(node); v = node.value
        if isinstance(v, bool):
            self.add(a, b, str(not v), "boolean")
        elif isinstance(v, int):
            self.add(a, b, str(v + 1), "integer + 1")
            if v > 1:
                self.add(a, b, str(v - 1), "integer - 1")
        elif isinstance(v, float):
            self.add(a, b, repr(v * 1.01 + (0.01 if v == 0 else 0)), "float * 1.01")

    def visit_JoinedStr(self, node):
        pass

    def removable(self, node):
        a, b = self.span(node); self.add(a, b, "pass", "statement removed")
        self.generic_visit(node)

    visit_Assign = visit_AugAssign = visit_Raise = visit_Break = removable

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call):
            if isinstance(node.value.func, ast.Name) and node.value.func.id == "print":
                return
            self.removable(node)

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            a, b = self.span(node.value); self.add(a, b, "None", "None returned")
        self.generic_visit(node)


def mutants(files, functions, per_function, seed):
    rng = random.Random(seed); out = []
    for f in FILES:
        if files and files not in f:
            continue
        src = open(os.path.join("/repo", SRC, f), encoding="utf-8", newline="").read(); finder = Finder(src); finder.visit(ast.parse(src)); groups = {}
        for m in finder.found:
            groups.setdefault(m["function"], []).append(m)
        for name, ms in groups.items():
            if functions and functions not in name:
                continue
            for m in rng.sample(ms, min(per_function, len(ms))):
                m["file"] = f; out.append(m)
    rng.shuffle(out)
    return out


def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--per-function", type=int, default=8); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--files"); ap.add_argument("--functions"); ap.add_argument("--out", default="/tmp/mutants.jsonl"); ap.add_argument("--list", action="store_true"); ap.add_argument("--near", action="store_true", help="only checks related to the function")
    a = ap.parse_args(); todo = mutants(a.files, a.functions, a.per_function, a.seed); print(len(todo), "changes", flush=True)
    if a.list:
        for m in todo:
            print(m["file"], m["line"], m["function"], m["kind"], repr(m["old"]), "->", repr(m["new"]))
        return
    work = tempfile.mkdtemp(prefix="mutants_"); lock = Lock(); free = []; results = open(a.out, "a")
    for k in range(a.jobs):
        d = os.path.join(work, f"w{k}"); shutil.copytree("/repo/src", os.path.join(d, "src"), ignore=shutil.ignore_patterns("__pycache__")); free.append(d)

    def one(m):
        with lock:
            d = free.pop()
        path = os.path.join(d, SRC, m["file"]); original = open(os.path.join("/repo", SRC, m["file"]), "rb").read()
        try:
            open(path, "wb").write(original[:m["start"]] + m["new"].encode() + original[m["end"]:])
            env = dict(os.environ, PBT_REPO=d, PBT_EVIDENCE=os.path.join(d, "ev"), HOME=d)
            checks = list(dict.fromkeys((RELEVANT.get(m["function"], "") + " " + BY_FILE[m["file"]] + " P39 P41 " + ("" if a.near else " ".join(f"P{k:02d}" for k in range(1, 44)))).split())); m["result"] = "SURVIVED"; m["errors"] = []
            try:
                compile(open(path, "rb").read(), path, "exec")
            except SyntaxError:
                m["result"] = "syntax"; checks = []
            for pid in checks:
                try:
                    r = subprocess.run([sys.executable, os.path.join(VERIF, "pbt/run.py"), pid, "--workers", "1"], env=env, cwd=d, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    m["errors"].append(pid + " timeout"); continue
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    m["result"] = "caught by " + pid; break
                if r.returncode not in (0, 1):
                    m["errors"].append(pid + ": " + (r.stdout + r.stderr)[-200:])
            if m["result"] == "SURVIVED" and m["errors"]:
                m["result"] = "error"
        finally:
            open(path, "wb").write(original)
            with lock:
                free.append(d); results.write(json.dumps(m) + "\n"); results.flush()
                if not m["result"].startswith(("caught", "syntax")):
                    print(m["result"], m["file"], m["line"], m["function"], m["kind"], repr(m["old"]), "->", repr(m["new"]), m["errors"][:1], flush=True)
        return m

    with ThreadPoolExecutor(a.jobs) as pool:
        done = list(pool.map(one, todo))
    print(sum(m["result"].startswith("caught") for m in done), "caught of", sum(m["result"] != "syntax" for m in done)); shutil.rmtree(work)


if __name__ == "__main__":
    main()
