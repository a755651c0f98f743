"""Rewrite the table of seeded changes in DESIGN.md (not used by checks)."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## Seeded changes and the checks which catch them"
# changes missed by the first version of the check and what was added then
MISSED = {
 "sum_skips_repeated": "repeated polynomials in sums", "crop_strict_eps": "widths at the documented border",
 "piston_shared": "returned arrays are modified by the caller between calls", "size_signed_alpha": "size for signs and order",
 "kernel_cache": "one setting changed at a time against quadrature", "read_float32": "exact values of random kernels",
 "name_rounded": "close coefficients, no shared files", "results_reused": "earlier results stay unchanged",
 "close_breaks": "leftover processes are ended by the harness", "parallel_k_stale": "derived attributes (P24)",
 "plot_3d_sym": "other angle ranges", "plot_normalized": "scaled kernels", "force_class_attr": "class defaults compared",
 "force_compiled_flag": "public attributes of all objects compared",
}
extra = os.path.join(here, "tools", "missed.json")
if os.path.exists(extra):
    MISSED.update(json.load(open(extra)))
rows = []
for m in glob.glob(os.path.join(here, "seeded", "*", "meta.json")):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    rows.append((d["property"], n, d["what_it_breaks"], d["needs"], MISSED.get(n) or MISSED.get(n.split("_", 1)[-1], "")))
rows.sort()
text = HEAD + "\n\nEvery change was written from the statement of the property and the code; each applies to HEAD, passes the tests, and its demonstration tells the two trees apart. " \
    "All are caught by the quick check of the property (column 1); the last column tells what had to be added if the first version of the check missed it.\n\n" \
    "| property | change | breaks | needs | added to catch it |\n|---|---|---|---|---|\n"
for r in rows:
    text += "| " + " | ".join(c.replace("|", "/") for c in r) + " |\n"
p = os.path.join(here, "DESIGN.md"); s = open(p).read()
i = s.index(HEAD)
j = s.find("\n## ", i + 5)
rest = s[j + 1:] if j >= 0 else ""
s = s[:i] + text + ("\n" + rest if rest else "")
open(p, "w").write(s); print(len(rows))
