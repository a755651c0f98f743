"""Process set-up shared by all checks: environment, import paths, silent library."""
import os
import sys

ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "NPY_DISABLE_CPU_FEATURES": "X86_V4 AVX512_ICL AVX512_SPR"}
VENV_PYTHON = "/opt/venv/bin/python"  # interpreter for which the package is installed from /repo
HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
REPO = os.environ.get("PBT_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.environ.get("PBT_EVIDENCE") or os.path.join(VERIF, "evidence")  # another folder for trials


def environment() -> dict:
    env = dict(os.environ)
    env.update(ENV)
    return env


def prepare():
    """Make 'zernpy' importable from /repo/src and Hypothesis from the tools folder (behind everything else)."""
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(HYPOTHESIS_SITE)
        import hypothesis  # noqa: F401
    import warnings
    warnings.simplefilter("ignore")
    import zernpy
    where = os.path.dirname(os.path.abspath(zernpy.__file__))
    if not where.startswith(os.path.abspath(src)):
        raise RuntimeError(f"zernpy imported from {where}, expected below {src}")
