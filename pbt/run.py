"""Entry point: run.py <property id> [--tier quick|thorough] [--replay file] [--only sub-check]."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import boot  # noqa: E402


def reexec():
    """Run under the interpreter of the package with a fixed environment."""
    if os.environ.get("PBT_READY") != "1" or any(os.environ.get(k) != v for k, v in boot.ENV.items()):
        env = boot.environment(); env["PBT_READY"] = "1"
        python = boot.VENV_PYTHON if os.path.exists(boot.VENV_PYTHON) else sys.executable
        os.execve(python, [python, os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == "__main__":
    reexec()
    from pbt import core
    try:
        code = core.main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(code)
