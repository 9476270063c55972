"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything observed.  1: violated.  2: inconclusive."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
if os.environ.get("PYTHONHASHSEED") != "0" or not os.environ.get("PYTHONDONTWRITEBYTECODE"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import core  # noqa: E402

if __name__ == "__main__":
    try:
        rc = core.main(sys.argv[1].upper(), sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
