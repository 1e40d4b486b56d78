"""run.py ID [--tier quick|thorough] [--replay FILE] ...: decide one property"""
import os
import sys

WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": ""}
PY = "/opt/venv/bin/python"

if __name__ == "__main__":
    import tempfile
    if any(os.environ.get(k) != v for k, v in WANT.items() if k != "MPLCONFIGDIR"):
        os.environ.update({k: v for k, v in WANT.items() if v})
        py = PY if os.path.exists(PY) else sys.executable
        os.execv(py, [py, "-B", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
    os.environ.pop("IN_MPI", None)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from sim.runner import main
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
