"""Run the check of one property: ``check.py C01`` or ``check.py --replay FILE``.

Exit status: 0 the property held on everything explored, 1 a violation was
found (a line ``VIOLATION property=<id> replay=<path>`` is printed), anything
else is an error of the machinery.
"""
import os
import sys

ENV = {
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
    "NUMBA_DISABLE_JIT": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
}

if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        os.environ.update(ENV)
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from mpv.core import main
    sys.exit(main(sys.argv[1:]))
