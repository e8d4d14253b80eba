#!/opt/venv/bin/python
"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough]
                                run.py <PROPERTY> --replay FILE
                                run.py --setup

Exit 0: the property held on everything explored.
Exit 1: a line 'VIOLATION property=<id> replay=<path>' was printed.
Exit 2: the harness itself could not do its job.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    # openquake compiles dozens of kernels at import; seismostats uses none.
    "NUMBA_DISABLE_JIT": "1",
    "TZ": "UTC",
    "LC_ALL": "C.UTF-8",
}


def _python():
    for p in ("/opt/venv/bin/python", sys.executable):
        if os.path.exists(p):
            return p
    return sys.executable


if os.environ.get("_SV_CHILD") != "1":
    env = dict(os.environ)
    env.update(_ENV)
    env["_SV_CHILD"] = "1"
    for k in ("PYTHONPATH", "PYTEST_ADDOPTS", "http_proxy", "https_proxy",
              "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        env.pop(k, None)
    os.execve(_python(), [_python(), os.path.abspath(__file__), *sys.argv[1:]],
              env)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from sv import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
