"""Process set-up shared by every check: environment, import paths, imports.

Import this module before numpy or gw_eccentricity.
"""
import os
import sys

ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMPI_MCA_ess_singleton_isolated": "1",
    "PYTHON_JULIAPKG_OFFLINE": "yes",
    "HOME": "/root",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/tmp/gwv-hypothesis",
}
for _k, _v in ENV.items():
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True

REPO = os.environ.get("GWV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# The code under test always comes from the working tree, whatever the
# editable install points at.
if REPO not in sys.path:
    sys.path.insert(0, REPO)

# hypothesis lives in the tooling venv; it is appended (never prepended) so
# that numpy/scipy and friends still come from the repository's own venv.
try:
    import hypothesis  # noqa: F401
except ImportError:
    _cands = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages",
              os.path.join(VERIF, ".deps")]
    for _c in _cands:
        if os.path.isdir(os.path.join(_c, "hypothesis")):
            sys.path.append(_c)
            break
    import hypothesis  # noqa: F401
