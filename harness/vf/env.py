"""Process environment of every check. Import this before foxes/numpy."""

import atexit
import os
import shutil
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parents[2]
REPO = Path(os.environ.get("VF_REPO", "/repo"))
SPEC = VERIF / "spec"
EVIDENCE = VERIF / "evidence"
FINDINGS = VERIF / "known_findings.json"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"

SCRATCH = Path(tempfile.mkdtemp(prefix="vf-"))
_OWNER = os.getpid()


def _cleanup():
    if os.getpid() == _OWNER:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)

sys.dont_write_bytecode = True
for k, v in {
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "MPLCONFIGDIR": str(SCRATCH / "mpl"),
    "HOME": str(SCRATCH / "home"),
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "TQDM_DISABLE": "1",
    "DASK_DISTRIBUTED__WORKER__MEMORY__PAUSE": "False",
}.items():
    os.environ[k] = v
(SCRATCH / "home").mkdir(exist_ok=True)
if str(REPO) not in sys.path:
    sys.path.insert(0, str(REPO))


def cases(quick, thorough=None):
    """Number of cases for the current tier."""
    return (thorough if thorough is not None else 5 * quick) if THOROUGH else quick
