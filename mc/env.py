"""Process environment: deterministic hashing, single-threaded torch, scratch HOME, code from /repo."""
import os
import shutil
import sys
import tempfile
import atexit
import warnings
from pathlib import Path

REPO = os.environ.get("MC_REPO", "/repo")
SCRATCH = None


def setup():
    global SCRATCH
    if os.environ.get("PYTHONHASHSEED") != "0":
        # fixed hash order: one source of nondeterminism less (re-exec once)
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "mc"] + sys.argv[1:])
    SCRATCH = Path(tempfile.mkdtemp(prefix="mc-scratch-"))
    pid = os.getpid()

    def _clean():
        if os.getpid() == pid:
            shutil.rmtree(SCRATCH, ignore_errors=True)

    atexit.register(_clean)
    os.environ["HOME"] = str(SCRATCH)
    os.environ["MPLCONFIGDIR"] = str(SCRATCH / "mpl")
    os.environ["MPLBACKEND"] = "Agg"
    for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ[v] = "1"
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    warnings.filterwarnings("ignore")
    import torch

    torch.set_num_threads(1)
    import dhg

    got = Path(dhg.__file__).resolve().parent.parent
    assert str(got) == str(Path(REPO).resolve()), f"dhg imported from {got}"
