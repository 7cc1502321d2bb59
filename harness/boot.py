"""Process set-up shared by every check: import paths and a quiet, pinned environment.

The code under test is always imported from the working tree of /repo (src layout, so
there is nothing to compile); Hypothesis comes from the offline tool environment, appended
at the END of sys.path so that numpy/scipy/matplotlib are those of /opt/venv.
"""

import atexit
import contextlib
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def child_env():
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONNOUSERSITE="1",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
    )
    env.pop("PYTHONPATH", None)
    return env


def setup():
    """Make diffpy.srmise (from REPO) and hypothesis importable in this process."""
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    sys.dont_write_bytecode = True
    scratch = tempfile.mkdtemp(prefix="verif-srmise-")
    atexit.register(shutil.rmtree, scratch, True)
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["HOME"] = scratch  # nothing may be written outside the scratch directory
    os.chdir(scratch)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    return scratch


def quiet():
    """Silence the library's logging."""
    import logging

    logging.disable(logging.CRITICAL)
    logging.getLogger("diffpy.srmise").setLevel(logging.CRITICAL)


@contextlib.contextmanager
def listening(lowest=10):
    """Collects the library's messages of this level and above as (level, text)."""
    import logging

    seen = []

    class Listen(logging.Handler):
        def emit(self, record):
            seen.append((record.levelno, record.getMessage()))

    log = logging.getLogger("diffpy.srmise")
    listen = Listen()
    level, off = log.level, log.manager.disable
    others = log.handlers[:]
    log.handlers[:] = [listen]
    try:
        log.setLevel(lowest)
        logging.disable(logging.NOTSET)
        yield seen
    finally:
        log.handlers[:] = others
        log.setLevel(level)
        logging.disable(off)
