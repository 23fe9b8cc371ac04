"""Process environment of a simulation worker, and loading of the library under test.

Nothing here imports jax at module import time: `boot()` must run first.
"""
import importlib
import os
import sys

REPO = os.environ.get("FSIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG_DIR = os.path.join(SRC, "fmmax") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAKES = os.path.join(VERIF, "fakes")
PYTHON = "/opt/venv/bin/python"

MODULES = ("basis", "beams", "farfield", "fft", "fields", "fmm", "fmm_matrices",
           "pml", "scattering", "sources", "utils", "vector")


def worker_environ(hashseed="0"):
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed),
             MPLBACKEND="Agg", JAX_ENABLE_X64="1", TF_CPP_MIN_LOG_LEVEL="3",
             PYTHONPATH=VERIF)
    return e


_booted = False


def boot(fake_jeig=False):
    """Puts the library under test on the path. With `fake_jeig` the simulator's own
    eigensolver package is importable, so that the library picks it up."""
    global _booted
    if not _booted:
        sys.dont_write_bytecode = True
        for p in (SRC, REPO):
            if p in sys.path:
                sys.path.remove(p)
            sys.path.insert(0, p)
        import jax
        jax.config.update("jax_enable_x64", True)
        jax.config.update("jax_cpu_enable_async_dispatch", False)
        _booted = True
    if fake_jeig:
        if FAKES not in sys.path:
            sys.path.insert(0, FAKES)
    else:
        if FAKES in sys.path:
            sys.path.remove(FAKES)


class FM:
    """A namespace holding one instance (one import) of the library."""


def purge():
    for name in list(sys.modules):
        if name == "fmmax" or name.startswith("fmmax."):
            del sys.modules[name]


def load(fresh=True):
    """Imports the library; with `fresh`, a new instance with no history."""
    if fresh:
        purge()
    pkg = importlib.import_module("fmmax")
    if not os.path.abspath(pkg.__file__).startswith(PKG_DIR):
        raise RuntimeError(f"wrong library under test: {pkg.__file__}")
    fm = FM()
    fm.fmmax = pkg
    for m in MODULES:
        setattr(fm, m, importlib.import_module("fmmax." + m))
    return fm
