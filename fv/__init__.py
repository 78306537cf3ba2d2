"""fv: a small deductive verifier for the real Python/JAX code in /repo.

The verified text is the program itself: functions are imported from /repo and
traced (jaxpr) or executed (host numpy) on symbolic arguments on every run.
"""
import os as _os
import sys as _sys

_os.environ.setdefault("JAX_PLATFORMS", "cpu")
_os.environ.setdefault("MPLBACKEND", "Agg")
_os.environ.setdefault("OMP_NUM_THREADS", "1")
_os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
_sys.dont_write_bytecode = True
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in _sys.path:
    _sys.path.append(_VT)
