"""Process start: environment, seams, import of the code under test.

Must be imported before numpy.  Everything the properties depend on that is not
decided by the program text is routed through a dispatcher installed here:

* the linear solver (scipy.sparse.linalg.spsolve, scipy/numpy dense solve),
* the clocks of module `time`,
* array allocation in the definition handlers (np.append, np.vstack, ...),
* `open` (text and binary streams), directory listings, and - by an audit hook -
  every other file system operation.

A dispatcher calls the real thing unless the calling thread is inside a
simulated World (see world.py), so that the library's own code runs unchanged.
The seams are put in place before trusspy is imported; /repo needs no hook.
"""
import os
import sys

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "trusspy") + os.sep

import builtins  # noqa: E402
import io  # noqa: E402
import time  # noqa: E402
import warnings  # noqa: E402

real_time = time.time
real_perf = time.perf_counter
real_open = builtins.open
real_print = builtins.print
real_listdir = os.listdir
real_scandir = os.scandir

import numpy as np  # noqa: E402
import scipy.linalg  # noqa: E402
import scipy.sparse.linalg  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

from . import world as W  # noqa: E402


def _wrap_solve(real):
    def solve(A, b, *args, **kwargs):
        w = W.current()
        if w is None:
            return real(A, b, *args, **kwargs)
        return w.on_solve(lambda: real(A, b, *args, **kwargs), b)

    solve.__name__ = getattr(real, "__name__", "solve")
    solve.__wrapped__ = real
    return solve


def _wrap_clock(name, real):
    def clock():
        w = W.current()
        if w is None or w.clock is None:
            return real()
        return w.on_clock(name)

    clock.__name__ = name
    return clock


def _wrap_alloc(name, real):
    def alloc(*args, **kwargs):
        w = W.current()
        if w is not None and w.alloc_plan is not None:
            caller = sys._getframe(1).f_code.co_filename
            if caller.startswith(PKG):
                w.on_alloc(name)
        return real(*args, **kwargs)

    alloc.__name__ = name
    alloc.__doc__ = real.__doc__
    alloc.__wrapped__ = real
    return alloc


def _open(file, mode="r", *args, **kwargs):
    w = W.current()
    if w is not None and w.io is not None:
        return w.io.open(real_open, file, mode, *args, **kwargs)
    return real_open(file, mode, *args, **kwargs)


def _listdir(*args, **kwargs):
    names = real_listdir(*args, **kwargs)
    w = W.current()
    if w is not None and w.io is not None:
        return w.io.listing(names)
    return names


class _Scandir:
    def __init__(self, real, names):
        entries = {e.name: e for e in real}
        self._real = real
        self._it = iter([entries[n] for n in names(list(entries))])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        self._real.close()


def _scandir(*args, **kwargs):
    it = real_scandir(*args, **kwargs)
    w = W.current()
    if w is not None and w.io is not None:
        return _Scandir(it, w.io.listing)
    return it


def _print(*args, **kwargs):
    real_print(*args, **kwargs)
    w = W.current()
    if w is not None and kwargs.get("file") is not None and kwargs["file"] in (sys.stderr, sys.__stderr__, sys.__stdout__):
        w.leaked.append(" ".join(str(a) for a in args))
    if w is not None and w.printed is not None and kwargs.get("file") is None:
        sep, end = kwargs.get("sep"), kwargs.get("end")
        text = (" " if sep is None else sep).join(str(a) for a in args) + ("\n" if end is None else end)
        w.printed.append(text)


class StreamOfImport:
    """the standard output that was in place when the library was imported: a model
    that still writes to it writes to the wrong place"""

    def __init__(self, real):
        self.real = real

    def write(self, s):
        w = W.current()
        if w is None:
            return self.real.write(s)
        w.leaked.append(str(s))
        return len(s)

    def __getattr__(self, name):
        return getattr(self.real, name)


def install():
    scipy.sparse.linalg.spsolve = _wrap_solve(scipy.sparse.linalg.spsolve)
    scipy.linalg.solve = _wrap_solve(scipy.linalg.solve)
    np.linalg.solve = _wrap_solve(np.linalg.solve)
    for name in (
        "time",
        "time_ns",
        "perf_counter",
        "perf_counter_ns",
        "process_time",
        "process_time_ns",
        "monotonic",
        "monotonic_ns",
        "thread_time",
        "thread_time_ns",
    ):
        setattr(time, name, _wrap_clock(name, getattr(time, name)))
    for name in ("append", "vstack", "hstack", "delete", "concatenate", "array", "zeros"):
        setattr(np, name, _wrap_alloc(name, getattr(np, name)))
    import timeit

    timeit.default_timer = time.perf_counter
    real_gettime, real_gettime_ns, real_times = time.clock_gettime, time.clock_gettime_ns, os.times
    ids = {
        time.CLOCK_REALTIME: "time",
        time.CLOCK_MONOTONIC: "perf_counter",
        time.CLOCK_PROCESS_CPUTIME_ID: "process_time",
        time.CLOCK_THREAD_CPUTIME_ID: "thread_time",
    }

    def clock_gettime(k):
        w = W.current()
        if w is None or w.clock is None:
            return real_gettime(k)
        return w.on_clock(ids.get(k, "monotonic"))

    def clock_gettime_ns(k):
        w = W.current()
        if w is None or w.clock is None:
            return real_gettime_ns(k)
        return w.on_clock(ids.get(k, "monotonic") + "_ns")

    def times():
        w = W.current()
        if w is None or w.clock is None:
            return real_times()
        return os.times_result((w.on_clock("process_time"), 0.0, 0.0, 0.0, w.on_clock("monotonic")))

    time.clock_gettime, time.clock_gettime_ns, os.times = clock_gettime, clock_gettime_ns, times
    builtins.print = _print
    builtins.open = _open
    io.open = _open
    os.listdir = _listdir
    os.scandir = _scandir
    sys.addaudithook(W.audit)


def _mpl_home():
    "a matplotlib configuration of our own, with the font list if there is one"
    import atexit
    import glob
    import shutil
    import tempfile

    home = tempfile.mkdtemp(prefix="dst-mpl-")
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(home, ignore_errors=True))
    for f in glob.glob("/opt/trusspy-work/mpl/fontlist-*.json"):
        shutil.copy(f, home)
    os.environ["MPLCONFIGDIR"] = home
    os.chmod(home, 0o755)


def load():
    "import the code under test from the working tree (no cached byte code)"
    _mpl_home()
    import matplotlib

    matplotlib.use("Agg")
    import imageio  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    import mpl_toolkits.mplot3d  # noqa: F401
    import scipy.sparse  # noqa: F401

    install()
    sys.path.insert(0, SRC)
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent-pycache"
    out = sys.stdout
    sys.stdout = sys.__stdout__ = StreamOfImport(out)
    try:
        import trusspy
        import trusspy.tools  # noqa: F401
    finally:
        sys.pycache_prefix = old
        sys.stdout = out
    assert trusspy.__file__.startswith(PKG), trusspy.__file__
    return trusspy
