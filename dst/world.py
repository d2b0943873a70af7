"""The simulated world around one model: solver faults, clocks, allocation,
output stream, file system.  A World is plain data plus counters; everything it
does is decided by its plan, nothing by chance."""
import errno
import hashlib
import io
import os
import sys
import threading
from collections import Counter

import numpy as np

_tls = threading.local()


def current():
    return getattr(_tls, "world", None)


def enter(world):
    old = getattr(_tls, "world", None)
    _tls.world = world
    return old


class active:
    def __init__(self, world):
        self.world = world

    def __enter__(self):
        self.old = enter(self.world)
        return self.world

    def __exit__(self, *exc):
        enter(self.old)


class SimBudget(BaseException):
    "the run exceeded its budget of simulated work"


class SimCrash(BaseException):
    "the process dies here"


EXC = {
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "FloatingPointError": FloatingPointError,
    "ArithmeticError": ArithmeticError,
    "BrokenPipeError": BrokenPipeError,
    "OSError": OSError,
    "SystemExit": SystemExit,
    "GeneratorExit": GeneratorExit,
}


def make_exc(name):
    cls = EXC[name]
    if issubclass(cls, OSError):
        code = errno.EPIPE if cls is BrokenPipeError else errno.EIO
        return cls(code, "injected")
    return cls("injected")


def noise(seed, n):
    "n numbers in [-1, 1], a function of seed only"
    out = np.empty(n)
    for i in range(n):
        h = hashlib.blake2b(f"{seed}:{i}".encode(), digest_size=8).digest()
        out[i] = int.from_bytes(h, "big") / 2**63 - 1
    return out


SOLVE_FAULTS = ("stall", "scale", "negate", "kick", "nan", "inf", "nan1", "raise")


class Clock:
    """Virtual clocks.  Time passes only when the program works: `work(kind)` is
    called at solves and allocations.  plan: dict with lists `wall`, `cpu` (seconds
    per solve, cycled), `awall`, `acpu` (per allocation), origins, `jumps`
    [[solve, seconds]] of the system time."""

    def __init__(self, plan):
        self.p = plan
        self.wall = 0
        self.cpu = 0
        self.jump = 0
        self.n = 0

    def _add(self, wall, cpu):
        self.wall += int(round(wall * 1e9))
        self.cpu += int(round(cpu * 1e9))

    def solve(self):
        p = self.p
        self._add(p["wall"][self.n % len(p["wall"])], p["cpu"][self.n % len(p["cpu"])])
        for at, delta in p.get("jumps", ()):
            if at == self.n:
                self.jump += int(round(delta * 1e9))
        self.n += 1

    def alloc(self):
        self._add(self.p.get("awall", 0), self.p.get("acpu", 0))

    def idle(self, wall, cpu=0.0):
        self._add(wall, cpu)

    def read(self, name):
        ns = name.endswith("_ns")
        base = name[:-3] if ns else name
        p = self.p
        if base == "process_time":
            t = self.cpu + int(p.get("o_cpu", 0) * 1e9)
        elif base == "thread_time":  # the solver works in threads of its own, too
            t = self.cpu // 2 + int(p.get("o_cpu", 0) * 1e9)
        elif base == "perf_counter":
            t = self.wall + int(p.get("o_perf", 0) * 1e9)
        elif base == "monotonic":
            t = self.wall + int(p.get("o_mono", 0) * 1e9)
        else:
            t = self.wall + self.jump + int(p.get("o_time", 0) * 1e9)
        return t if ns else t / 1e9


class World:
    def __init__(
        self,
        faults=(),
        budget=100000,
        clock=None,
        alloc=None,
        crash=None,
        io=None,
        name="",
    ):
        self.name = name
        self.faults = [list(f) for f in faults]
        self.budget = budget
        self.clock = Clock(clock) if isinstance(clock, dict) else clock
        self.alloc_plan = alloc  # set of indices of allocations that fail
        self.crash = crash  # [seam, index, exception]
        self.io = io
        self.nsolve = 0
        self.nalloc = 0
        self.nclock = 0
        self.nwrite = 0
        self.printed = None  # a list here collects what is printed
        self.on_solve_hook = None  # called before every solve
        self.leaked = []  # written to the stream of import time
        self.stats = Counter()
        self.log = hashlib.sha256()
        self.trace = []  # short event list, for reports

    # -- log --------------------------------------------------------------
    def ev(self, *what):
        self.log.update(repr(what).encode())
        if len(self.trace) < 400:
            self.trace.append(what)

    def digest(self):
        return self.log.hexdigest()

    def _crash(self, seam, index):
        c = self.crash
        if c is not None and c[0] == seam and c[1] == index:
            self.stats["crash." + seam + "." + c[2]] += 1
            self.ev("crash", seam, index, c[2])
            raise make_exc(c[2])

    # -- solver -----------------------------------------------------------
    def fault_at(self, k):
        for f in self.faults:
            if f[0] <= k < f[0] + f[1]:
                return f
        return None

    def on_solve(self, real, b):
        k = self.nsolve
        self.nsolve += 1
        if k >= self.budget:
            self.ev("budget", k)
            raise SimBudget(f"more than {self.budget} linear solves")
        if self.on_solve_hook is not None:
            self.on_solve_hook(k)
        if self.clock is not None:
            self.clock.solve()
        self._crash("solve", k)
        f = self.fault_at(k)
        if f is None:
            x = self.real(real)
            self.ev("solve", k)
            return x
        kind, par = f[2], f[3] if len(f) > 3 else None
        self.stats["fault." + kind] += 1
        self.ev("fault", k, kind)
        n = np.size(b)
        if kind == "raise":
            raise make_exc(par or "MemoryError")
        if kind == "stall":
            return np.zeros(n)
        if kind == "nan":
            return np.full(n, np.nan)
        if kind == "inf":
            return np.full(n, np.inf)
        x = np.array(self.real(real), dtype=float).reshape(-1)
        if kind == "nan1":
            x = x.copy()
            x[int(par or 0) % n] = np.nan
            return x
        if kind == "scale":
            return x * float(par)
        if kind == "negate":
            return -x
        if kind == "kick":
            mag, seed = par
            return x + mag * noise(f"{seed}:{k}", n)
        if kind == "kick1":  # one component only
            mag, comp = par
            x = x.copy()
            x[int(comp) % n] += mag
            return x
        raise ValueError(kind)

    def real(self, fn):
        try:
            return fn()
        except Exception as e:  # the real solver refuses this matrix
            self.stats["real_solver_error"] += 1
            # of the wrong shape or type: what it was given is to blame
            e.given_by_library = isinstance(e, (TypeError, ValueError, IndexError))
            raise

    # -- clock ------------------------------------------------------------
    def on_clock(self, name):
        k = self.nclock
        self.nclock += 1
        self._crash("clock", k)
        self.stats["clock"] += 1
        return self.clock.read(name)

    # -- allocation -------------------------------------------------------
    def on_alloc(self, name):
        k = self.nalloc
        self.nalloc += 1
        if self.clock is not None:
            self.clock.alloc()
        if k in self.alloc_plan:
            self.stats["fault.alloc"] += 1
            self.ev("alloc", k, name)
            raise MemoryError("injected")


class Out(io.TextIOBase):
    "stand-in for the standard output of the process; may break"

    def __init__(self, world=None, fail_at=None, exc="BrokenPipeError"):
        self.parts = []
        self.world = world
        self.n = 0
        self.fail_at = fail_at
        self.exc = exc

    def writable(self):
        return True

    def write(self, s):
        k = self.n
        self.n += 1
        w = self.world
        if w is not None:
            w.nwrite = self.n
            w._crash("write", k)
        if self.fail_at is not None and k >= self.fail_at:
            if w is not None:
                w.stats["fault.stdout"] += 1
            raise make_exc(self.exc)
        self.parts.append(str(s))
        return len(s)

    def text(self):
        return "".join(self.parts)


# -- file system ---------------------------------------------------------------

_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_AUDITED = {
    "open",
    "os.mkdir",
    "os.rmdir",
    "os.remove",
    "os.rename",
    "os.link",
    "os.symlink",
    "os.truncate",
    "os.listdir",
    "os.scandir",
    "shutil.rmtree",
    "os.chmod",
    "os.chown",
    "os.utime",
    "os.kill",
    "subprocess.Popen",
    "os.system",
    "os.exec",
    "os.posix_spawn",
}


def audit(event, args):
    if event not in _AUDITED:
        return
    w = getattr(_tls, "world", None)
    if w is None or w.io is None or w.io.quiet:
        return
    w.io.audit(event, args)


def _abs(path, dir_fd=-1):
    if isinstance(path, int):
        return os.readlink(f"/proc/self/fd/{path}")
    path = os.fsdecode(path)
    if not os.path.isabs(path):
        if dir_fd is not None and dir_fd >= 0:
            path = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), path)
        else:
            path = os.path.join(os.getcwd(), path)
    return os.path.normpath(path)


class IOSim:
    """File system of one simulated process, rooted in a scratch directory.

    plan keys: fail: {op index: errno}, crash: op index (the process dies there),
    crash_exc: op index (KeyboardInterrupt there), space: bytes until the disk is
    full, chunk: largest short write, shuffle: listing order seed, write_fail:
    {write index: errno}."""

    def __init__(self, root, plan=None, stats=None, ev=None):
        self.root = os.path.realpath(root)
        self.plan = plan or {}
        self.quiet = False
        self.nop = 0
        self.nwrite = 0
        self.nlist = 0
        self.used = 0
        self.stats = stats if stats is not None else Counter()
        self.ev = ev or (lambda *a: None)
        self.escapes = []
        self.free = None  # a folder which other libraries may use, not counted
        self.ops = []
        self.on_crash = None

    def die(self, k):
        "the process ends here; nothing of it runs any more"
        self.stats["fault.crash"] += 1
        if self.on_crash is not None:
            self.on_crash()
            os._exit(9)
        raise SimCrash(k)

    def inside(self, path):
        return path == self.root or path.startswith(self.root + os.sep)

    def norm(self, path):
        return path.replace(self.root, "$ROOT")

    def audit(self, event, args):
        self.quiet = True
        try:
            self._audit(event, args)
        finally:
            self.quiet = False

    def _audit(self, event, args):
        write = True
        paths = []
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or path is None:
                return
            write = bool((flags or 0) & _WRITE_FLAGS)
            paths = [_abs(path)]
        elif event in ("os.listdir", "os.scandir"):
            write = False
            paths = [_abs(args[0] if args[0] is not None else ".")]
        elif event in ("os.mkdir",):
            paths = [_abs(args[0], args[2])]
        elif event in ("os.rmdir", "os.remove"):
            paths = [_abs(args[0], args[1])]
        elif event == "shutil.rmtree":
            paths = [_abs(args[0])]
        elif event in ("os.rename", "os.link"):
            paths = [_abs(args[0], args[2]), _abs(args[1], args[3])]
        elif event == "os.symlink":
            paths = [_abs(args[1], args[2])]
        elif event in ("os.truncate", "os.utime", "os.chmod", "os.chown"):
            paths = [_abs(args[0])]
        else:  # processes and signals
            self.escapes.append((event,))
            raise PermissionError(errno.EPERM, "blocked by the simulation")
        for p in paths:
            if p == "/dev/null" or self.free and (p == self.free or p.startswith(self.free + os.sep)):
                return
            if not self.inside(p):
                if write:
                    self.escapes.append((event, p))
                    raise PermissionError(errno.EPERM, "blocked by the simulation")
                return
        if event == "shutil.rmtree":
            return  # its steps are audited one by one
        k = self.nop
        self.nop += 1
        if len(self.ops) < 400:
            self.ops.append((event, [self.norm(p) for p in paths]))
        self.ev("io", event, [self.norm(p) for p in paths])
        plan = self.plan
        if plan.get("crash") == k:
            self.die(k)
        if plan.get("crash_exc") == k:
            self.stats["fault.interrupt"] += 1
            raise KeyboardInterrupt("injected")
        code = plan.get("fail", {}).get(str(k))
        if code is not None:
            self.stats["fault.io." + event] += 1
            raise OSError(code, os.strerror(code) + " (injected)", self.norm(paths[0]))

    # listings come back in an order the simulation chooses
    def listing(self, names):
        seed = self.plan.get("shuffle")
        k = self.nlist
        self.nlist += 1
        if seed is None:
            return sorted(names)
        self.stats["shuffle"] += 1
        key = lambda s: hashlib.blake2b(f"{seed}:{k}:{s}".encode()).digest()  # noqa
        return sorted(names, key=key)

    # streams
    def open(self, real_open, file, mode, *args, **kwargs):
        bad = self.plan
        writing = any(c in mode for c in "wax+")
        if (
            not writing
            or isinstance(file, int)
            or not self.inside(_abs(file))
            or args
            or set(kwargs) - {"encoding", "newline", "errors", "buffering"}
        ):
            return real_open(file, mode, *args, **kwargs)
        raw = FaultRaw(self, file, mode.replace("t", "").replace("b", ""))
        buffering = kwargs.get("buffering", -1)
        if "b" in mode:
            if buffering == 0:
                return raw
            size = buffering if buffering > 1 else 8192
            if "+" in mode:
                return io.BufferedRandom(raw, size)
            return io.BufferedWriter(raw, size)
        size = buffering if buffering > 1 else 8192
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        return io.TextIOWrapper(
            buf,
            encoding=kwargs.get("encoding"),
            errors=kwargs.get("errors"),
            newline=kwargs.get("newline"),
            line_buffering=buffering == 1,
        )


class FaultRaw(io.FileIO):
    def __init__(self, sim, file, mode):
        self.sim = sim
        super().__init__(file, mode)

    def write(self, data):
        sim, plan = self.sim, self.sim.plan
        k = sim.nwrite
        sim.nwrite += 1
        data = bytes(data)
        code = plan.get("write_fail", {}).get(str(k))
        if code == "interrupt":
            sim.stats["fault.io.interrupt"] += 1
            raise KeyboardInterrupt("injected")
        if code is not None:
            sim.stats["fault.io.write"] += 1
            sim.ev("write", k, code)
            raise OSError(code, os.strerror(code) + " (injected)")
        if plan.get("crash_write") == k:
            super().write(data[: len(data) // 2])  # torn write
            sim.die(k)
        chunk = plan.get("chunk")
        if chunk and len(data) > chunk:
            sim.stats["fault.io.short"] += 1
            data = data[:chunk]
        space = plan.get("space")
        if space is not None:
            left = space - sim.used
            if left <= 0:
                sim.stats["fault.io.full"] += 1
                raise OSError(errno.ENOSPC, "No space left on device (injected)")
            if len(data) > left:
                sim.stats["fault.io.short"] += 1
                data = data[:left]
        n = super().write(data)
        sim.used += n
        return n
