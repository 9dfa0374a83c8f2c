"""Seams: everything nondeterministic or fallible that pylogit touches, behind
the simulator.

`install()` must run before pylogit is imported.  It replaces, inside this
worker process only:

  * sys.stdout / sys.stderr          -> SimStream  (console; can fail)
  * time.time/.monotonic/...         -> SimClock   (can jump, stall, run back)
  * scipy.optimize.minimize          -> optimiser seam (real code inside)
  * scipy.linalg.inv, numpy.linalg.* -> linear-algebra seam (real code inside)
  * threading.Lock/RLock (only when created by pylogit) -> SimLock
  * os.urandom                       -> seeded stream, different in every run
  * builtins.open, io.open, os.*     -> SimDisk for paths in the scratch dir
                                        (see disk.py)

numpy, scipy, pandas, statsmodels and tqdm run for real.  pylogit itself runs
for real, unmodified, from /repo/src.
"""
import io
import os
import sys
import time as _time
import threading as _threading
import importlib
import importlib.machinery
import importlib.util

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
PKG_DIR = os.path.join(os.path.realpath(REPO_SRC), "pylogit") + os.sep

real = {}          # the real functions, for the harness's own use
current = None     # the active Run (sched.Run) or None


class SimFault(Exception):
    """Base for exceptions that only the harness raises on its own behalf."""


class SimCrash(BaseException):
    """The simulated process dies here.  Nothing pylogit does afterwards may
    have an effect on the simulated disk."""


# --------------------------------------------------------------------------
# Console
# --------------------------------------------------------------------------
class SimStream(io.TextIOBase):
    encoding = "utf-8"

    def __init__(self, name):
        self.sim_name = name
        self.count = 0

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, text):
        self.count += 1
        run = current
        if run is not None:
            run.seam(self.sim_name, text)
            if self.sim_name == "stdout":
                t = run.task_here()
                if t is not None and t.in_op and len(t.out) < 4000:
                    t.out.append(text)
        return len(text)

    def flush(self):
        run = current
        if run is not None:
            run.seam(self.sim_name + ".flush")


# --------------------------------------------------------------------------
# Clock
# --------------------------------------------------------------------------
class SimClock(object):
    BASE = 1.6e9

    def __init__(self):
        self.reset(None)

    def reset(self, cfg):
        """cfg: None (steady) or {"mode":..., "seed":...}"""
        self.now = self.BASE
        self.reads = 0
        self.cfg = cfg
        self.jumps = 0
        self.elapsed = 0.0
        if cfg is not None:
            import random
            self.rng = random.Random(cfg["seed"])

    def read(self):
        self.reads += 1
        cfg = self.cfg
        step = 0.001
        if cfg is not None:
            mode = cfg["mode"]
            if mode == "stalled":
                step = 0.0
            elif mode == "back" and self.rng.random() < cfg["p"]:
                step = -self.rng.choice([1e-3, 0.5, 61.0, 3600.0, 86400.0 * 40])
                self.jumps += 1
            elif mode == "fwd" and self.rng.random() < cfg["p"]:
                step = self.rng.choice([1.0, 59.999, 61.0, 3600.0, 86400.0 * 400])
                self.jumps += 1
            elif mode == "both" and self.rng.random() < cfg["p"]:
                step = self.rng.choice([1.0, 61.0, 86400.0]) * self.rng.choice([-1, 1])
                self.jumps += 1
        self.now += step
        self.elapsed += abs(step)
        if not (1e8 < self.now < 4e9):
            self.now = self.BASE
        return self.now


clock = SimClock()


def _install_clock():
    for n in ("time", "monotonic", "perf_counter", "strftime", "localtime",
              "gmtime", "ctime", "asctime", "sleep", "time_ns", "monotonic_ns",
              "perf_counter_ns", "process_time"):
        real[n] = getattr(_time, n)

    def _read():
        run = current
        if run is not None:
            run.seam("clock")
        return clock.read()

    _time.time = _read
    _time.monotonic = _read
    _time.perf_counter = _read
    _time.process_time = _read
    _time.time_ns = lambda: int(_read() * 1e9)
    _time.monotonic_ns = _time.time_ns
    _time.perf_counter_ns = _time.time_ns

    def _strftime(fmt, t=None):
        return real["strftime"](fmt, real["gmtime"](_read()) if t is None else t)

    def _localtime(secs=None):
        return real["gmtime"](_read() if secs is None else secs)

    _time.strftime = _strftime
    _time.localtime = _localtime
    _time.gmtime = _localtime

    def _sleep(secs):
        clock.now += max(0.0, secs)
        run = current
        if run is not None:
            run.seam("sleep")
    _time.sleep = _sleep


# --------------------------------------------------------------------------
# Locks created by pylogit (there are none at the pinned commit; a change may
# add some, and a parked thread must never hold a real lock).
# --------------------------------------------------------------------------
class SimLock(object):
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _me(self):
        return _threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking or timeout >= 0:
                return False
            run = current
            if run is None or not run.block_on(self):
                raise SimDeadlock("lock can never be acquired")

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


class SimDeadlock(RuntimeError):
    pass


def _caller_is_pylogit(depth=2):
    f = sys._getframe(depth)
    return f.f_code.co_filename.startswith(PKG_DIR)


def _install_locks():
    real["Lock"] = _threading.Lock
    real["RLock"] = _threading.RLock

    def Lock(*a, **k):
        if _caller_is_pylogit():
            return SimLock()
        return real["Lock"](*a, **k)

    def RLock(*a, **k):
        if _caller_is_pylogit():
            return SimRLock()
        return real["RLock"](*a, **k)

    _threading.Lock = Lock
    _threading.RLock = RLock


# --------------------------------------------------------------------------
# Optimiser and linear algebra
# --------------------------------------------------------------------------
def _install_numeric():
    import numpy
    import scipy.linalg
    import scipy.optimize

    real["minimize"] = scipy.optimize.minimize

    def minimize(fun, x0, *args, **kwargs):
        run = current
        if run is None:
            return real["minimize"](fun, x0, *args, **kwargs)
        run.seam("minimize")

        def objective(*a, **k):
            run.seam("eval")
            return fun(*a, **k)
        if run.optimizer is None:
            return real["minimize"](objective, x0, *args, **kwargs)
        return run.optimizer(run, real["minimize"], objective, x0, args, kwargs)
    minimize.__name__ = "minimize"
    scipy.optimize.minimize = minimize

    def wrap(mod, name, key):
        orig = getattr(mod, name)
        real[key] = orig

        def f(*a, **k):
            run = current
            if run is not None and _caller_is_pylogit(2):
                run.seam(key)
            return orig(*a, **k)
        f.__name__ = name
        setattr(mod, name, f)
    for name in ("inv", "pinv", "solve", "cholesky"):
        wrap(scipy.linalg, name, "linalg")
        wrap(numpy.linalg, name, "linalg")


# --------------------------------------------------------------------------
# Operating-system entropy (os.urandom and what is built on it: uuid, secrets,
# random.SystemRandom, numpy's automatic seeding)
# --------------------------------------------------------------------------
def _install_entropy():
    import random
    real["urandom"] = os.urandom
    idle = random.Random("idle")

    def urandom(n):
        run = current
        if run is not None:
            run.seam("entropy")
        return (idle if run is None else run.entropy).getrandbits(
            8 * n).to_bytes(n, "big") if n else b""
    os.urandom = urandom
    random._urandom = urandom


# --------------------------------------------------------------------------
# Fresh copies of pylogit
# --------------------------------------------------------------------------
class _CachingLoader(importlib.machinery.SourceFileLoader):
    _codes = {}

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = self._codes.get(path)
        if code is None:
            with real["open"](path, "rb") as fh:
                code = compile(fh.read(), path, "exec", dont_inherit=True)
            self._codes[path] = code
        return code


class _Finder(object):
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname == "pylogit":
            p = os.path.join(PKG_DIR, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, p, loader=_CachingLoader(fullname, p),
                submodule_search_locations=[PKG_DIR.rstrip(os.sep)])
        if fullname.startswith("pylogit."):
            rel = fullname.split(".")[1:]
            base = os.path.join(PKG_DIR, *rel)
            if os.path.isdir(base):
                p = os.path.join(base, "__init__.py")
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=_CachingLoader(fullname, p),
                    submodule_search_locations=[base])
            p = base + ".py"
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=_CachingLoader(fullname, p))
        return None


class Universe(object):
    """One freshly imported copy of pylogit: all of its module-level (volatile)
    state starts from scratch, as after a process restart."""

    def __init__(self):
        for k in [k for k in sys.modules
                  if k == "pylogit" or k.startswith("pylogit.")]:
            del sys.modules[k]
        global current
        saved, current = current, None
        try:
            self.pl = importlib.import_module("pylogit")
            for m in sorted(os.listdir(PKG_DIR)):
                if m.endswith(".py") and m != "__init__.py":
                    importlib.import_module("pylogit." + m[:-3])
        finally:
            current = saved
        self.mods = {k: v for k, v in sys.modules.items()
                     if k == "pylogit" or k.startswith("pylogit.")}

    def activate(self):
        for k in [k for k in sys.modules
                  if k == "pylogit" or k.startswith("pylogit.")]:
            if k not in self.mods:
                del sys.modules[k]
        sys.modules.update(self.mods)
        return self

    def mod(self, name):
        return self.mods["pylogit." + name]


# --------------------------------------------------------------------------
# Process-wide settings that belong to the caller, not to the library
# --------------------------------------------------------------------------
_PD_OPTIONS = ("display.max_rows", "display.max_columns", "display.width",
               "display.precision", "display.float_format",
               "mode.chained_assignment", "display.max_colwidth",
               "display.expand_frame_repr")


def ambient():
    """The process-wide settings as they are now."""
    import gc
    import signal
    import warnings
    import numpy
    import pandas
    out = {"numpy.geterr": tuple(sorted(numpy.geterr().items())),
           "numpy.geterrcall": numpy.geterrcall(),
           "numpy.get_printoptions": repr(sorted(
               numpy.get_printoptions().items(), key=lambda kv: kv[0])),
           "warnings.filters": repr(warnings.filters),
           "working directory": os.getcwd(),
           "os.environ": tuple(sorted(os.environ.items())),
           "sys.stdout": id(sys.stdout), "sys.stderr": id(sys.stderr),
           "recursion limit": sys.getrecursionlimit(),
           "gc.isenabled": gc.isenabled()}
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM):
        out["handler of signal %d" % s] = signal.getsignal(s)
    for o in _PD_OPTIONS:
        try:
            out["pandas " + o] = repr(pandas.get_option(o))
        except Exception:
            pass
    return out


def ambient_get():
    """The settings in a form that can be put back."""
    import warnings
    import numpy
    import pandas
    return {"filters": list(warnings.filters), "cwd": os.getcwd(),
            "environ": dict(os.environ), "streams": (sys.stdout, sys.stderr),
            "err": numpy.geterr(), "errcall": numpy.geterrcall(),
            "print": numpy.get_printoptions(),
            "pandas": {o: pandas.get_option(o) for o in _PD_OPTIONS}}


def ambient_set(st):
    import warnings
    import numpy
    import pandas
    numpy.seterr(**st["err"])
    numpy.seterrcall(st["errcall"])
    if warnings.filters != st["filters"]:
        warnings.filters[:] = st["filters"]
    if os.getcwd() != st["cwd"]:
        os.chdir(st["cwd"])
    if dict(os.environ) != st["environ"]:
        os.environ.clear()
        os.environ.update(st["environ"])
    sys.stdout, sys.stderr = st["streams"]
    if numpy.get_printoptions() != st["print"]:
        numpy.set_printoptions(**st["print"])
    for o, v in st["pandas"].items():
        if pandas.get_option(o) != v:
            pandas.set_option(o, v)


def ambient_reset():
    """The settings every simulated process starts with."""
    ambient_set(_baseline)


_baseline = {}


def ambient_diff(before, after):
    for k in before:
        if before[k] != after.get(k):
            return k
    return None


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import builtins
    import warnings
    real["open"] = builtins.open
    real["io_open"] = io.open
    real["stdout"] = sys.stdout
    real["stderr"] = sys.stderr
    warnings.simplefilter("ignore")
    import numpy            # noqa
    import pandas           # noqa
    import scipy.stats      # noqa
    import scipy.sparse     # noqa
    import statsmodels.iolib.summary  # noqa
    import tqdm
    import tqdm.std
    tqdm.tqdm.monitor_interval = 0
    tqdm.tqdm.set_lock(_threading.RLock())
    numpy.seterr(all="ignore")
    _install_clock()
    tqdm.std.time = _time.time
    _install_locks()
    _install_numeric()
    _install_entropy()
    sys.stdout = SimStream("stdout")
    sys.stderr = SimStream("stderr")
    sys.meta_path.insert(0, _Finder)
    from . import disk
    disk.install()
    _baseline.update(ambient_get())
