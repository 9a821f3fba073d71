"""Process-wide state a library call must leave alone: how to set it, photograph it and compare photographs."""
import atexit
import builtins
import calendar
import csv
import decimal
import faulthandler
import gc
import hashlib
import json
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
import types
import warnings

import numpy as np

from . import probe, seams
from .gen import PKG

# seen by the calling thread only, or legitimately different while a call is in progress
THREAD_LOCAL = {"numpy error state", "numpy error callback", "decimal context", "numpy buffer size", "numpy print options", "open files", "threads", "signal mask", "files on disk"}
_pd = None
_fd_base = None
OUT_FD = None                  # memfd that stands in for stdout and stderr in a run


def pandas():
    global _pd
    if _pd is None:
        import pandas
        _pd = pandas
    return _pd


PATCHABLE = ("numpy", "math", "os", "os.path", "warnings", "builtins", "time", "random", "pandas", "sys", "io", "json",
             "numpy.linalg", "numpy.random", "logging", "decimal", "signal", "threading", "locale")
# names the simulator itself or the interpreter rebinds
VOLATILE = {("sys", "last_exc"), ("sys", "last_type"), ("sys", "last_value"), ("sys", "last_traceback"),
            ("builtins", "_"), ("warnings", "_filters_version"), ("warnings", "_onceregistry"), ("warnings", "onceregistry"),
            ("warnings", "_showwarnmsg_impl")}


_FIXED = None                  # [(module name, dict, [names])] photographed by identity
_MUTDEF = []                   # toolbox functions with mutable default arguments
_LOGGERS = []                  # the loggers of other libraries
_DATA = None                   # [(qualified name, dict, name)] photographed by content


def prepare():
    """Zygote: fix the lists of names to photograph (additions later are lazy imports, not changes)."""
    global _FIXED, _DATA
    _FIXED, _DATA = [], []
    tempfile.gettempdir()              # found out once, kept by the module
    seams.watch()
    _MUTDEF.clear()
    for mod in PATCHABLE:
        m = sys.modules.get(mod)
        if m is not None:
            # modules imported lazily as attributes are not a change of behaviour
            _FIXED.append((mod, vars(m), [k for k, v in vars(m).items() if (mod, k) not in VOLATILE and not k.startswith("__")
                                          and not isinstance(v, types.ModuleType)
                                          and not (mod == "threading" and k.startswith("_"))]))
    # methods of classes that programs share
    pd = pandas()
    for c in (pd.DataFrame, pd.Series, pd.Index, warnings.catch_warnings, logging.Logger, logging.Formatter, json.JSONEncoder, random.Random,
              threading.Thread):
        _FIXED.append((c.__module__ + "." + c.__name__, c.__dict__, [k for k, v in vars(c).items() if isinstance(v, types.FunctionType)]))
    _LOGGERS[:] = [x for _, x in sorted(logging.root.manager.loggerDict.items()) if isinstance(x, logging.Logger)]
    for name in sorted(sys.modules):
        if name != PKG and not name.startswith(PKG + "."):
            continue
        m = sys.modules[name]
        fn = []
        for k, v in vars(m).items():
            if k.startswith("_") or isinstance(v, types.ModuleType):
                continue
            if callable(v):
                fn.append(k)
                ds = (getattr(v, "__defaults__", None) or ()) + tuple((getattr(v, "__kwdefaults__", None) or {}).values())
                if any(isinstance(y, (list, dict, set, np.ndarray)) for y in ds):
                    _MUTDEF.append(v)
            elif isinstance(v, (dict, list, tuple, np.ndarray)):
                if len(v):                          # an empty container may be a cache, which is allowed
                    _DATA.append((name + "." + k, vars(m), k))
            elif isinstance(v, (str, bytes, bool)):
                _DATA.append((name + "." + k, vars(m), k))
        _FIXED.append((name, vars(m), fn))


def fixed():
    return [(mod, list(map(id, map(d.get, keys)))) for mod, d, keys in _FIXED]


def defaults():
    return [(id(f.__defaults__), repr(f.__defaults__), repr(f.__kwdefaults__)) for f in _MUTDEF]


def data():
    return [repr(d.get(k)) if not isinstance(d.get(k), np.ndarray) else d[k].tobytes() for n, d, k in _DATA]


def fds():
    out = {}
    for d in os.listdir("/proc/self/fd"):
        try:
            out[int(d)] = os.readlink("/proc/self/fd/" + d)
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.startswith("/proc/")}


LIMITS = [getattr(resource, "RLIMIT_" + x) for x in ("NOFILE", "AS", "STACK", "CPU", "CORE", "FSIZE", "DATA", "NPROC")]


def snapshot(deep=True):
    s = {}
    s["numpy error state"] = repr(sorted(np.geterr().items()))
    s["numpy error callback"] = repr(np.geterrcall())
    s["warning filters"] = [(f[0], str(getattr(f[1], "pattern", f[1])), f[2].__name__, str(getattr(f[3], "pattern", f[3])), f[4])
                            for f in warnings.filters]
    s["warning hook"] = (id(warnings.showwarning.__func__) if hasattr(warnings.showwarning, "__func__")
                         else id(warnings.showwarning), id(warnings.formatwarning))
    st = random.getstate()
    s["random state"] = hash((st[1], st[2]))
    n = np.random.get_state(legacy=True)
    s["numpy random state"] = (hashlib.md5(n[1].tobytes()).hexdigest(), n[2], n[3], n[4])
    s["environment variables"] = dict(os.environ._data)
    try:
        s["working directory"] = os.getcwd()
    except OSError as e:
        s["working directory"] = repr(e)
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["time zone"] = time.tzname
    s["signal handlers"] = [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR2,
                                                                signal.SIGFPE, signal.SIGHUP, signal.SIGCHLD, signal.SIGPIPE)]
    s["pending timers"] = [signal.getitimer(x)[1] for x in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["int digits limit"] = sys.get_int_max_str_digits()
    s["trace hooks"] = (repr(sys.gettrace()), repr(sys.getprofile()))
    s["except hooks"] = (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook))
    s["gc"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
    s["numpy print options"] = repr(sorted(np.get_printoptions().items(), key=lambda x: x[0]))
    s["numpy buffer size"] = np.getbufsize()
    c = decimal.getcontext()
    s["decimal context"] = (c.prec, c.rounding, c.Emin, c.Emax, [v for _, v in sorted(c.traps.items(), key=lambda x: x[0].__name__)])
    pd = pandas()
    s["pandas options"] = repr(pd._config.config._global_config)
    r = logging.root
    s["logging"] = (r.level, r.disabled, [id(x) for x in r.handlers], len(r.filters), r.manager.disable, logging.raiseExceptions,
                    id(logging.lastResort), id(logging.getLoggerClass()), id(logging.getLogRecordFactory()))
    s["loggers of other libraries"] = [(x.level, x.disabled, x.propagate, len(x.handlers), len(x.filters)) for x in _LOGGERS]
    s["csv settings"] = (csv.field_size_limit(), csv.list_dialects())
    s["calendar"] = calendar.firstweekday()
    s["exit functions"] = atexit._ncallbacks()
    s["builtin names"] = len(vars(builtins)) - ("_" in vars(builtins))
    s["garbage collector callbacks"] = [id(x) for x in gc.callbacks]
    s["thread settings"] = (threading.stack_size(), repr(threading.gettrace()), repr(threading.getprofile()))
    s["socket timeout"] = socket.getdefaulttimeout()
    s["resource limits"] = [resource.getrlimit(x) for x in LIMITS]
    s["temporary directory setting"] = (tempfile.tempdir, tempfile.template)
    s["fault handler and bytecode"] = (faulthandler.is_enabled(), sys.dont_write_bytecode, sys.pycache_prefix)
    s["command line"] = list(sys.argv)
    s["signal mask"] = sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ()))
    s["processors"] = sorted(os.sched_getaffinity(0))
    s["open files"] = fds()
    s["files on disk"] = seams.traces()
    s["threads"] = len(threading.enumerate()) and sorted(t.name for t in threading.enumerate() if not isinstance(t, threading._DummyThread))
    s["standard streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    s["output"] = out_size()
    s["import path"] = (list(sys.path), [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks])
    s["umask and niceness"] = (_umask(), os.getpriority(os.PRIO_PROCESS, 0))
    if deep:
        s["rebound names"] = fixed()
        s["toolbox tables"] = data()
        s["toolbox defaults"] = defaults()
    return s


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def out_size():
    if OUT_FD is None:
        return 0
    for f in (sys.stdout, sys.stderr):
        try:
            f.flush()
        except Exception:
            pass
    return os.fstat(OUT_FD).st_size


def out_text():
    if OUT_FD is None:
        return ""
    return os.pread(OUT_FD, 300, 0).decode("utf-8", "replace")


def diff(a, b, shared_only=False, busy=None):
    """List of (what, detail) for everything that differs; files open below `busy` belong to calls in progress."""
    out = []
    for k in a:
        if shared_only and k in THREAD_LOCAL:
            continue
        if a[k] == b.get(k):
            continue
        if k == "rebound names":
            for (mod, _, keys), (_, x), (_, y) in zip(_FIXED, a[k], b[k]):
                ch = [n for n, u, v in zip(keys, x, y) if u != v]
                if ch:
                    out.append(("names rebound in " + mod, ch[:5]))
        elif k == "toolbox tables":
            out.append(("toolbox data changed", [n for (n, _, _), u, v in zip(_DATA, a[k], b[k]) if u != v][:5]))
        elif k == "toolbox defaults":
            out.append(("default arguments changed", ""))
        elif k in ("environment variables", "open files"):
            ch = sorted((n for n in set(a[k]) | set(b[k]) if a[k].get(n) != b[k].get(n)), key=str)
            if busy and k == "open files":
                ch = [n for n in ch if n in a[k] or not b[k][n].startswith(busy)]
            if ch:
                out.append((k, [(str(n), str(a[k].get(n)), str(b[k].get(n))) for n in ch[:4]]))
        elif k == "output":
            out.append((k, out_text()))
        else:
            out.append((k, "%s -> %s" % (str(a[k])[:140], str(b.get(k))[:140])))
    return out


# ------------------------------------------------------------------ setting it
def redirect_output():
    """stdout and stderr of a run go to memory, so that output by the code under test is noticed (and harmless)."""
    global OUT_FD
    OUT_FD = os.memfd_create("out", 0)
    os.dup2(OUT_FD, 1)
    os.dup2(OUT_FD, 2)


def thread_setup(env):
    e = env.get("np_err")
    if e:
        np.seterr(**e)
    if env.get("decimal"):
        decimal.getcontext().prec = env["decimal"]
    if env.get("printopts"):
        np.set_printoptions(**env["printopts"])
    if env.get("bufsize"):
        np.setbufsize(env["bufsize"])


_junk = []
_PLAIN = {}


def plain():
    """What reset() goes back to."""
    _PLAIN.update(err=np.geterr(), print=np.get_printoptions(), buf=np.getbufsize(), rec=sys.getrecursionlimit(),
                  sw=sys.getswitchinterval(), gc=gc.isenabled(), thr=gc.get_threshold(), prec=decimal.getcontext().prec,
                  loc=locale.setlocale(locale.LC_ALL), env=dict(os.environ),
                  pd=[(k, pandas().get_option(k)) for k in ("display.precision", "display.float_format")])


def reset():
    """Undo apply(), as far as the programs of one warm batch use it (see warm.py)."""
    d = _PLAIN
    np.seterr(**d["err"])
    np.set_printoptions(**{k: v for k, v in d["print"].items() if k != "override_repr" or v is not None})
    np.setbufsize(d["buf"])
    sys.setrecursionlimit(d["rec"])
    sys.setswitchinterval(d["sw"])
    (gc.enable if d["gc"] else gc.disable)()
    gc.set_threshold(*d["thr"])
    decimal.getcontext().prec = d["prec"]
    if locale.setlocale(locale.LC_ALL) != d["loc"]:
        locale.setlocale(locale.LC_ALL, d["loc"])
    if dict(os.environ) != d["env"]:
        os.environ.clear()
        os.environ.update(d["env"])
        time.tzset()
    for k, v in d["pd"]:
        pandas().set_option(k, v)


def stand_in(name):
    """Another library that the user's program has loaded."""
    if name not in sys.modules:
        m = sys.modules[name] = types.ModuleType(name)
        m.__version__ = "1.0"


DEPTH = [0]                    # frames of the caller below a toolbox call


def apply(env, sink):
    w = env.get("warn")
    if w:
        warnings.resetwarnings()
        if w == "mixed":
            warnings.simplefilter("always")
            warnings.filterwarnings("ignore", message="nothing like this", category=ResourceWarning)
        elif w != "interp":
            warnings.simplefilter(w)
        if sink is not None:
            warnings.showwarning = sink
    thread_setup(env)
    if "seed" in env:
        random.seed(env["seed"])
        np.random.seed(env["seed"] % 2**32)
    if "recursion" in env:
        sys.setrecursionlimit(env["recursion"])
    if "pd_precision" in env:
        pandas().set_option("display.precision", env["pd_precision"])
    if "pd_fmt" in env:
        pandas().set_option("display.float_format", env["pd_fmt"].format)
    if "environ" in env:
        for k, v in env["environ"].items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
    if "tz" in env:
        os.environ["TZ"] = env["tz"]
        time.tzset()
    if "cwd" in env:
        if env["cwd"] == "gone":
            import tempfile
            d = tempfile.mkdtemp(dir=os.environ.get("DST_TMP"))
            os.chdir(d)
            os.rmdir(d)
        else:
            os.chdir(env["cwd"])
    if "locale" in env:
        try:
            locale.setlocale(locale.LC_ALL, env["locale"])
        except locale.Error:
            pass
    if "clock" in env:
        seams.set_clock(*env["clock"])
    if "rand" in env:
        seams.set_rand(env["rand"])
    if "gc" in env:
        (gc.enable if env["gc"] else gc.disable)()
    if "gcthr" in env:
        gc.set_threshold(*env["gcthr"])
    if "switchint" in env:
        sys.setswitchinterval(env["switchint"])
    if "pd_more" in env:
        for k, v in env["pd_more"].items():
            pandas().set_option(k, v)
    if "misc" in env:
        probe.MISC.update(env["misc"])
    if "files" in env:
        probe.FILES.clear()
        for n, (k, v) in enumerate(sorted(env["files"].items())):
            p = os.path.join(os.environ.get("DST_TMP") or "/tmp", "file%d_%d" % (os.getpid(), n))
            with open(p, "w", encoding="latin-1") as fh:
                fh.write(v)
            probe.FILES[k] = p
    if "junk" in env:
        # other allocations: different addresses, and freed memory that is not zero
        _junk.append([object() for _ in range(env["junk"])])
        for n in (1, 2, 3, 4, 5, 6, 8, 10, 17, 33, 64, 128, 300, 1100):
            for _ in range(8):
                a = np.full(n, -9.87e77)
            del a
    if "streams" in env:
        if env["streams"] == "none":
            sys.stdout = sys.stderr = None
        elif env["streams"] == "closed":
            sys.stdout = sys.stderr = open(os.devnull, "w")
            sys.stdout.close()
        else:
            sys.stdout = sys.stderr = open(os.devnull, "w", encoding="ascii")
        _junk.append(sys.stdout)               # kept: no ResourceWarning when the next setting replaces it
    if "loglevel" in env:
        import logging
        logging.root.setLevel(env["loglevel"])
    for n in env.get("mods", ()):
        stand_in(n)
    if "tname" in env:
        threading.current_thread().name = env["tname"]
    if "ps1" in env:
        sys.ps1 = ">>> "
    if "depth" in env:
        DEPTH[0] = env["depth"]
    if "argv" in env:
        sys.argv[:] = env["argv"]
