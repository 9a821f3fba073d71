"""A pristine process image of the tree under test, from which every simulated run is forked.

start() imports numpy, pandas and the toolbox (behind the seams) but never calls a toolbox function; run(fn, ...) forks,
calls fn in the child and returns its picklable result.  A run therefore always starts from the same state.
"""
import gc
import os
import pickle
import select
import signal
import sys
import time

REPO = os.environ.get("DST_REPO", "/repo")


class Died(Exception):
    """The child ended without an answer (status) or did not answer in time (status None)."""

    def __init__(self, status):
        super().__init__("child status %r" % (status,))
        self.status = status


def start(load=True, clock=None, rand=0):
    sys.path.insert(0, REPO)
    import numpy                                                          # noqa
    import numpy.random                                                   # noqa
    import pandas                                                         # noqa
    import concurrent.futures.thread                                      # noqa
    import logging                                                        # noqa
    import socket                                                         # noqa
    import scipy                                                          # noqa
    from . import ambient, gen, probe, seams, values, world                      # noqa
    # things pandas / numpy import lazily, so that runs do not differ by who imports first
    import io
    pandas.DataFrame({"a": [1.5, 2.0]}).to_csv(io.StringIO(), sep=";")
    numpy.array2string(numpy.array([1.5]))
    ambient.pandas()
    try:
        import matplotlib.font_manager                                    # noqa: may build its font cache, with a thread
    except Exception:                                                     # noqa: not part of what is checked
        pass
    seams.install_python()
    seams.patch_condition()
    # threads hand over explicitly; a waiter for the interpreter lock must not time out on (and so poll) the virtual clock
    sys.setswitchinterval(1e6)
    sys.pycache_prefix = os.path.join(os.environ.get("DST_TMP") or "/tmp", "no_such_pycache")   # compile the tree as it is now
    probe.install()
    if load:
        import importlib
        seams.virtual_clock()                       # the toolbox is imported at a fixed simulated time
        seams.set_clock(clock or 0.0, 1e-6)
        seams.set_rand(rand or 0x9E3779B97F4A7C15)
        pkg = importlib.import_module(gen.PKG)
        here = os.path.dirname(os.path.abspath(pkg.__file__))
        if not here.startswith(os.path.abspath(REPO) + os.sep):
            raise SystemExit("toolbox imported from %s, not from %s" % (here, REPO))
        api = gen.Api()
        world.prepare()
        seams.real_clock()
        seams.set_rand(0)
    else:
        api = None
    ambient.prepare()
    gc.collect()
    gc.freeze()
    return api


def run(fn, *args, timeout=60.0, keep_output=False):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            from . import ambient
            if not keep_output:
                ambient.redirect_output()
            res = ("ok", fn(*args))
        except BaseException as e:                                        # noqa
            import traceback
            res = ("err", "".join(traceback.format_exception(e))[-3000:])
        try:
            data = pickle.dumps(res)
            # the real os.write on a pipe; loop over short writes
            v = memoryview(data)
            while v:
                v = v[os.write(w, v):]
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    t0 = time.monotonic()
    hung = False
    while True:
        left = timeout - (time.monotonic() - t0)
        if left <= 0:
            hung = True
            break
        if not select.select([r], [], [], left)[0]:
            hung = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hung:
        raise Died(None)
    if not buf:
        raise Died(st)
    kind, val = pickle.loads(bytes(buf))
    if kind == "err":
        raise RuntimeError("harness error in simulated run:\n" + val)
    return val
