"""Python-level seams, installed in the zygote before the toolbox is imported.

Blocking primitives, sleeping and advisory file locks become simulator operations, so that code under test which uses
them parks in the simulator (deadlocks are detected) instead of blocking a real thread.  Outside a simulated run they
behave normally.  Clocks, kernel randomness and file system calls are behind the LD_PRELOAD seam (shim.c).
"""
import _thread
import ctypes
import os
import threading
import time

SIM = None                     # the active simulation of this process
_real_alloc = _thread.allocate_lock
_real_sleep = time.sleep
_lib = None
_hook_keep = None


def sim_task():
    s = SIM
    return s.me() if s is not None else None


class SimLock:
    _recursive = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s, t = SIM, sim_task()
        me = t if t is not None else ("os", _thread.get_ident())
        if self._recursive and self._owner is not None and self._owner == me:
            self._count += 1
            return True
        if self._owner is None:
            self._owner, self._count = me, 1
            return True
        if not blocking:
            return False
        if t is None:
            if s is not None:
                return s.block_unmanaged(self, timeout)
            raise RuntimeError("lock contention outside a simulated run")
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while self._owner is not None:
            if not s.block(t, lambda: self._owner is None, deadline, "lock"):
                return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            if SIM is not None:
                SIM.released()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        t = sim_task()
        return self._owner == (t if t is not None else ("os", _thread.get_ident()))

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _recursive = True

    def _release_save(self):
        c, o = self._count, self._owner
        self._count, self._owner = 0, None
        return (c, o)

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


_sleep_log = []


def sim_sleep(d):
    s, t = SIM, sim_task()
    if s is None or t is None:
        return _real_sleep(d)
    s.sleep(t, d)


_real_start = _thread.start_new_thread


def sim_start(fn, args=(), kwargs=None):
    """A thread started by code under test becomes a task of the simulated scheduler."""
    s, t = SIM, sim_task()
    if s is None or t is None:
        return _real_start(fn, args, kwargs or {})
    return s.spawn(t, fn, args, kwargs or {})


_real_join = threading.Thread._wait_for_tstate_lock


def sim_join(self, block=True, timeout=-1):
    s, me, t = SIM, sim_task(), getattr(self, "_sim_task", None)
    if s is None or me is None or t is None:
        return _real_join(self, block, timeout)
    if t.state != "done":
        if not block or not s.block(me, lambda: t.state == "done", None if timeout < 0 else s.now + timeout, "join"):
            return None
    return _real_join(self, True, 10)


def install_python():
    """Called once, after numpy / pandas are imported and before the toolbox is."""
    import queue
    threading._start_new_thread = _thread.start_new_thread = _thread.start_new = sim_start
    threading.Thread._wait_for_tstate_lock = sim_join
    queue.SimpleQueue = queue._PySimpleQueue
    import concurrent.futures.thread as cft
    cft._global_shutdown_lock = SimLock()
    threading.Lock = SimLock
    threading.RLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    threading._allocate_lock_for_sim = _real_alloc
    time.sleep = sim_sleep
    try:
        import fcntl
        real_flock, real_lockf = fcntl.flock, fcntl.lockf

        def wrap(real):
            def locker(fd, op, *a):
                s, t = SIM, sim_task()
                if s is None or t is None or op & fcntl.LOCK_NB or op & fcntl.LOCK_UN:
                    return real(fd, op, *a)
                while True:
                    try:
                        return real(fd, op | fcntl.LOCK_NB, *a)
                    except OSError:
                        s.block(t, lambda: True, None, "flock")
                        s.spins = getattr(s, "spins", 0) + 1
                        if s.spins > 2000:
                            s.finish("deadlock", "file lock never released")
            return locker
        fcntl.flock, fcntl.lockf = wrap(real_flock), wrap(real_lockf)
    except ImportError:
        pass


# the stdlib keeps using real locks for its own machinery: Condition/Event/Semaphore/Queue created by the code under
# test are built from threading.Lock / RLock looked up at call time, hence from SimLock; Condition waits allocate
# `_allocate_lock`, patched here as well.
def patch_condition():
    threading._allocate_lock = SimLock


def shim():
    """ctypes handle of the preloaded seam, or None when it is not there."""
    global _lib
    if _lib is None:
        p = os.environ.get("DST_SHIM")
        if not p or not os.path.exists(p):
            return None
        _lib = ctypes.CDLL(p)
        try:
            _lib.sim_prefix
        except AttributeError:
            _lib = None
    return _lib


HOOK = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_char_p, ctypes.c_long)


def set_io_hook(fn, prefix):
    global _hook_keep
    lib = shim()
    if lib is None:
        return False
    if fn is None:
        ctypes.c_void_p.in_dll(lib, "sim_hook").value = None
        (ctypes.c_char * 4096).in_dll(lib, "sim_prefix").value = b""
        return True
    _hook_keep = HOOK(fn)
    ctypes.c_void_p.in_dll(lib, "sim_hook").value = ctypes.cast(_hook_keep, ctypes.c_void_p).value
    (ctypes.c_char * 4096).in_dll(lib, "sim_prefix").value = prefix.encode()
    return True


def set_clock(offset_s=0.0, step_s=0.0):
    lib = shim()
    if lib is not None:
        ctypes.c_int64.in_dll(lib, "sim_clock_offset").value = int(offset_s * 1e9)
        ctypes.c_int64.in_dll(lib, "sim_clock_step").value = int(step_s * 1e9)


BASE_TIME = 1700000000


def virtual_clock(now=0.0):
    """Clocks of this process show simulated time: a fixed date plus `now` seconds, a microsecond later at each reading."""
    lib = shim()
    if lib is not None:
        ctypes.c_int64.in_dll(lib, "sim_clock_base").value = int((BASE_TIME + now) * 1e9)
        s = ctypes.c_int64.in_dll(lib, "sim_clock_step")
        s.value = s.value or 1000


def real_clock():
    lib = shim()
    if lib is not None:
        for n in ("base", "offset", "step"):
            ctypes.c_int64.in_dll(lib, "sim_clock_" + n).value = 0


def clock_reads():
    lib = shim()
    return ctypes.c_int64.in_dll(lib, "sim_clock_reads").value if lib is not None else -1


def set_rand(seed):
    lib = shim()
    if lib is not None:
        ctypes.c_uint64.in_dll(lib, "sim_rand").value = seed


def watch(on=True):
    lib = shim()
    if lib is not None:
        ctypes.c_int.in_dll(lib, "sim_watch").value = int(on)


def forget():
    lib = shim()
    if lib is not None:
        ctypes.c_int.in_dll(lib, "sim_log_n").value = 0


def traces():
    """Files and directories that exist, or are gone, since `watch`, outside the simulated directory."""
    lib = shim()
    if lib is None:
        return ()
    n = ctypes.c_int.in_dll(lib, "sim_log_n").value
    if n == 0:
        return ()
    made, gone = {}, {}
    raw = ctypes.string_at(ctypes.addressof((ctypes.c_char * 65536).in_dll(lib, "sim_log")), min(n, 65536))
    for x in raw.decode("utf-8", "replace").rstrip("\0").split("\n"):
        if x[:1] == "+":
            made[x[1:]] = 1
        elif x[:1] == "-" and x[1:] not in made:
            gone[x[1:]] = 1
    return tuple(sorted("%s written" % p for p in made if os.path.lexists(p)) + sorted("%s removed" % p for p in gone if not os.path.lexists(p)))
