"""Seam for what toolbox code asks its surroundings: environment variables, other files, process and machine identity.

Installed before the toolbox is imported.  Questions asked by toolbox code (possibly through the standard library, not
through numpy or pandas) are recorded in SEEN; the answers can be set by the simulator in ENV / FILES / MISC.
"""
import builtins
import io
import os
import socket
import sys

PKGNAME = "deltares_coastal_structures_toolbox"
SEEN = {}                     # ("env", key) | ("path", path) | ("misc", name) -> count, in order of first question
FILES = {}                    # path -> stand-in path
MISC = {"pid": 4242, "ppid": 4241, "cpus": 8, "host": "simhost", "uid": 1000, "tty": False}
_busy = False


def asked_by_toolbox():
    f = sys._getframe(2)
    for _ in range(14):
        if f is None:
            return False
        n = f.f_code.co_filename
        if PKGNAME in n:
            return True
        if "site-packages" in n or n.startswith("<frozen importlib"):
            return False
        f = f.f_back
    return False


def note(kind, what):
    k = (kind, what)
    if k in SEEN or len(SEEN) < 60:
        SEEN[k] = SEEN.get(k, 0) + 1


def install():
    E = os._Environ
    real_get = E.__getitem__

    def getitem(self, key):
        if asked_by_toolbox():
            note("env", key if isinstance(key, str) else repr(key))
        return real_get(self, key)
    E.__getitem__ = getitem

    def other(path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if not isinstance(p, str) or p.startswith(("/proc/", "/dev/", "<")) or p.endswith((".py", ".pyc")):
            return None
        return p

    def wrap(real, reading=None):
        def call(path, *a, **k):
            if not isinstance(path, int) and asked_by_toolbox() and (reading is None or reading(a, k)):
                p = other(path)
                if p is not None:
                    note("path", p)
                    if p in FILES:
                        path = FILES[p]
            return real(path, *a, **k)
        call.__name__ = getattr(real, "__name__", "call")
        return call

    def is_read(a, k):
        m = a[0] if a else k.get("mode", "r")
        return isinstance(m, str) and "r" in m and "+" not in m
    os.stat = wrap(os.stat)
    os.access = wrap(os.access)
    builtins.open = io.open = wrap(builtins.open, is_read)

    def misc(name, real, conv=lambda x: x):
        def call(*a):
            if asked_by_toolbox():
                note("misc", name)
                return conv(MISC[name])
            return real(*a)
        call.__name__ = getattr(real, "__name__", name)
        return call
    os.getpid = misc("pid", os.getpid)
    os.getppid = misc("ppid", os.getppid)
    os.cpu_count = misc("cpus", os.cpu_count)
    os.getuid = misc("uid", os.getuid)
    os.isatty = misc("tty", os.isatty)
    socket.gethostname = misc("host", socket.gethostname)
    real_uname = os.uname
    os.uname = misc("host", real_uname, lambda h: os.uname_result((lambda u: (u[0], h, u[2], u[3], u[4]))(real_uname())))
