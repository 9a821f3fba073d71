"""The simulated world: runs one program (JSON) in this (freshly forked) process and returns its history.

program = {
  "tasks":   [[step, ...], ...]       caller threads; task 0 is the main thread
  "gran":    "line" | "call" | "instr"   event granularity (events of toolbox code, see Monitor)
  "sched":   {"mode": "explicit"} | {"mode": "random", "seed": s, "p": 0.1} | {"mode": "pct", "seed": s, "d": 3, "n": len}
  "switches":[[t, i, ev, to], ...]    at event ev of step i of task t hand over to task `to` (ev 0: before the step)
  "faults":  [{"t":, "i":, "ev":, "kind":, ...}, ...]
  "shared":  {name: value}            caller-owned objects that calls refer to by {"ref": name}
  "env":     {...}                    ambient settings established before the first step
  "watch":   ["args", "results", "ambient", "mid"]     what is compared, and whether at every switch
  "limit":   event budget of the whole run
}
step = {"call": op} | {"mut": name, "to": value} | {"mutres": k} | {"gc": 1} | {"env": {...}} | {"drop": 1}
"""
import _thread
import ast
import ctypes
import gc
import os
import pickle
import random
import signal
import sys
import threading
import types
import warnings

import numpy as np

from . import ambient, probe, seams, values
from .gen import PKG, resolve

TOOL = 3
MON = sys.monitoring


def nested(n, fn, kw):
    """The call made by a caller that is itself n calls deep."""
    return nested(n - 1, fn, kw) if n else fn(**kw)


class Injected:
    """Marker mix-in of exceptions the simulator raises."""


class InjKeyboardInterrupt(KeyboardInterrupt, Injected):
    pass


class InjMemoryError(MemoryError, Injected):
    pass


class InjSystemExit(SystemExit, Injected):
    pass


class InjTimeout(TimeoutError, Injected):       # what a SIGALRM handler typically raises
    pass


class InjRecursion(RecursionError, Injected):
    pass


class InjValue(ValueError, Injected):
    pass


class InjFloat(FloatingPointError, Injected):
    pass


class InjKill(BaseException, Injected):         # thread killed (PyThreadState_SetAsyncExc)
    pass


EXC = {"KeyboardInterrupt": InjKeyboardInterrupt, "MemoryError": InjMemoryError, "SystemExit": InjSystemExit,
       "Timeout": InjTimeout, "RecursionError": InjRecursion, "Kill": InjKill, "ValueError": InjValue,
       "FloatingPointError": InjFloat}


class StopRun(BaseException):
    pass


# ------------------------------------------------------------------ which code is the toolbox's own
def pkg_dir():
    return os.path.dirname(os.path.abspath(sys.modules[PKG].__file__)) + os.sep


def pkg_codes():
    base = pkg_dir()
    out, todo = set(), []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(base):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.add(c)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return out


def no_fault_lines(fname):
    """Lines on which an asynchronous exception would defeat even a correct acquire/release idiom: `with` headers,
    `try:` lines, except and finally bodies.  Faults due there are postponed to the next line."""
    bad = set()
    try:
        tree = ast.parse(open(fname, encoding="utf-8").read())
    except (OSError, SyntaxError):
        return bad
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            bad.update(range(n.lineno, n.body[0].lineno))
            bad.add(n.lineno)
        elif isinstance(n, ast.Try) or n.__class__.__name__ == "TryStar":
            bad.add(n.lineno)
            bad.update(range(n.lineno, n.body[0].lineno))
            for blk in [n.finalbody] + [h.body for h in n.handlers]:
                if blk:
                    bad.update(range(blk[0].lineno - 1, blk[-1].end_lineno + 1))
            for h in n.handlers:
                bad.add(h.lineno)
    return bad


CODES = ()
NOFAULT = {}


def prepare():
    """Zygote: collect the toolbox's code objects and fault-free lines (no toolbox function is called)."""
    global CODES
    CODES = tuple(pkg_codes())
    for c in CODES:
        if c.co_filename not in NOFAULT:
            NOFAULT[c.co_filename] = no_fault_lines(c.co_filename)


class Task:
    def __init__(self, idx, steps):
        self.idx, self.steps = idx, steps
        self.lock = seams._real_alloc()
        self.lock.acquire()
        self.state = "ready"        # ready, blocked, stalled, done
        self.pred = None
        self.deadline = None
        self.why = ""
        self.i = -1                 # current step
        self.ev = 0                 # events in the current step
        self.stack = []             # records of calls in progress (innermost last)
        self.results = []           # (live object, image at return, record)
        self.kept = []              # (name, argument object, image, function) of finished calls
        self.sw = None              # {ev: to} of the current step
        self.fl = None              # {ev: [fault]} of the current step
        self.pending = []           # faults waiting for an eligible line
        self.base_thread = None     # ambient baseline of thread-local state
        self.ident = None
        self.prio = 0
        self.spawner = None         # the task that started it, for threads started by the toolbox itself
        self.yielded = 0
        self.nleave = 0

    def __hash__(self):
        return id(self)


class Sim:
    def __init__(self, prog):
        self.prog = prog
        self.tasks = [Task(i, s) for i, s in enumerate(prog["tasks"])]
        self.cur = self.tasks[0]
        self.now = 0.0
        self.events = 0
        self.limit = prog.get("limit", 2000000)
        self.recs = []
        self.notes = []                 # violations the world itself sees (ambient, arguments, ...)
        self.fired = {}                 # fault kind -> count
        self.decisions = []             # switches actually made: [t, i, ev, to]
        self.points = []                # hashable trace of scheduling (for interleaving counts)
        self.shared = {k: values.build(v) for k, v in prog.get("shared", {}).items()}
        self.shared_ver = {k: v for k, v in prog.get("shared", {}).items()}
        self.watch = set(prog.get("watch", ()))
        self.end = None
        self.done_lock = seams._real_alloc()
        self.done_lock.acquire()
        self.sink = None
        self.base = None
        self.spawned = {}
        self.ret_stack = []
        sc = prog.get("sched", {"mode": "explicit"})
        self.mode = sc["mode"]
        self.rng = random.Random(sc.get("seed", 0))
        self.p = sc.get("p", 0.05)
        if self.mode == "pct":
            order = list(range(len(self.tasks)))
            self.rng.shuffle(order)
            for r, i in enumerate(order):
                self.tasks[i].prio = 100 + r
            n = max(2, sc.get("n", 200))
            self.change = sorted(self.rng.randrange(1, n) for _ in range(sc.get("d", 2)))
        self.sw, self.fl = {}, {}
        for t, i, ev, to in prog.get("switches", ()):
            self.sw.setdefault((t, i), {})[ev] = to
        for f in prog.get("faults", ()):
            if "ev" in f:
                self.fl.setdefault((f["t"], f["i"]), {}).setdefault(f["ev"], []).append(f)
        self.lv = {(t, n): to for t, n, to in prog.get("leaves", ())}
        self.leaves = []                # who ran next each time a task could not go on: [t, n-th time, to]
        self.wfl = {}
        for f in prog.get("faults", ()):
            if "warn" in f:
                self.wfl.setdefault((f["t"], f["i"]), {}).setdefault(f["warn"], []).append(f)
        self.midwatch = "mid" in self.watch
        self.wmode, self.npmode = "always", False
        self.pre = None                 # extra fields of the next call record (files.py)

    # ---------------------------------------------------------------- identity
    def me(self):
        i = _thread.get_ident()
        if self.cur.ident == i:
            return self.cur
        return None

    # ---------------------------------------------------------------- baton
    def runnable(self, stalled=False):
        out = []
        for t in self.tasks:
            if t.state == "ready":
                out.append(t)
            elif t.state == "blocked" and (t.pred() or (t.deadline is not None and t.deadline <= self.now)):
                out.append(t)
        return out

    def handover(self, me, to):
        """Park the calling task and run `to`."""
        if to is me:
            return
        self.cur = to
        if to.state == "blocked":
            to.state = "ready"
        to.lock.release()
        me.lock.acquire()
        if self.end is not None:
            raise StopRun()
        if self.midwatch:
            self.look("switch")

    def log(self, t, to):
        self.decisions.append([t.idx, t.i, t.ev, to.idx])
        if len(self.points) < 4000:
            r = t.stack[-1] if t.stack else None
            self.points.append((t.idx, r["fn"] if r else "-", t.ev, to.idx))

    def pick_next(self):
        r = self.runnable()
        if not r:
            waits = [t for t in self.tasks if t.state == "blocked" and t.deadline is not None]
            if waits:
                w = min(waits, key=lambda t: (t.deadline, t.idx))
                self.set_now(max(self.now, w.deadline))
                return w
            return None
        if self.mode == "pct":
            return max(r, key=lambda t: t.prio)
        if self.mode == "random":
            return r[self.rng.randrange(len(r))]
        while self.ret_stack:
            t = self.ret_stack.pop()
            if t in r:
                return t
        return r[0]

    def leave(self, me):
        """The calling task cannot go on (blocked, stalled or finished): run somebody else, or end the run."""
        me.nleave += 1
        nxt = None
        to = self.lv.get((me.idx, me.nleave))
        if to is not None and to < len(self.tasks) and self.tasks[to] in self.runnable():
            nxt = self.tasks[to]
        if nxt is None:
            nxt = self.pick_next()
        if nxt is not None:
            self.leaves.append([me.idx, me.nleave, nxt.idx])
        if nxt is None:
            st = [t for t in self.tasks if t.state == "stalled"]
            bl = [t for t in self.tasks if t.state == "blocked"]
            if st:
                if bl:
                    self.notes.append({"k": "blocked_by_stalled", "who": [self.where(t) for t in bl],
                                       "stalled": [self.where(t) for t in st]})
                nxt = st[0]
                nxt.state = "ready"
            elif any(t.spawner is None for t in bl):
                self.finish("deadlock", [self.where(t) for t in bl])
            else:
                self.finish("done", None)
        if nxt is not None and nxt is not me:
            self.cur = nxt
            if nxt.state == "blocked":
                nxt.state = "ready"
            nxt.lock.release()
            if me.state != "done":
                me.lock.acquire()
                if self.end is not None:
                    raise StopRun()
        elif nxt is me:
            me.state = "ready"
        if self.midwatch and me.state != "done":
            self.look("switch")

    def where(self, t):
        r = t.stack[-1] if t.stack else None
        return {"t": t.idx, "i": t.i, "ev": t.ev, "fn": r["fn"] if r else None, "why": t.why}

    def finish(self, how, detail):
        if self.end is None:
            self.end = {"how": how, "detail": detail}
            self.wake_main()
        if self.tasks[0].ident == _thread.get_ident() or getattr(self, "infork", None):
            raise StopRun()
        # a thread other than the main one never continues: the process exits under it
        l = seams._real_alloc()
        l.acquire()
        l.acquire()

    def wake_main(self):
        m = self.tasks[0]
        if m.ident == _thread.get_ident():
            return
        (self.done_lock if m.state == "done" else m.lock).release()

    def block(self, t, pred, deadline, why):
        """Simulated blocking; False on timeout."""
        t.state, t.pred, t.deadline, t.why = "blocked", pred, deadline, why
        start = self.now
        self.leave(t)
        t.state = "ready"
        t.deadline = None
        self.waited(t, start, deadline)
        return bool(pred())

    def waited(self, t, start, until):
        """Simulated time the call in progress spent waiting (for itself, or for others)."""
        if t.stack:
            d = (self.now if until is None else min(self.now, until)) - start
            if d > 0:
                t.stack[-1]["vt"] = t.stack[-1].get("vt", 0.0) + d

    def spawn(self, by, fn, args, kwargs):
        """Code under test starts a thread: it becomes a task that starts late (slow) unless the program says otherwise."""
        n = Task(len(self.tasks), [])
        n.spawner, n.stack, n.i = by, list(by.stack), by.i
        n.prio = self.rng.randrange(200) if self.mode == "pct" else 0
        self.tasks.append(n)
        self.count("thread started by the toolbox")
        if len(self.tasks) > 400:
            self.finish("livelock", "starts threads without end")

        def main():
            n.lock.acquire()
            if self.end is not None:
                return
            n.ident = _thread.get_ident()
            try:
                fn(*args, **kwargs)
            except StopRun:
                return
            except BaseException:                                        # noqa: as the interpreter does
                pass
            n.state = "done"
            try:
                self.leave(n)
            except StopRun:
                pass
        if isinstance(getattr(fn, "__self__", None), threading.Thread):
            fn.__self__._sim_task = n
        return START_THREAD(main, ())

    def released(self):
        """A lock was released; a new background thread that is slow to start lets its starter go on first."""
        t = self.me()
        if t is None or t.spawner is None or t.yielded > 8 or self.prog.get("spawn") == "fast":
            return
        if t.spawner in self.runnable():
            t.yielded += 1
            self.handover(t, t.spawner)

    def set_now(self, now):
        if now > self.now:
            self.now = now
            seams.virtual_clock(now)

    def block_unmanaged(self, lock, timeout):
        self.finish("deadlock", "unmanaged thread waits for a lock")

    def sleep(self, t, d):
        self.fired["sleep"] = self.fired.get("sleep", 0) + 1
        start = self.now
        until = self.now + max(0.0, d)
        t.state, t.pred, t.deadline, t.why = "blocked", (lambda: self.now >= until), until, "sleep"
        self.slept = getattr(self, "slept", 0) + 1
        if self.slept > 5000:
            self.finish("livelock", "sleeps without end")
        self.leave(t)
        t.state, t.deadline = "ready", None
        self.set_now(max(self.now, until))
        self.waited(t, start, until)

    # ---------------------------------------------------------------- events
    def event(self, code, line):
        t = self.cur
        if t.ident != _thread.get_ident():
            return
        t.ev += 1
        self.events += 1
        if self.events > self.limit:
            self.finish("livelock", self.where(t))
        if t.fl or t.pending:
            self.fault_here(t, code, line)
        if t.sw is not None:
            to = t.sw.get(t.ev)
            if to is not None:
                self.switch(t, to)
        elif self.mode == "random":
            if self.rng.random() < self.p:
                r = [x for x in self.runnable() if x is not t]
                if r:
                    to = r[self.rng.randrange(len(r))]
                    self.log(t, to)
                    self.handover(t, to)
        elif self.mode == "pct":
            if self.change and self.events >= self.change[0]:
                self.change.pop(0)
                t.prio = len(self.change)
            r = self.runnable() + [t]
            to = max(r, key=lambda x: x.prio)
            if to is not t:
                self.log(t, to)
                self.handover(t, to)
        if "argsmid" in self.watch and t.stack:
            self.check_args(t.stack[-1], "during")

    def switch(self, t, to, log=True):
        if not 0 <= to < len(self.tasks):
            return
        to = self.tasks[to]
        if to is t or to not in self.runnable():
            return
        if log:
            self.log(t, to)
        self.ret_stack.append(t)
        self.handover(t, to)

    def eligible(self, frame, code, line):
        f, n = frame, 0
        while f is not None and n < 60:
            fn = f.f_code.co_filename
            if f.f_lineno in NOFAULT.get(fn, ()):
                return False
            f = f.f_back
            n += 1
        return True

    def fault_here(self, t, code, line):
        todo = t.pending
        if t.fl and t.ev in t.fl:
            todo = todo + t.fl.pop(t.ev)
        if not todo:
            return
        t.pending = []
        for k, f in enumerate(todo):
            kind = f["kind"]
            if kind in EXC:
                if not t.stack or not self.eligible(sys._getframe(2), code, line):
                    t.pending.append(f)
                    continue
                self.count(kind)
                e = EXC[kind]("injected %s" % kind)
                t.stack[-1]["inj"].append(e)
                t.stack[-1]["injat"] = [code.co_name, line if isinstance(line, int) else -1]
                t.pending += todo[k + 1:]
                raise e
            self.other_fault(t, f)

    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def other_fault(self, t, f):
        kind = f["kind"]
        if kind == "reenter":                       # nested call in the same thread (callback, __del__, hook)
            self.count(kind)
            for op in f.get("ops") or [f["op"]]:
                self.nested(t, op, "reenter")
        elif kind == "signal":                      # a real signal whose handler makes a call
            if t.idx == 0:
                self.count(kind)
                self.sigop = f.get("ops") or [f["op"]]
                signal.raise_signal(signal.SIGUSR1)
        elif kind == "stall":
            self.count(kind)
            t.state, t.why = "stalled", "stalled by the simulator"
            self.leave(t)
        elif kind == "fork":
            self.count(kind)
            self.forked(t, f)
        elif kind == "gc":
            self.count(kind)
            gc.collect()
        elif kind == "look":                        # another observer looks at process state and arguments right now
            self.count(kind)
            self.look("observer")
        elif kind == "env":
            self.count("env")
            apply_env(f["env"], self)
            if self.base is not None:
                self.base = ambient.snapshot()
        elif kind == "clock":
            self.count(kind)
            seams.set_clock(f["jump"], f.get("step", 0.0))

    def nested(self, t, op, how):
        save = (t.ev, t.sw, t.fl, t.pending)
        t.sw, t.fl, t.pending = {}, {}, []
        # np.vectorize reads the processor's floating-point flags at its end; any numpy call nested in it clears them, whoever
        # makes it: that is numpy's, so the flags are kept as an interrupt handler of the operating system would keep them
        fp = ctypes.create_string_buffer(64)
        LIBM.fegetenv(fp)
        try:
            rec = self.call(t, op, how)
        finally:
            LIBM.fesetenv(fp)
        t.ev, t.sw, t.fl, t.pending = save
        return rec

    def forked(self, t, f):
        r, w = os.pipe()
        self.forking = True
        pid = os.fork()
        self.forking = False
        if pid == 0:
            code = 3
            try:
                os.close(r)
                for x in self.tasks:
                    if x is not t:
                        x.state = "done"            # the other threads do not exist in the child
                n0 = len(self.recs)
                self.midwatch = False
                self.mode = "explicit"
                self.infork = w
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, 20)
                for op in f["ops"]:
                    self.nested(t, op, "fork")
                os.write(w, pickle.dumps({"recs": [strip(x) for x in self.recs[n0:]], "notes": [],
                                          "end": None}))
                code = 0
            except StopRun:
                os.write(w, pickle.dumps({"recs": [], "end": self.end}))
                code = 0
            except BaseException as e:                                   # noqa
                try:
                    os.write(w, pickle.dumps({"recs": [], "err": repr(e)}))
                except OSError:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        buf = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        out = pickle.loads(buf) if buf else {"recs": [], "end": {"how": "hang", "detail": "child status %d" % st}}
        for rec in out["recs"]:
            rec["how"] = "fork"
            self.recs.append(rec)
        if out.get("end"):
            self.notes.append({"k": "fork_child", "end": out["end"], "at": self.where(t)})
        if out.get("err"):
            self.notes.append({"k": "harness", "err": out["err"]})

    # ---------------------------------------------------------------- warnings
    hook = 0                          # the caller's hooks so far; a warning given to an earlier one does not reach the caller

    def new_hook(self):
        self.hook += 1
        me = self.hook

        def hook(message, category, filename, lineno, file=None, line=None):
            if self.hook == me:
                self.on_warning(message, category, filename, lineno, file, line, me)
        warnings.showwarning = hook

    def on_warning(self, message, category, filename, lineno, file=None, line=None, me=0):
        t = self.me()
        if me != self.hook:
            return
        if t is None or not t.stack:
            self.notes.append({"k": "stray_warning", "text": str(message)})
            return
        rec = t.stack[-1]
        if category is DeprecationWarning and "fork()" in str(message) and getattr(self, "forking", False):
            return                              # about the simulator's own fork
        rec["warns"].append((category.__name__, values.scrub(str(message))))
        if rec["how"] != "call":
            return
        fl = self.wfl.get((t.idx, t.i))
        if fl:
            for f in fl.pop(len(rec["warns"]), ()):
                if f["kind"] in EXC:
                    self.count("warnhook:" + f["kind"])
                    e = EXC[f["kind"]]("injected from warning hook")
                    rec["inj"].append(e)
                    raise e
                elif f["kind"] == "reenter":
                    self.count("warnhook:reenter")
                    self.nested(t, f["op"], "warnhook")
                elif f["kind"] == "switch":
                    self.count("warnhook:switch")
                    self.switch(t, f["to"], log=False)
                elif f["kind"] == "look":
                    self.count("warnhook:look")
                    self.look("observer")

    # ---------------------------------------------------------------- observation
    def look(self, how):
        """Another party looks at process state, at the arguments of calls in progress and at earlier results."""
        t = self.cur
        if "ambient" in self.watch and self.base is not None:
            d = ambient.diff(self.base, ambient.snapshot(), shared_only=True, busy=self.root)
            if d:
                self.notes.append({"k": "ambient", "when": how, "diff": d, "by": self.running()})
                self.base = ambient.snapshot()
        for x in self.tasks:
            for r in x.stack:
                self.check_args(r, "during")
        self.check_results(how)

    root = None                     # scratch directory of a run with files

    def settle(self):
        pass

    def running(self):
        return [self.where(x) for x in self.tasks if x.stack]

    def check_args(self, rec, when):
        for name, obj, image, meta in rec.get("_args", ()):
            e = arg_image(obj)
            if e != image:
                self.notes.append({"k": "args", "when": when, "fn": rec["fn"], "arg": name, "t": rec["t"], "i": rec["i"],
                                   "why": "%s became %s" % (short(image), short(e))})
                rec["_args"] = [a for a in rec["_args"] if a[0] != name]
                return

    def check_results(self, when):
        if "results" not in self.watch:
            return
        for x in self.tasks:
            for k, ent in enumerate(x.results):
                if ent is None:
                    continue
                obj, image, rec = ent
                e = values.encode(obj)
                if not eq_image(e, image):
                    self.notes.append({"k": "results", "when": when, "fn": rec["fn"], "t": rec["t"], "i": rec["i"],
                                       "by": self.running(), "why": values.same(e, image) or "changed"})
                    x.results[k] = None
            for k, (name, obj, image, rec) in enumerate(x.kept):
                e = arg_image(obj)
                if e != image:
                    self.notes.append({"k": "args", "when": "later, " + when, "fn": rec["fn"], "arg": name, "t": rec["t"],
                                       "i": rec["i"], "why": "%s became %s" % (short(image), short(e))})
                    x.kept[k] = (name, obj, e, rec)

    # ---------------------------------------------------------------- steps
    def call(self, t, op, how="call"):
        rec = {"t": t.idx, "i": t.i, "fn": op["fn"], "how": how, "warns": [], "inj": [], "seq0": self.events,
               "start": len(self.recs), "wmode": self.wmode, "np": self.npmode}
        if self.pre:
            rec.update(self.pre)
            self.pre = None
        opx = op
        if any(isinstance(v, dict) and "ref" in v for v in op["kw"].values()):
            kwm = {k: (self.shared_ver[v["ref"]] if isinstance(v, dict) and "ref" in v else v) for k, v in op["kw"].items()}
            opx = dict(op, kw=kwm)
        rec["op"] = opx
        kw = {k: values.build(v, self.shared) for k, v in op["kw"].items()}
        al = op.get("alias")
        if al and al[0] in kw and al[1] in kw:
            kw[al[1]] = kw[al[0]]
        fn = resolve(op["fn"])
        if "args" in self.watch or "argsmid" in self.watch:
            rec["_args"] = [(k, v, arg_image(v), None) for k, v in kw.items() if mutable(v)]
        else:
            rec["_args"] = []
        ev0 = t.ev
        t.stack.append(rec)
        self.recs.append(rec)
        res = None
        try:
            res = nested(ambient.DEPTH[0], fn, kw) if ambient.DEPTH[0] else fn(**kw)
            out = ("ok",)
        except StopRun:
            raise
        except BaseException as e:                                       # noqa: the outcome, whatever it is
            out = ("exc", type(e).__name__, values.scrub(str(e)), any(e is x for x in rec["inj"]),
                   isinstance(e, Injected))
            e.__traceback__ = None
            e = None
        finally:
            t.stack.pop()
        rec["steps"] = t.ev - ev0
        rec["seq1"] = self.events
        if out[0] == "ok":
            out = ("ok", values.encode(res))
            if holds_array(res):
                t.results.append((res, out[1], rec))
                if len(t.results) > 40:
                    t.results[len(t.results) - 41] = None
            elif isinstance(res, (dict, list)):
                t.results.append((res, out[1], rec))
        rec["out"] = out
        self.check_args(rec, "after")
        if "args" in self.watch:
            t.kept = (t.kept + [(n, o, im, rec) for n, o, im, _ in rec["_args"] if isinstance(o, np.ndarray)])[-30:]
        rec["_args"] = []
        if "results" in self.watch:
            self.check_results("after")
        if "ambient" in self.watch and self.base is not None:
            self.settle()
            s = ambient.snapshot()
            d = ambient.diff(self.base, s, busy=self.root if self.running() else None)
            if d:
                self.notes.append({"k": "ambient", "when": "after", "diff": d, "fn": rec["fn"], "t": t.idx, "i": t.i,
                                   "inj": len(rec["inj"]), "other": self.running()})
                self.base = s
        kw = None
        return rec

    def step(self, t, s):
        if "call" in s:
            if s.get("hook"):
                self.count("warning hook replaced")
                self.new_hook()
            if s.get("rec"):
                self.count("warnings recorded by the caller")
                with warnings.catch_warnings(record=True) as got:
                    rec = self.call(t, s["call"])
                rec["warns"] += [(w.category.__name__, values.scrub(str(w.message))) for w in got]
            else:
                self.call(t, s["call"])
            t.pending = []
        elif "mut" in s:
            a = self.shared[s["mut"]]
            b = values.build(dict(s["to"], lay="C") if isinstance(s["to"], dict) else s["to"])
            a[...] = b
            for x in self.tasks:                 # the caller's own change shows through results that alias it
                x.results = [(o, values.encode(o), r) if o is not None and aliases(o, a) else e
                             for e in x.results for o, r in [(e[0], e[2]) if e else (None, None)]]
                x.kept = [(n, o, arg_image(o), r) if aliases(o, a) else (n, o, im, r) for n, o, im, r in x.kept]
            self.shared_ver[s["mut"]] = dict(s["to"], **({"lay": self.prog["shared"][s["mut"]].get("lay", "C")}))
        elif "mutres" in s:
            for k in range(len(t.results)):
                if t.results[k] is not None and (s["mutres"] < 0 or k % 3 == s["mutres"]) \
                        and not any(aliases(t.results[k][0], a) for a in self.shared.values()):
                    scramble(t.results[k][0])
                    t.results[k] = None
        elif "drop" in s:
            t.results = []
        elif "gc" in s:
            gc.collect()
        elif "env" in s:
            apply_env(s["env"], self)
            if self.base is not None:
                self.base = ambient.snapshot()

    def run_task(self, t):
        t.ident = _thread.get_ident()
        for i, s in enumerate(t.steps):
            t.i, t.ev = i, 0
            if self.mode == "explicit":
                t.sw = self.sw.get((t.idx, i)) or {}
                if 0 in t.sw:
                    self.switch(t, t.sw[0])
            elif self.mode in ("random", "pct"):
                t.sw = None
                if self.mode == "random" and self.rng.random() < 0.3:
                    r = [x for x in self.runnable() if x is not t]
                    if r:
                        to = r[self.rng.randrange(len(r))]
                        self.log(t, to)
                        self.handover(t, to)
            t.fl = dict((k, list(v)) for k, v in self.fl[(t.idx, i)].items()) if (t.idx, i) in self.fl else None
            self.step(t, s)
            t.fl = None
        t.state = "done"

    def thread_main(self, t):
        t.lock.acquire()
        if self.end is not None:
            return
        t.ident = _thread.get_ident()
        try:
            ambient.thread_setup(self.prog.get("env", {}))
            self.run_task(t)
            self.leave(t)
        except StopRun:
            return
        except BaseException as e:                                       # noqa
            import traceback
            self.notes.append({"k": "harness", "err": "".join(traceback.format_exception(e))[-1500:]})
            if self.end is None:
                self.end = {"how": "harness", "detail": repr(e)}
                self.wake_main()

    def run(self):
        seams.SIM = self
        seams.virtual_clock()
        seams.forget()
        probe.SEEN.clear()
        seams.set_rand(0x9E3779B97F4A7C15)
        main = self.tasks[0]
        main.ident = _thread.get_ident()
        self.sink = self.on_warning
        warnings.showwarning = self.on_warning
        signal.signal(signal.SIGUSR1, self.on_signal)
        apply_env(self.prog.get("env", {}), self)
        for t in self.tasks[1:]:
            START_THREAD(self.thread_main, (t,))
        if "ambient" in self.watch:
            self.base = ambient.snapshot()
        mon_start(self.prog.get("gran", "line"))
        try:
            first = self.prog.get("first", 0)
            if self.mode == "explicit" and first and first < len(self.tasks):
                self.ret_stack.append(main)
                self.handover(main, self.tasks[first])
            elif self.mode != "explicit":
                to = self.pick_next()
                if to is not main:
                    self.log(main, to)
                    self.handover(main, to)
            self.run_task(main)
            self.leave(main)
            # unreachable unless others are still running
        except StopRun:
            pass
        if self.end is None:
            self.done_lock.acquire()
        mon_stop()
        seams.SIM = None
        seams.real_clock()
        return self.history()

    def on_signal(self, signum, frame):
        t = self.me()
        if t is not None and getattr(self, "sigop", None):
            ops, self.sigop = self.sigop, None
            for op in ops:
                self.nested(t, op, "signal")

    def history(self):
        return {"recs": [strip(r) for r in self.recs], "notes": self.notes, "end": self.end, "fired": self.fired,
                "decisions": self.decisions, "leaves": self.leaves, "events": self.events, "points": self.points, "time": self.now}


LIBM = ctypes.CDLL("libm.so.6")
START_THREAD = _thread.start_new_thread


def strip(r):
    x = {k: v for k, v in r.items() if k not in ("_args", "inj", "start")}
    if "inj" in r:
        x["ninj"] = len(r["inj"])
    return x


def mutable(v):
    return isinstance(v, (np.ndarray, list, dict)) or type(v).__module__.startswith("pandas")


def aliases(r, a):
    if r is a:
        return True
    if isinstance(r, np.ndarray):
        return isinstance(a, np.ndarray) and np.may_share_memory(r, a)
    if isinstance(r, (tuple, list)):
        return any(aliases(x, a) for x in r)
    if isinstance(r, dict):
        return any(aliases(x, a) for x in r.values())
    if type(r).__module__.startswith("pandas"):
        return isinstance(a, np.ndarray) and np.may_share_memory(np.asarray(r), a)
    return False


def holds_array(r):
    if isinstance(r, np.ndarray):
        return True
    if isinstance(r, (tuple, list)):
        return any(holds_array(x) for x in r)
    if isinstance(r, dict):
        return any(holds_array(x) for x in r.values())
    return type(r).__module__.startswith("pandas")


def arg_image(v):
    if isinstance(v, np.ndarray):
        return (v.shape, v.strides, str(v.dtype), v.flags.writeable, v.tobytes())
    if isinstance(v, list):
        return ("list", [repr(x) for x in v])
    if type(v).__module__.startswith("pandas"):
        return ("pd", list(map(repr, v.index)), v.to_numpy().tobytes(), str(v.dtype), repr(v.name))
    return repr(v)


def eq_image(a, b):
    return a == b or values.same(a, b) is None and a[0] != "nd"


def short(im):
    try:
        if len(im) == 5:
            a = np.frombuffer(im[4], im[2])
            return "%s%s%s" % (im[2], im[0], a[:6].tolist())
    except Exception:
        pass
    return repr(im)[:120]


def scramble(x):
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fiu":
            x[...] = -12345
        elif x.flags.writeable and x.dtype.kind == "b":
            x[...] = ~x
    elif isinstance(x, dict):
        for k in list(x):
            scramble(x[k])
            x[k] = -12345.0
        x["extra"] = 1
    elif isinstance(x, list):
        for y in x:
            scramble(y)
        x[:] = [-12345.0]
    elif isinstance(x, tuple):
        for y in x:
            scramble(y)


def apply_env(env, sim):
    if env.get("warn"):
        sim.wmode = env["warn"]
    if env.get("np_err"):
        sim.npmode = "raise" in env["np_err"].values()
    ambient.apply(env, sim.sink if sim is not None else None)


# ------------------------------------------------------------------ monitoring
_on = False


def _line(code, line):
    s = seams.SIM
    if s is not None:
        s.event(code, line)


def _call(code, off, fn, arg0):
    s = seams.SIM
    if s is not None:
        s.event(code, -off)


def _instr(code, off):
    s = seams.SIM
    if s is not None:
        s.event(code, -off)


def mon_start(gran):
    global _on
    if not _on:
        MON.use_tool_id(TOOL, "dst")
        _on = True
    E = MON.events
    MON.register_callback(TOOL, E.LINE, _line)
    MON.register_callback(TOOL, E.CALL, _call)
    MON.register_callback(TOOL, E.INSTRUCTION, _instr)
    ev = {"line": E.LINE, "call": E.LINE | E.CALL, "instr": E.INSTRUCTION, "none": 0}[gran]
    for c in CODES:
        MON.set_local_events(TOOL, c, ev)


def mon_stop():
    for c in CODES:
        MON.set_local_events(TOOL, c, 0)


def run_program(prog):
    return Sim(prog).run()


def reference(op, gran="line", warn="always", limit=400000):
    """The oracle: the call made first and alone in this pristine process."""
    kw = {k: values.canonical(v) for k, v in op["kw"].items()}
    h = run_program({"tasks": [[{"call": dict(op, kw=kw)}]], "gran": gran, "env": {"warn": warn}, "limit": limit})
    if h["end"] and h["end"]["how"] != "done" or not h["recs"] or "out" not in h["recs"][0]:
        return {"bad": h["end"]}
    r = h["recs"][0]
    return {"out": r["out"], "warns": r["warns"], "steps": r["steps"], "vt": r.get("vt", 0.0),
            "asked": list(probe.SEEN)}
