"""C09: importing the toolbox in any order, from any thread or directory, interrupted at any point, and retried.

Every run is a fork of an interpreter that has numpy and pandas but not the toolbox.  Line events of package code while
its modules execute are scheduling and fault points; opening and reading source files goes through the LD_PRELOAD seam.
program = fields of world.py; steps are {"imp": [form, module, names]} | {"call": op}; faults with "io": n strike the n-th
file operation of the import; "cwd": list of files the working directory holds; "order": order of the final imports.
"""
import atexit
import errno
import importlib
import inspect
import json
import logging
import os
import random
import shutil
import sys
import time
import traceback
import types

import numpy as np

from . import ambient, engine, gen, scen, seams, values, world, zygote
from .gen import PKG

MON = sys.monitoring
BASE = os.path.join(os.path.abspath(zygote.REPO), PKG) + os.sep
REF = None
ERR = ("EIO", "EACCES", "EMFILE", "ENFILE", "ENOMEM", "EINTR", "short", "ENOENT")
KINDS = ("KeyboardInterrupt", "MemoryError", "SystemExit", "Timeout", "RecursionError", "Kill")


def modules():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.json")) as fh:
        return json.load(fh)


# ------------------------------------------------------------------ what a complete interface looks like
def descr(v):
    if isinstance(v, types.ModuleType):
        return "module " + v.__name__
    if isinstance(v, types.FunctionType):
        return "function %s.%s%s" % (v.__module__, v.__qualname__, inspect.signature(v))
    if isinstance(v, type):
        return "class %s.%s" % (v.__module__, v.__qualname__)
    if callable(v):
        try:
            return "callable %s%s" % (getattr(v, "__qualname__", type(v).__qualname__), inspect.signature(v))
        except (TypeError, ValueError):
            return "callable %s" % type(v).__qualname__
    if isinstance(v, np.ndarray):
        return "array %s %s %s" % (v.dtype, v.shape, v.tolist())
    if isinstance(v, (set, frozenset)):
        return "set %s" % sorted(map(repr, v))
    if isinstance(v, dict):
        return "dict {%s}" % ", ".join("%r: %s" % (k, descr(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return "%s [%s]" % (type(v).__name__, ", ".join(map(descr, v)))
    return "%s %s" % (type(v).__name__, values.scrub(repr(v)))


def image(mods):
    """{module: {public name: description}} of loaded modules."""
    out = {}
    for m in mods:
        mod = sys.modules.get(m)
        if mod is None:
            out[m] = None
            continue
        d = {}
        for k in sorted(vars(mod)):
            if k.startswith("_") and k not in ("__all__", "__version__"):
                continue
            v = vars(mod)[k]
            if isinstance(v, types.ModuleType) and not v.__name__.startswith(PKG):
                d[k] = "module"                      # numpy, os, warnings...
            else:
                d[k] = descr(v)
        d["__name__"] = mod.__name__
        out[m] = d
    return out


def chains(mods):
    """Modules reachable by attribute access from the top package, as the very modules in sys.modules."""
    ok = []
    for m in mods:
        o = sys.modules.get(PKG)
        try:
            for p in m.split(".")[1:]:
                o = getattr(o, p)
        except AttributeError:
            continue
        if o is not None and o is sys.modules.get(m):
            ok.append(m)
    return ok


def diff_image(a, b):
    for m in a:
        x, y = a[m], b.get(m)
        if x == y:
            continue
        if y is None:
            return "%s is not loaded" % m
        for k in sorted(set(x) | set(y)):
            if x.get(k) != y.get(k):
                return "%s.%s is %s instead of %s" % (m, k, str(y.get(k, "missing"))[:120], str(x.get(k, "missing"))[:120])
    return None


# ------------------------------------------------------------------ the world
class ImpSim(world.Sim):
    def __init__(self, prog, root):
        super().__init__(prog)
        self.root = root
        self.iofl = {}
        for f in prog.get("faults", ()):
            if "io" in f:
                self.iofl.setdefault((f["t"], f["i"]), []).append(f)
        self.npkg = 0

    def on_io(self, op, path, size):
        try:
            t = self.me()
            if t is None or not t.stack or op not in (1, 10):
                return 0
            rec = t.stack[0]
            if rec["how"] != "import":
                return 0
            rec["io"] += 1
            for f in self.iofl.get((t.idx, t.i), ()):
                if f["io"] == rec["io"]:
                    k = f["kind"]
                    if k == "short":
                        if op == 10 and size > 3:
                            self.count("short read")
                            return max(1, size // 3)
                        return 0
                    self.count(("open:" if op == 1 else "read:") + k)
                    if k not in ("EINTR", "short"):
                        rec["hard"].append([rec["io"], "open" if op == 1 else "read", k])
                    return -getattr(errno, k)
            return 0
        except BaseException as e:                                       # noqa
            self.notes.append({"k": "harness", "err": "io hook: %r" % e})
            return 0

    def step(self, t, s):
        if "imp" not in s:
            m, f = s["call"]["fn"].split(":")
            if not hasattr(sys.modules.get(PKG + "." + m), f):
                return                              # its import was interrupted
            return super().step(t, s)
        form, mod, names = s["imp"]
        rec = {"t": t.idx, "i": t.i, "fn": "%s %s" % (form, mod), "how": "import", "warns": [], "inj": [], "io": 0, "hard": [],
               "op": {"fn": mod, "kw": {}}, "seq0": self.events, "start": len(self.recs), "wmode": "always", "np": False}
        self.recs.append(rec)
        before = snap(self.root) if not self.running() else None
        ev0 = t.ev
        t.stack.append(rec)
        try:
            do_import(form, mod, names)
            out = ("ok", ("s", "imported"))
        except world.StopRun:
            raise
        except BaseException as e:                                       # noqa
            out = ("exc", type(e).__name__, values.scrub(str(e))[:200], any(e is x for x in rec["inj"]), isinstance(e, world.Injected))
            e.__traceback__ = None
            e = None
        finally:
            t.stack.pop()
        rec["steps"], rec["seq1"], rec["out"] = t.ev - ev0, self.events, out
        t.pending = []
        if before is not None and not self.running():
            d = diff_snap(before, snap(self.root))
            if d:
                self.notes.append({"k": "ambient", "diff": d, "fn": rec["fn"], "t": t.idx, "i": t.i})
        if out[0] == "ok":
            miss = [m for m in REF["chains"] if m not in set(chains(REF["mods"]))] if REF else []
            if miss:
                self.notes.append({"k": "incomplete", "fn": rec["fn"], "t": t.idx, "i": t.i, "miss": miss[:6], "n": len(miss),
                                   "conc": bool(self.running())})

    def run(self):
        for n in self.prog.get("cwd", ()):
            with open(os.path.join(self.root, n), "w") as fh:
                fh.write(CLUTTER.get(n, "junk = 1\n"))
        os.environ["HOME"] = os.environ["TMPDIR"] = os.environ["XDG_CONFIG_HOME"] = os.path.dirname(self.root)
        sys.path[:] = [p for p in sys.path if p not in ("",)]
        if self.prog.get("path0"):
            sys.path.insert(0, "")
        if self.prog.get("gone"):
            d = os.path.join(self.root, "gone")
            os.mkdir(d)
            os.chdir(d)
            os.rmdir(d)
        else:
            os.chdir(self.root)
        if not seams.set_io_hook(self.on_io, BASE):
            raise RuntimeError("the file system seam is not loaded")
        h = super().run()
        seams.set_io_hook(None, "")
        # the fault has cleared: everything can be imported, is complete, and works
        h["final"] = []
        # the top package last: CPython does not look for it again on the way to a submodule that is already loaded
        for m in self.prog["order"] + [PKG]:
            try:
                importlib.import_module(m)
            except BaseException as e:                                   # noqa
                h["final"].append("%s cannot be imported: %s: %s" % (m, type(e).__name__, str(e)[:150]))
                break
        if not h["final"] and REF:
            d = diff_image(REF["image"], image(REF["mods"]))
            if d:
                h["final"].append(d)
            miss = [m for m in REF["chains"] if m not in set(chains(REF["mods"]))]
            if miss:
                h["final"].append("not reachable as attributes: %s" % miss[:5])
        if not h["final"] and REF:
            os.chdir("/")
            for k in self.prog["sample"]:
                op, want = REF["ops"][k]
                got = self.outcome(op)
                why = compare(got["out"], want["out"])
                if why:
                    h["final"].append("%s after these imports gives %s" % (op["fn"], why))
                    break
        return h

    def outcome(self, op):
        import warnings
        ws = []
        with warnings.catch_warnings():
            warnings.simplefilter("always")
            warnings.showwarning = lambda m, c, *a, **k: ws.append((c.__name__, str(m)))
            try:
                out = ("ok", values.encode(gen.resolve(op["fn"])(**{k: values.build(v) for k, v in op["kw"].items()})))
            except BaseException as e:                                   # noqa
                out = ("exc", type(e).__name__, values.scrub(str(e)), False, False)
        return {"out": out, "warns": ws}


CLUTTER = {"config.json": '{"g": 1.62, "rho_water": 1}', "settings.ini": "[constants]\ng = 1.62\n"}


def compare(a, b):
    if a[0] != b[0]:
        return "%s instead of %s" % (str(a)[:120], str(b)[:120])
    if a[0] == "exc":
        return None if a[1] == b[1] else "%s instead of %s" % (a[1:3], b[1:3])
    return values.same(a[1], b[1])


def snap(root):
    s = ambient.snapshot()
    s["root logger"] = (logging.root.level, list(map(repr, logging.root.handlers)), logging.root.manager.disable)
    s["exit handlers"] = atexit._ncallbacks()
    s["built-in names"] = sorted(vars(sys.modules["builtins"]))
    s["directories"] = sorted(os.path.relpath(os.path.join(d, x), root) for r in (os.path.dirname(root),)
                              for d, ds, fs in os.walk(r) for x in ds + fs)
    return s


def diff_snap(a, b):
    return ambient.diff(a, b)


def do_import(form, mod, names):
    ns = {"__name__": "user_script"}
    if form == "import":
        exec("import " + mod, ns)
    elif form == "importas":
        exec("import %s as m" % mod, ns)
    elif form == "from":
        p, _, c = mod.rpartition(".")
        exec("from %s import %s as m" % (p, c) if p else "import " + mod, ns)
    elif form == "star":
        exec("from %s import *" % mod, ns)
    elif form == "names":
        exec("from %s import %s" % (mod, ", ".join(names)) if names else "import " + mod, ns)
    elif form == "dunder":
        __import__(mod, ns, ns, ["x"])
    elif form == "walk":
        import pkgutil
        top = importlib.import_module(mod)
        for x in pkgutil.walk_packages(getattr(top, "__path__", []), mod + "."):
            importlib.import_module(x.name)
    else:
        importlib.import_module(mod)


FORMS = ("import", "importas", "from", "star", "names", "dunder", "lib", "import", "from", "walk")


# ------------------------------------------------------------------ monitoring of modules that do not exist yet
def mon_start(gran):
    E = MON.events
    if not world._on:
        MON.use_tool_id(world.TOOL, "dst")
        world._on = True
    MON.register_callback(world.TOOL, E.LINE, world._line)
    MON.register_callback(world.TOOL, E.PY_START, _start)
    MON.set_events(world.TOOL, E.PY_START)


def _start(code, off):
    if code.co_filename.startswith(BASE):
        MON.set_local_events(world.TOOL, code, MON.events.LINE)
    return MON.DISABLE


def mon_stop():
    MON.set_events(world.TOOL, 0)
    MON.register_callback(world.TOOL, MON.events.LINE, None)


def run_prog(prog, root):
    world.mon_start, world.mon_stop = mon_start, mon_stop
    return ImpSim(prog, root).run()


def execute(prog, timeout=90):
    root = os.path.join(os.environ.get("DST_TMP") or "/tmp", "imp%d" % os.getpid(), "r")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        return zygote.run(run_prog, prog, root, timeout=timeout)
    except zygote.Died as e:
        return {"recs": [], "notes": [], "end": {"how": "hang", "detail": "status %r" % e.status}, "fired": {}, "decisions": [],
                "events": 0, "points": [], "time": 0, "leaves": [], "final": []}
    finally:
        shutil.rmtree(os.path.dirname(root), ignore_errors=True)


# ------------------------------------------------------------------ reference
def build_ref(seed):
    """In a pristine fork: plain `import` of the package, its interface, and sample calls each in a fork of their own."""
    base = modules()
    importlib.import_module(PKG)
    first = chains(base["modules"])
    for m in base["modules"]:
        importlib.import_module(m)
    img = image(base["modules"])
    api = gen.Api()
    world.prepare()
    ops = []
    rng = random.Random("C09/ops/%d" % seed)
    for key in api.pure:
        for _ in range(2):
            op = engine.canon_op(gen.make_op(rng, api, key, style=rng.choice(("scalar", "arrays", None)), plain=True))
            r = zygote.run(world.reference, op, "line", "always", 4000, timeout=30)
            if "bad" not in r:
                ops.append((op, r))
    by = {}
    for n, (op, _) in enumerate(ops):
        by.setdefault(PKG + "." + op["fn"].split(":")[0], []).append(n)
    return {"mods": base["modules"], "image": img, "chains": first, "ops": ops, "by": by,
            "names": {m: sorted(k for k in img[m] if img[m][k].startswith("function")) for m in img if img[m]}}


def setup(api, seed=1):
    global REF
    try:
        importlib.import_module("deltares_wave_toolbox.cores.core_dispersion")
    except ImportError:
        pass
    for n in ("pkgutil", "inspect"):
        importlib.import_module(n)
    for d, _, fs in os.walk(BASE):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                world.NOFAULT[p] = world.no_fault_lines(p)
    ambient.prepare()
    REF = None
    r = zygote.run(build_ref, seed, timeout=200)
    REF = r
    # how many events and file operations a plain import takes
    h = execute({"tasks": [[{"imp": ["import", PKG, []]}]], "order": [], "sample": []})
    if not h["recs"] or h["recs"][0].get("out", ("",))[0] != "ok":
        raise RuntimeError("plain import fails: %r %r" % (h["end"], h["recs"][:1]))
    REF["steps"], REF["io"] = h["recs"][0]["steps"], h["recs"][0]["io"]
    if not REF["steps"] or not REF["io"]:
        raise RuntimeError("import is not observed: %r" % (h["recs"][:1],))
    return REF


# ------------------------------------------------------------------ programs
KIND = ("order", "fault", "io", "conc", "fault", "concfault", "chain", "io", "fault", "thread")


def imp(rng, mod=None):
    m = mod or rng.choice(REF["mods"])
    form = rng.choice(FORMS)
    names = REF["names"].get(m, [])
    if form == "walk" and rng.random() < .5:
        m = PKG
    return {"imp": [form, m, rng.sample(names, min(len(names), rng.choice((1, 2, 3)))) if form == "names" else []]}


def top(rng):
    return {"imp": rng.choice((["import", PKG, []], ["importas", PKG, []], ["from", PKG + ".functions", []], ["star", PKG, []],
                               ["lib", PKG, []], ["dunder", PKG, []]))}


def point(rng, idx):
    """A fault point: spread evenly over the import across programs."""
    n = REF["steps"]
    if rng.random() < .08:
        return n - rng.randrange(min(n, 6))            # everything loaded, the packages themselves not finished
    return 1 + (idx * 7919 + rng.randrange(max(1, n // 40))) % n if rng.random() < .7 else rng.randrange(1, n + 1)


def fault(rng, t, i, idx, io=None):
    if io if io is not None else rng.random() < .35:
        return {"t": t, "i": i, "io": 1 + (idx * 31 + rng.randrange(3)) % REF["io"], "kind": rng.choice(ERR)}
    return {"t": t, "i": i, "ev": point(rng, idx), "kind": rng.choice(KINDS)}


def make(prop, idx, seed, api, ref):
    rng = random.Random("C09/%d/%d" % (seed, idx))
    kind = KIND[idx % len(KIND)]
    mods = REF["mods"]
    entry = mods[(idx // len(KIND) * 7 + idx) % len(mods)]
    fl, sched = [], {"mode": "explicit"}

    def calls(m):
        c = REF["by"].get(m, [])
        return [{"call": REF["ops"][k][0]} for k in rng.sample(c, min(len(c), 2))]
    if kind == "order":
        tasks = [[imp(rng, entry)] + calls(entry)]
        for _ in range(rng.choice((0, 2, 6))):
            m = rng.choice(mods)
            tasks[0] += [imp(rng, m)] + calls(m)
    elif kind == "thread":
        tasks = [[], [imp(rng, entry)] + calls(entry) + [imp(rng)]]
        if rng.random() < .5:
            fl.append(fault(rng, 1, 0, idx))
            tasks[1].append(imp(rng, entry))
    elif kind in ("fault", "io"):
        tasks = [[imp(rng, entry), imp(rng, entry if rng.random() < .7 else None)]]
        fl.append(fault(rng, 0, 0, idx, kind == "io"))
    elif kind == "chain":
        # several interruptions in a row, each retry getting somewhere else
        tasks = [[]]
        for i in range(rng.choice((2, 3, 5, 8))):
            tasks[0].append(imp(rng, entry if rng.random() < .5 else None))
            fl.append(fault(rng, 0, i, idx + 13 * i))
            if fl[-1].get("ev") and rng.random() < .6:
                fl[-1]["ev"] = rng.randrange(1, max(2, REF["steps"] // 3))
        tasks[0] += [imp(rng, entry)] + calls(entry)
    else:
        nt = rng.choice((2, 2, 3, 4))
        tasks = []
        for t in range(nt):
            # all enter through the top package: CPython's own deadlock avoidance makes crossing first imports of
            # different submodules unreliable for any package, whatever its code
            m = entry if t == 0 else rng.choice(mods)
            if kind == "concfault":
                tasks.append([top(rng), top(rng), top(rng)])
                for i in range(2):
                    if rng.random() < .5:
                        fl.append(fault(rng, t, i, idx + t + i))
            else:
                tasks.append([top(rng), imp(rng, m)] + calls(m) + ([imp(rng)] if rng.random() < .5 else []))
        sched = {"mode": "random", "seed": rng.randrange(2**31), "p": rng.choice((.002, .01, .05, .3))} if rng.random() < .6 else \
            {"mode": "pct", "seed": rng.randrange(2**31), "d": rng.choice((2, 4, 8)), "n": REF["steps"]}
    order = list(mods)
    rng.shuffle(order)
    sample = rng.sample(range(len(REF["ops"])), min(len(REF["ops"]), 70)) + REF["by"].get(entry, [])
    clutter = rng.sample(sorted({m.rpartition(".")[2] + ".py" for m in mods} | {"config.json", "settings.ini", "units.csv"}), rng.choice((0, 0, 3, 12)))
    p = {"tasks": tasks, "faults": fl, "sched": sched, "switches": [], "env": {"warn": "always"}, "order": order, "sample": sample,
         "cwd": clutter, "path0": bool(rng.random() < .5), "gone": rng.random() < .08 and not clutter, "kind": kind, "gran": "line",
         "limit": 400000}
    return p


explicit = engine.explicit


def V(cls, text):
    return {"cls": cls, "text": text}


def judge(prog, h):
    out = []
    for n in h["notes"]:
        if n["k"] == "harness":
            raise RuntimeError("harness: " + n["err"])
    e = h["end"] or {}
    if e.get("how") == "harness":
        raise RuntimeError("harness: %r" % (e,))
    if e.get("how") in ("deadlock", "livelock", "hang"):
        out.append(V(e["how"], "importing does not complete: %s %s" % (e["how"], str(e.get("detail"))[:300])))
        return out
    for r in h["recs"]:
        if "out" not in r:
            continue
        if r["how"] == "import":
            if r["out"][0] == "exc" and not r["hard"] and not r["ninj"]:
                others = [x for x in h["recs"] if x["how"] == "import" and x is not r and (x.get("hard") or x.get("ninj"))
                          and x["seq0"] <= r.get("seq1", 1 << 60) and x.get("seq1", 1 << 60) >= r["seq0"] and x["t"] != r["t"]]
                if not others:
                    out.append(V("import-fails", "%s (task %d step %d) raises %s: %s though nothing disturbed it" % (
                        r["fn"], r["t"], r["i"], r["out"][1], r["out"][2])))
        elif r["how"] == "call":
            k = next((k for k in range(len(REF["ops"])) if REF["ops"][k][0] == r["op"]), None)
            if k is not None:
                failed = any(x["t"] == r["t"] and x["how"] == "import" and x["out"][0] == "exc" for x in h["recs"] if "out" in x)
                why = compare(r["out"], REF["ops"][k][1]["out"])
                if why and not failed:
                    out.append(V("early-call", "%s called right after importing gives %s" % (r["fn"], why)))
    for n in h["notes"]:
        if n["k"] == "ambient":
            out.append(V("side-effect", "%s (task %d step %d) changes process state: %s" % (n["fn"], n["t"], n["i"], str(n["diff"][:3])[:400])))
        elif n["k"] == "incomplete" and not any(x.get("hard") or x.get("ninj") for x in h["recs"]) and not n["conc"]:
            out.append(V("incomplete", "%s (task %d step %d) succeeds, but %d modules are not reachable, e.g. %s" % (
                n["fn"], n["t"], n["i"], n["n"], n["miss"][:3])))
    for f in h.get("final", ()):
        out.append(V("final", "after %s, importing again: %s" % (
            "; ".join("%s -> %s" % (r["fn"].replace(PKG + ".", ""), r["out"][1] if r["out"][0] == "exc" else "ok")
                      for r in h["recs"] if r["how"] == "import" and "out" in r)[:400], f)))
    return out


# ------------------------------------------------------------------ worker, replay, minimise
def worker(prop, seed, start, stride, count, deadline, api, emit):
    setup(api)
    st = engine.Stats()
    trouble = []
    extra = {"import events of a plain import": REF["steps"] if start == 0 else 0,
             "file operations of a plain import": REF["io"] if start == 0 else 0, "interrupted imports": 0, "successful imports": 0}
    for idx in range(start, count, stride):
        if time.monotonic() > deadline:
            emit(timeout=idx)
            break
        prog = make(prop, idx, seed, api, None)
        try:
            h = execute(prog)
            vs = judge(prog, h)
        except Exception as e:                                            # noqa: one program the harness cannot run
            trouble.append("program %d: %s" % (idx, "".join(traceback.format_exception(e))[-1500:]))
            if len(trouble) > 2 + (idx - start) / stride * .05:
                raise
            continue
        st.add(prog, h)
        for r in h["recs"]:
            if r["how"] == "import" and "out" in r:
                extra["successful imports" if r["out"][0] == "ok" else "interrupted imports"] += 1
        for f in prog["faults"]:
            st.inter.add(hash((prog["tasks"][f["t"]][f["i"]]["imp"][1], f.get("ev"), f.get("io"), f["kind"])))
        st.inter.add(hash(json.dumps([prog["tasks"], h["decisions"]])))
        if vs:
            emit(violation={"idx": idx, "cls": vs[0]["cls"], "text": vs[0]["text"], "n": len(vs), "prog": explicit(prog, h)})
            break
    d = st.dump()
    d["extra"], d["trouble"] = extra, trouble
    d["refs"] = len(REF["ops"])
    emit(stats=d)


def trace(p):
    out = []
    for t, steps in enumerate(p["tasks"]):
        for i, s in enumerate(steps):
            out.append("task %d step %d: %s" % (t, i, " ".join(s["imp"][:2]) if "imp" in s else "call " + s["call"]["fn"]))
    for f in p.get("faults", ()):
        out.append("task %d step %d: %s at %s" % (f["t"], f["i"], f["kind"], "event %d of the import" % f["ev"] if "ev" in f
                                                  else "file operation %d" % f["io"]))
    for t, i, ev, to in p.get("switches", ()):
        out.append("at event %d of task %d step %d: run task %d" % (ev, t, i, to))
    return out


def replay(d, api):
    setup(api)
    p = d["prog"]
    return judge(p, execute(p, timeout=120)), trace(p)


class Min(engine.Minimiser):
    def fails(self, p):
        if time.monotonic() > self.end:
            return False
        self.tries += 1
        try:
            return any(v["cls"] == self.cls for v in judge(p, execute(p, timeout=30)))
        except Exception:                                                # noqa
            return False


def minimise(d, api):
    setup(api)
    m = Min("C09", d["cls"], None, 75)
    p = d["prog"]
    for k, v in (("cwd", []), ("gone", False), ("path0", False), ("sample", []), ("order", [PKG])):
        q = dict(p, **{k: v})
        if m.fails(q):
            p = q
    p = m.run(p)
    if p["sample"]:
        keep = m.ddmin(p["sample"], lambda ks, p=p: dict(p, sample=ks))
        p = dict(p, sample=keep)
    vs = [v for v in judge(p, execute(p)) if v["cls"] == d["cls"]]
    return p, (vs[0]["text"] if vs else d["text"]), trace(p), m.tries
