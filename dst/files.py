"""C07 / C08: the model-input file writers under injected I/O outcomes, interruptions, concurrency and rejected arguments.

The writers run for real (pandas, Python I/O stack, kernel file system in a scratch directory); the LD_PRELOAD seam asks
the simulator before every file operation, which may fail it, shorten it, deliver a signal after it, or run another
writer first.  program = the fields of world.py plus
  "tree":  {relative path: text | {"dir": 1}}     directory contents before the run
  "dirs":  {"@d0": directory argument}            "/" at its start stands for the scratch root
  "cwd":   relative path of the working directory
  "ioswitches": [[t, i, n, to], ...]              at the n-th file operation of step i of task t run task `to`
  faults with "io": n                             at the n-th file operation of the call; {"quota": bytes} faults on volume
"""
import csv
import errno
import gc
import hashlib
import io
import os
import random
import resource
import shutil
import signal
import time
import traceback

import numpy as np

from . import engine, gen, scen, seams, values, world, zygote

XGB = "functions.hydraulic.wave_overtopping.denbieman2021:write_input_file_XGB_Overtopping"
NN = "functions.hydraulic.wave_overtopping.vangent2007:write_input_file_NN_Overtopping"
# documented columns: (header of the file, parameter)
COLS = {
    XGB: [("b", "beta"), ("h", "h"), ("Hm0 toe", "Hm0"), ("Tm-1,0 toe", "Tmm10"), ("ht", "ht"), ("Bt", "Bt"), ("hb", "db"),
          ("B", "B_berm"), ("Rc", "Rc"), ("Ac", "Ac"), ("Gc", "Gc"), ("cotad", "cot_alpha_down"), ("cotau", "cot_alpha_up"),
          ("gf_d", "gamma_f_down"), ("gf_u", "gamma_f_up"), ("tanaf", "tan_alpha_f")],
    NN: [("b", "beta"), ("h", "h"), ("Hm0 toe", "Hm0"), ("Tm-1,0 toe", "Tmm10"), ("ht", "ht"), ("Bt", "Bt"), ("gf", "gamma_f"),
         ("cotad", "cot_alpha_down"), ("cotau", "cot_alpha_up"), ("Rc", "Rc"), ("B", "B_berm"), ("hb", "db"),
         ("tanaB", "tan_alpha_B"), ("Ac", "Ac"), ("Gc", "Gc")]}
EXT = {XGB: ".csv", NN: ".inp"}
OPS = {1: "open", 2: "write", 3: "close", 4: "fsync", 5: "rename", 6: "unlink", 7: "truncate", 8: "mkdir", 9: "link", 10: "read"}
ERRS = {"open": ("ENOSPC", "EACCES", "EMFILE", "EIO", "EROFS", "EDQUOT", "ENFILE"),
        "write": ("ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR", "short", "short1", "ENOSPC", "ESTALE"),
        "close": ("EIO", "ENOSPC", "EDQUOT"), "fsync": ("EIO", "ENOSPC"), "rename": ("EACCES", "EIO", "ENOSPC"),
        "truncate": ("EIO",), "mkdir": ("ENOSPC", "EACCES"), "link": ("EMLINK", "EACCES")}
SOFT = ("EINTR", "short", "short1")
STICKY = ("ENOSPC", "EDQUOT", "EIO", "EROFS")


# ------------------------------------------------------------------ model of a correct file
def expected(op, shared=None):
    """Columns of the case table as lists of python numbers, or None if the arguments are not a valid table."""
    cols = []
    n = None
    for _, p in COLS[op["fn"]]:
        v = np.asarray(values.build(op["kw"][p], shared))
        if v.dtype.kind not in "fiu" or v.ndim > 1:
            return None
        cols.append(v)
        if v.ndim == 1:
            if n not in (None, len(v)):
                return None
            n = len(v)
    if n is None:
        if not isinstance(op["kw"]["beta"], float):
            return None
        n = 1
    return [np.broadcast_to(c, (n,)) for c in cols]


def judge_text(op, text):
    """None, or why the file is not the complete and exact case table."""
    want = expected(op)
    if want is None:
        return None
    n = len(want[0])
    names = [c for c, _ in COLS[op["fn"]]]
    if not text.endswith("\n"):
        return "last record is cut off (%d bytes)" % len(text)
    if op["fn"] == XGB:
        rows = list(csv.reader(io.StringIO(text), delimiter=";"))
        if not rows or rows[0][1:] != names:
            return "header is %r" % (rows[0] if rows else None,)
        rows = rows[1:]
        if not all(rows):
            return "empty record"
        if [r[0] for r in rows] != [str(i) for i in range(len(rows))]:
            return "case numbers are wrong"
        rows = [r[1:] for r in rows]
    else:
        lines = text.split("\n")[:-1]
        k = 0
        while k < len(lines) and lines[k][:1] in ("!", "*"):
            k += 1
        if k < 2:
            return "comment records are missing"
        rows = [l.split() for l in lines[k:]]
    if len(rows) != n:
        return "%d records for %d cases" % (len(rows), n)
    for i, r in enumerate(rows):
        if len(r) != len(names):
            return "record %d has %d fields instead of %d" % (i, len(r), len(names))
        for c, tok in enumerate(r):
            w = want[c][i]
            try:
                got = w.dtype.type(tok) if w.dtype.kind == "f" else float(tok)
            except ValueError:
                return "record %d, %s: %r is not a number" % (i, names[c], tok)
            if got != w:
                return "record %d, %s: %r instead of %r" % (i, names[c], tok, w.item())
    return None


def target(op, dirs, cwd, root):
    """Path of the file the call is for, relative to the scratch root; None if the arguments name none."""
    try:
        d = op["kw"]["output_dir"]
        d = dirs[d["ref"]] if isinstance(d, dict) else d
        name = op["kw"].get("file_name", {XGB: "input_XGB_Overtopping", NN: "input_NN_Overtopping"}[op["fn"]])
        p = os.path.normpath(os.path.join(root, cwd, fix(d, root), "%s%s" % (values.build(name), EXT[op["fn"]])))
        return os.path.relpath(p, root)
    except (TypeError, ValueError, AttributeError, KeyError):
        return None


def fix(d, root):
    return root + d if d.startswith("/") else d


# ------------------------------------------------------------------ the world with files
class FileSim(world.Sim):
    def __init__(self, prog, root):
        super().__init__(prog)
        self.root = root
        self.mute = False
        self.dead = False
        self.dirs = prog.get("dirs", {})
        for k, d in self.dirs.items():
            self.shared[k] = fix(d, root) if isinstance(d, str) else d
            self.shared_ver[k] = d
        self.iosw, self.iofl = {}, {}
        for t, i, n, to in prog.get("ioswitches", ()):
            self.iosw.setdefault((t, i), {})[n] = to
        for f in prog.get("faults", ()):
            if "io" in f or "quota" in f:
                self.iofl.setdefault((f["t"], f["i"]), []).append(f)
        self.state = {}
        self.expect = None

    # ---- file operations
    def on_io(self, op, path, size):
        t = self.me()
        if t is None or self.mute or not t.stack:
            return 0
        rec = t.stack[0]
        if "io" not in rec:
            return 0
        try:
            rec["io"].append(OPS[op])
            n = len(rec["io"])
            self.events += 1
            if self.events > self.limit or n > 20000:
                self.finish("livelock", self.where(t))
            out = 0
            name = OPS[op]
            if rec.get("stick") and name in ("open", "write", "fsync", "rename", "mkdir", "truncate") \
                    and not (name == "open" and not size & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                rec["hard"].append((n, name, rec["stick"]))
                out = -getattr(errno, rec["stick"])
            elif not rec["dup"]:
                for f in self.iofl.get((t.idx, t.i), ()):
                    if "quota" in f and name == "write":
                        used = rec.setdefault("used", 0)
                        if used + size > f["quota"]:
                            self.count("disk full after quota")
                            out = f["quota"] - used if f["quota"] > used else -errno.ENOSPC
                            if out < 0:
                                rec["hard"].append((n, name, "ENOSPC"))
                        rec["used"] = used + (size if out == 0 else max(0, out))
                    elif f.get("io") == n and (f.get("op") in (None, name)):
                        out = self.io_fault(t, rec, f, n, name, size)
            to = None
            if t.sw is not None:
                to = self.iosw.get((t.idx, t.i), {}).get(n) if not rec["dup"] else None
                if to is not None:
                    self.switch(t, to)
            elif self.mode == "random" and self.rng.random() < .3:
                r = [x for x in self.runnable() if x is not t]
                if r:
                    to = r[self.rng.randrange(len(r))]
                    self.iolog(t, n, to)
                    self.handover(t, to)
            return out
        except world.StopRun:
            self.dead = True
            return -errno.EIO

    def iolog(self, t, n, to):
        self.iodec.append([t.idx, t.i, n, to.idx])
        self.points.append((t.idx, t.stack[0]["fn"], "io%d" % n, to.idx))

    iodec = ()

    def io_fault(self, t, rec, f, n, name, size):
        kind = f["kind"]
        if kind == "signal":
            if t.idx == 0:
                self.count("signal after file operation")
                self.sigrec = rec
                return 1000000007
            return 0
        if kind.startswith("short"):
            if name != "write" or size < 2:
                return 0
            self.count("short write")
            return 1 if kind == "short1" else max(1, int(size * f.get("part", .5)))
        if kind not in ERRS.get(name, ()):
            return 0
        self.count("%s:%s" % (name, kind))
        if kind != "EINTR":
            rec["hard"].append((n, name, kind))
            if f.get("sticky") and kind in STICKY:
                rec["stick"] = kind
        return -getattr(errno, kind)

    def on_usr2(self, signum, frame):
        rec = getattr(self, "sigrec", None)
        if rec is not None:
            self.sigrec = None
            e = world.InjKeyboardInterrupt("injected after a file operation")
            rec["inj"].append(e)
            raise e

    def settle(self):
        gc.collect()

    # ---- photographs
    def photo(self):
        out = {}
        for d, ds, fs in os.walk(self.root):
            rel = os.path.relpath(d, self.root)
            for x in ds:
                out[os.path.normpath(os.path.join(rel, x)) + "/"] = ("dir",)
            for x in fs:
                p = os.path.join(d, x)
                try:
                    with open(p, "rb") as fh:
                        b = fh.read()
                    out[os.path.normpath(os.path.join(rel, x))] = (len(b), hashlib.sha256(b).hexdigest())
                except OSError as e:
                    out[os.path.normpath(os.path.join(rel, x))] = ("unreadable", str(e))
        return out

    def handles(self):
        out = []
        for d in os.listdir("/proc/self/fd"):
            try:
                p = os.readlink("/proc/self/fd/" + d)
            except OSError:
                continue
            if p.startswith(self.root):
                out.append(os.path.relpath(p, self.root))
        return sorted(out)

    def read(self, rel):
        try:
            with open(os.path.join(self.root, rel), "rb") as fh:
                return fh.read()
        except (OSError, ValueError) as e:
            return e

    def call(self, t, op, how="call"):
        if self.dead:
            raise world.StopRun()
        w = op["fn"] in COLS
        if not w:
            return super().call(t, op, how)
        lim = t.steps[t.i].get("rlimit") if t.i < len(t.steps) else None
        tgt = target(op, self.dirs, self.prog.get("cwd", "."), self.root)
        before = self.read_quiet(tgt) if tgt else None
        old = None
        if lim is not None:
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
        self.pre = {"io": [], "hard": [], "dup": False, "tgt": tgt}
        try:
            rec = super().call(t, op, how)
        finally:
            if old:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
        self.mute = True
        b = self.read_quiet(tgt) if tgt else None
        rec["why"] = rec["sha"] = None
        if isinstance(b, bytes):
            rec["sha"] = hashlib.sha256(b).hexdigest()
            if rec["out"][0] == "ok":
                try:
                    rec["why"] = judge_text(rec["op"], b.decode("utf-8"))
                except UnicodeDecodeError as e:
                    rec["why"] = "file is not text: %s" % e
        elif rec["out"][0] == "ok":
            rec["why"] = "no file: %s" % b
        rec["kept"] = before == b if isinstance(before, bytes) else None
        rec["lim"] = lim
        others = [x for x in self.tasks if x.stack]
        rec["strays"] = self.tree_check(others, tgt)
        if not others:
            tr = seams.traces()
            rec["strays"] += [x for x in tr if x not in self.traces]
            self.traces = tr
        gc.collect()
        rec["leak"] = [] if others else self.handles()
        self.mute = False
        return rec

    def read_quiet(self, tgt):
        m, self.mute = self.mute, True
        b = self.read(tgt)
        self.mute = m
        return b

    def tree_check(self, others, tgt):
        """Directory entries changed other than the targets; entries another call in progress may own are let pass."""
        p = self.photo()
        bad = []
        busy = {x.stack[0].get("tgt") for x in others}
        for k in sorted(set(p) | set(self.state)):
            if k == tgt or k in busy or p.get(k) == self.state.get(k):
                continue
            if others and k not in self.state:
                continue                      # a temporary file of a call in progress, perhaps
            bad.append("%s %s" % (k, "appeared" if k not in self.state else "vanished" if k not in p else "changed"))
        for x in busy:
            if x in p:
                self.state[x] = p[x]
        if not bad:
            self.state = {k: v for k, v in p.items() if not (others and k not in self.state and k != tgt)}
        else:
            self.state = p
        if tgt in p:
            self.state[tgt] = p[tgt]
        return bad

    def run(self):
        for rel in sorted(self.prog.get("tree", {})):
            v = self.prog["tree"][rel]
            p = os.path.join(self.root, rel)
            if isinstance(v, dict):
                os.makedirs(p, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as fh:
                    fh.write(v)
        os.chdir(os.path.join(self.root, self.prog.get("cwd", ".")))
        self.iodec = []
        self.state = self.photo()
        seams.watch()
        self.traces = seams.traces()
        signal.signal(signal.SIGUSR2, self.on_usr2)
        if not seams.set_io_hook(self.on_io_c, self.root):
            raise RuntimeError("the file system seam is not loaded")
        h = super().run()
        seams.set_io_hook(None, "")
        h["iodec"] = self.iodec
        return h

    def on_io_c(self, op, path, size):
        try:
            return self.on_io(op, path, size)
        except BaseException as e:                                       # noqa: must not leave the callback
            self.notes.append({"k": "harness", "err": "io hook: %r" % e})
            return 0


PANDAS = []


def prepare():
    """Also watch the part of pandas that writes the table, so that interruptions and switches can fall into it."""
    import pandas.io.common as com
    import pandas.io.formats.csvs as csvs
    import pandas.io.formats.format as fmt
    codes = []
    for f in list(vars(csvs.CSVFormatter).values()) + list(vars(com.IOHandles).values()) + [com.get_handle, com._get_filepath_or_buffer,
                                                                                         fmt.DataFrameRenderer.to_csv]:
        while hasattr(f, "__wrapped__"):
            f = f.__wrapped__
        f = getattr(f, "fget", f)
        c = getattr(f, "__code__", None)
        if c is not None:
            codes.append(c)
    for c in codes:
        world.NOFAULT.setdefault(c.co_filename, world.no_fault_lines(c.co_filename))
    world.CODES = tuple(world.CODES) + tuple(codes)


def run_prog(prog, root):
    return FileSim(prog, root).run()


def root_dir():
    return os.path.join(os.environ.get("DST_TMP") or "/tmp", "fs%d" % os.getpid(), "r")


def execute(prog, timeout=90):
    root = root_dir()
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        return zygote.run(run_prog, prog, root, timeout=timeout)
    except zygote.Died as e:
        return {"recs": [], "notes": [], "end": {"how": "hang", "detail": "status %r" % e.status}, "fired": {}, "decisions": [],
                "events": 0, "points": [], "time": 0, "iodec": []}
    finally:
        shutil.rmtree(os.path.dirname(root), ignore_errors=True)


class FRef:
    """The call made first and alone in a pristine process, in an empty directory: outcome, operations, digest of the file."""

    def __init__(self):
        self.memo = {}
        self.calls = 0
        self.calc = engine.Ref()                     # calculations made next to the writers

    def __call__(self, op, dirs, tree_dirs, cwd):
        k = repr((op["fn"], sorted(op["kw"].items(), key=lambda x: x[0]), sorted(dirs.items()), cwd))
        k = hashlib.sha256(k.encode()).hexdigest()
        if k not in self.memo:
            if len(self.memo) > 3000:
                self.memo.clear()
            self.calls += 1
            h = execute({"tasks": [[{"call": op}]], "gran": "line", "env": {"warn": "always"}, "dirs": dirs, "tree": tree_dirs,
                         "cwd": cwd}, timeout=60)
            r = h["recs"][0] if h["recs"] else {}
            self.memo[k] = {"out": r.get("out"), "io": r.get("io", []), "sha": r.get("sha"), "steps": r.get("steps", 0),
                            "end": h["end"], "why": r.get("why"), "warns": r.get("warns", []), "vt": r.get("vt", 0.0)}
        return self.memo[k]


# ------------------------------------------------------------------ programs
def table(rng, fn, n, style):
    kw = {}
    for _, p in COLS[fn]:
        kw[p] = column(rng, p, n, style)
    if style == "scalars":
        kw["beta"] = float(kw["beta"])
    elif not isinstance(kw["beta"], dict):
        kw["beta"] = column(rng, "beta", n, "arrays")
    if n > 1 and rng.random() < .25:                     # equal cases: neighbours, ends, or all of them
        i, js = rng.choice(((0, [1]), (0, [n - 1]), (n // 2, [0, n - 1]), (0, list(range(n)))))
        for v in kw.values():
            for q in ("a", "list", "ser") if isinstance(v, dict) else ():
                for j in js if q in v else ():
                    v[q][j] = v[q][i]
    return kw


def column(rng, p, n, style):
    lo, hi = gen.R.get(p, (0, 1))

    def num():
        u = rng.random()
        if u < .06:
            return rng.choice((0.0, -0.0, 0.1 + 0.2, 1e-300, 1.7976931348623157e308, 5e-324, 1 / 3, -1e-7, 123456789.123456789, 1e16, 1e22))
        if u < .15:
            return float(int(rng.uniform(lo, hi)))
        return rng.uniform(lo, hi) if u < .5 else gen.rnd(rng, lo, hi)
    if style == "scalars" or (style == "mixed" and rng.random() < .4):
        return num()
    if style == "ints" and rng.random() < .5:
        return {"a": [rng.randrange(-5, 500) for _ in range(n)], "dt": "int64"}
    if n > 400:
        a, b = rng.uniform(lo, hi), rng.uniform(lo, hi)
        return {"lin": [a, b, n, rng.uniform(0, .1) * (hi - lo)], "lay": rng.choice(("C", "str", "ro"))}
    v = [num() for _ in range(n)]
    if style == "f32" and rng.random() < .5:
        return {"a": [gen.rnd(rng, lo, hi) for _ in range(n)], "dt": "float32"}
    if style == "lists" and rng.random() < .6:
        return {"list": v}
    if style == "series" and rng.random() < .5:
        return {"ser": v}
    return {"a": v, "lay": rng.choice(gen.LAYS)}


SIZES = ((1, 2), (2, 3), (3, 4), (10, 3), (50, 2), (199, 1), (200, 3), (201, 1), (450, 2), (3000, 1), (7000, .4), (14000, .25))
NAMES = ("x", "case", "input_NN_Overtopping", "input_XGB_Overtopping", "a.b", "run 1", "tmp", "x.inp", "x.csv", "2024-01", "sub/x",
         "x.tmp", "é-ü", "-", "x~", None, None)
DIRS = ("/out", "/out/", "out", "./out", "/out/deep", "", ".", "/out/../out", "/other", "/a b")
BASE_TREE = {"out": {"dir": 1}, "out/deep": {"dir": 1}, "other": {"dir": 1}, "a b": {"dir": 1}, "out/sub": {"dir": 1},
             "other/sub": {"dir": 1}, "out/deep/sub": {"dir": 1}, "sub": {"dir": 1}, "a b/sub": {"dir": 1}}


def sizes(rng, fn, api):
    c = [x for x in api.sizes.get(fn, ()) if 2 <= x <= 4096]
    if c and rng.random() < .15:
        return max(1, rng.choice(c) + rng.choice((-1, 0, 1)))
    return gen.pick(rng, SIZES)


class Maker:
    def __init__(self, prop, idx, seed, api, ref):
        self.rng = random.Random("%s/%d/%d" % (prop, seed, idx))
        self.api, self.ref = api, ref
        self.tree = dict(BASE_TREE)
        self.dirs = {}
        self.cwd = self.rng.choice((".", ".", "out", "other"))
        self.prop, self.idx = prop, idx

    def directory(self, d=None):
        d = self.rng.choice(DIRS) if d is None else d
        if d in ("out", "./out"):
            self.tree.setdefault(os.path.normpath(os.path.join(self.cwd, "out")), {"dir": 1})
            self.tree.setdefault(os.path.normpath(os.path.join(self.cwd, "out/sub")), {"dir": 1})
        if d in ("", "."):
            self.tree.setdefault(os.path.normpath(os.path.join(self.cwd, "sub")), {"dir": 1})
        for k, v in self.dirs.items():
            if v == d:
                return {"ref": k}
        k = "@d%d" % len(self.dirs)
        self.dirs[k] = d
        return {"ref": k}

    def op(self, fn=None, n=None, name=0, d=None, style=None):
        rng = self.rng
        fn = fn or (XGB, NN)[(self.idx + rng.randrange(3) // 2) % 2]
        style = style or rng.choice(("arrays", "arrays", "arrays", "scalars", "mixed", "ints", "f32", "lists", "series"))
        n = n if n is not None else sizes(rng, fn, self.api)
        if style == "scalars":
            n = 1
        kw = table(rng, fn, n, style)
        kw["output_dir"] = self.directory(d)
        nm = rng.choice(NAMES) if name == 0 else name
        if nm is not None:
            kw["file_name"] = nm
        return {"fn": fn, "kw": kw, "st": style}

    def twin(self, op):
        """The next case table: the same size with other values, one value changed, or fewer / more cases."""
        rng = self.rng
        u = rng.randrange(4)
        if u == 0:
            kw = dict(op["kw"])
            p = rng.choice(COLS[op["fn"]])[1]
            kw[p] = gen.tweak_val(rng, kw[p])
            new = dict(op, kw=kw)
            e = None
            try:
                e = expected(new)
            except (ValueError, TypeError, OverflowError):
                pass
            if e is not None and all(np.isfinite(c.astype(float)).all() for c in e) and len(e[0]) and (op["st"] != "scalars" or isinstance(
                    kw["beta"], float)):
                return new
        n = {1: 1, 2: 2, 3: 5}.get(u, 3)
        new = self.op(op["fn"], n, style=op["st"])
        new["kw"]["output_dir"] = op["kw"]["output_dir"]
        if "file_name" in op["kw"]:
            new["kw"]["file_name"] = op["kw"]["file_name"]
        else:
            new["kw"].pop("file_name", None)
        return new

    def tree_dirs(self):
        return {k: v for k, v in self.tree.items() if isinstance(v, dict)}

    def reference(self, op):
        return self.ref(op, self.dirs, self.tree_dirs(), self.cwd)

    def target(self, op):
        return target(op, self.dirs, self.cwd, "/root")

    def clutter(self, ops, existing=.6):
        """Other files in the same directories, with names near the targets; sometimes an old target."""
        rng = self.rng
        tgts = {t for t in (self.target(o) for o in ops) if t and "\0" not in t and len(t) < 120 and not t.startswith("..")
                and (os.path.dirname(t) in ("", ".") or isinstance(self.tree.get(os.path.dirname(t)), dict))}
        for t in sorted(tgts):
            if rng.random() < existing:
                self.tree[t] = rng.choice(("old\n", "old;" * 5000, "", "! old\n1 2 3\n"))
            d, b = os.path.split(t)
            stem = b.rsplit(".", 1)[0]
            for s in (b + ".tmp", b + "~", b + ".bak", "." + b, stem + ".tmp", stem, b + ".part", "tmp", b + ".lock", b + ".new",
                      stem + ".inp", stem + ".csv", "input_NN_Overtopping.inp", "input_XGB_Overtopping.csv", "keep.txt", b + ".old"):
                p = os.path.normpath(os.path.join(d, s))
                if p not in tgts and p not in self.tree and rng.random() < .5:
                    self.tree[p] = "mine: %s\n" % s

    def prog(self, tasks, **k):
        p = {"tasks": tasks, "gran": "line", "env": {"warn": "always"}, "tree": self.tree, "dirs": self.dirs, "cwd": self.cwd,
             "limit": 3000000}
        p.update(k)
        return p

    def io_faults(self, op, m):
        """m (io number, kind) placements for one call."""
        rng = self.rng
        ops = self.reference(op)["io"]
        if not ops:
            return []
        pos = list(range(1, len(ops) + 1))
        if len(pos) > m:
            pos = sorted(set(pos[:2] + pos[-3:] + rng.sample(pos, m - 4)))
        out = []
        for n in pos:
            name = ops[n - 1]
            kinds = ERRS.get(name)
            if not kinds:
                continue
            if rng.random() < .12:
                out.append({"io": n, "kind": "signal"})
                continue
            f = {"io": n, "kind": rng.choice(kinds)}
            if f["kind"] in STICKY and rng.random() < .5:
                f["sticky"] = 1
            if f["kind"] == "short":
                f["part"] = rng.choice((.01, .5, .9, .99))
            out.append(f)
        return out


def usable(mk, op):
    r = mk.reference(op)
    return r["out"] is not None and r["out"][0] == "ok"


# the writers as callers under the in-process properties
KINDS = {"C01": ("conc", "nested", "blend", "free", "conc", "nested"), "C02": ("history", "inplace", "blend"),
         "C03": ("line", "io", "blend", "line", "mix"), "C04": ("line", "history", "conc", "io", "reject"),
         "C05": ("line", "io", "conc", "history", "reject", "nested"), "C06": ("blend", "conc", "blend", "history", "line", "nested"),
         "C10": ("stall", "kill", "blend", "stall", "free", "nested")}


def make(prop, idx, seed, api, ref):
    mk = Maker(prop, idx, seed, api, ref)
    rng = mk.rng
    if prop in KINDS:
        kind = KINDS[prop][(idx // 2 + rng.randrange(2)) % len(KINDS[prop])]
    elif prop == "C07":
        kind = ("io", "history", "io", "quota", "line", "rlimit", "io", "conc", "quota", "line", "inplace", "mix")[(idx // 2 + rng.randrange(2)) % 12]
    else:
        kind = ("conc", "reject", "faults", "conc", "reject", "interrupt", "faults", "free")[(idx // 2 + rng.randrange(2)) % 8]
    op = mk.op()
    if prop == "C08" and kind in ("conc", "free", "interrupt") and rng.random() < .8:
        op = mk.op(n=rng.choice((1, 3, 10, 200)))
    if prop in KINDS and rng.random() < .8:
        op = mk.op(n=rng.choice((1, 2, 3, 10, 60)))
    if not usable(mk, op):
        raise scen.Skip("reference call fails")
    p = None
    if kind in ("io", "faults"):
        fl, steps = [], []
        ops = [op]
        for f in mk.io_faults(op, 10):
            o = op if rng.random() < .6 else mk.twin(op)
            ops.append(o)
            fl.append(dict(f, t=0, i=len(steps)))
            steps.append({"call": o})
            if rng.random() < .7:
                steps.append({"call": o if rng.random() < .7 else mk.twin(o)})
        steps.append({"call": op})
        mk.clutter([s["call"] for s in steps])
        p = mk.prog([steps], faults=fl, gran="none")
    elif kind == "quota":
        full = sum(1 for x in mk.reference(op)["io"])
        size = size_of(op)
        fl, steps = [], []
        for _ in range(6):
            fl.append({"t": 0, "i": len(steps), "quota": rng.choice((0, 1, 100, 1500, 2000, 4096, 8191, 8192, 8193, int(size * rng.random()),
                                                                 size - 1, size - 2, size - 30)), "kind": "quota"})
            if fl[-1]["quota"] < 0:
                fl[-1]["quota"] = 10
            steps += [{"call": op}, {"call": op if rng.random() < .6 else mk.twin(op)}]
        mk.clutter([op])
        p = mk.prog([steps], faults=fl, gran="none")
    elif kind == "rlimit":
        size = size_of(op)
        steps = []
        for _ in range(5):
            steps += [{"call": op, "rlimit": max(0, rng.choice((0, 100, 2000, 8192, int(size * rng.random()), size - 1, size - 40)))},
                      {"call": op}]
        mk.clutter([op])
        p = mk.prog([steps], gran="none")
    elif kind in ("line", "interrupt"):
        st = max(1, mk.reference(op)["steps"])
        ks = scen.points(rng, st, 14)
        fl, steps = [], []
        for k in ks:
            fl.append({"t": 0, "i": len(steps), "ev": k, "kind": rng.choice(("MemoryError", "KeyboardInterrupt", "MemoryError", "Kill",
                                                                              "SystemExit", "RecursionError"))})
            steps.append({"call": op})
            if rng.random() < .6:
                steps.append({"call": op if rng.random() < .6 else mk.twin(op)})
        steps.append({"call": op})
        mk.clutter([s["call"] for s in steps])
        p = mk.prog([steps], faults=fl)
    elif kind in ("history", "mix"):
        ops = [op]
        steps = [{"call": op}]
        pool = [mk.op(n=rng.choice((1, 2, 3, 10, 60))) for _ in range(4)]
        for _ in range(rng.choice((6, 12, 25))):
            u = rng.random()
            o = mk.twin(rng.choice(pool + [op])) if u < .5 else rng.choice(pool) if u < .8 else op
            if not usable(mk, o):
                continue
            steps.append({"call": o})
        fl = []
        if kind == "mix":
            for i, s in enumerate(steps):
                if rng.random() < .4:
                    r = mk.io_faults(s["call"], 30)
                    if r:
                        fl.append(dict(rng.choice(r), t=0, i=i))
        mk.clutter([s["call"] for s in steps], existing=.3)
        p = mk.prog([steps], faults=fl, gran="none")
    elif kind == "inplace":
        # the caller keeps its arrays and changes them between calls; mixed with failing calls
        op = mk.op(n=rng.choice((2, 3, 10)), style="arrays")
        for k, v in op["kw"].items():
            if isinstance(v, dict) and v.get("lay") == "ro":
                v["lay"] = "C"
        shared, kw = {}, {}
        for k, v in op["kw"].items():
            if isinstance(v, dict) and "a" in v and rng.random() < .7:
                shared["s_" + k] = v
                kw[k] = {"ref": "s_" + k}
            else:
                kw[k] = v
        steps = [{"call": dict(op, kw=kw)}]
        for _ in range(6):
            for s in sorted(shared):
                if rng.random() < .4:
                    v = dict(shared[s])
                    lo, hi = gen.R.get(s[2:], (0, 1))
                    steps.append({"mut": s, "to": dict(v, a=[gen.rnd(rng, lo, hi) for _ in v["a"]])})
            steps.append({"call": dict(op, kw=kw)})
        mk.clutter([op])
        p = mk.prog([steps], gran="none", shared=shared)
    elif kind in ("conc", "free"):
        nt = rng.choice((2, 2, 2, 3))
        tasks, seen = [], set()
        for t in range(nt):
            steps = []
            for _ in range(rng.choice((1, 2, 3)) if nt < 3 else 1):
                for _ in range(12):
                    o = mk.op(n=rng.choice((1, 2, 3, 10, 200)), d=None if rng.random() < .3 else "/out")
                    if not steps and t == 0:
                        o = op
                    g = mk.target(o)
                    owner = [x for x in seen if x[0] == g]
                    if g and (not owner or owner[0][1] == t) and usable(mk, o):
                        seen.add((g, t))
                        steps.append({"call": o})
                        break
            tasks.append(steps)
        ops = [s["call"] for t in tasks for s in t]
        mk.clutter(ops)
        if kind == "free":
            p = mk.prog(tasks, sched={"mode": "random", "seed": rng.randrange(2**31), "p": rng.choice((.002, .01, .05))})
        else:
            sw = []
            for t, steps in enumerate(tasks):
                for i, s in enumerate(steps):
                    n = len(mk.reference(s["call"])["io"])
                    for k in sorted(rng.sample(range(1, n + 1), min(n, rng.choice((1, 2, 4))))):
                        sw.append([t, i, k, rng.choice([x for x in range(nt) if x != t])])
            lsw = []
            for t, steps in enumerate(tasks):
                for i, s in enumerate(steps):
                    st = max(1, mk.reference(s["call"])["steps"])
                    for _ in range(rng.choice((0, 1, 3))):
                        lsw.append([t, i, rng.randrange(1, st + 1), rng.choice([x for x in range(nt) if x != t])])
            p = mk.prog(tasks, ioswitches=sw, switches=lsw)
        if rng.random() < .3:
            fl = []
            for t, steps in enumerate(tasks):
                for i, s in enumerate(steps):
                    r = [f for f in mk.io_faults(s["call"], 30) if f["kind"] != "signal"]
                    if r and rng.random() < .5:
                        fl.append(dict(rng.choice(r), t=t, i=i))
            p["faults"] = fl
    elif kind == "nested":
        # in the middle of the write a signal handler or warning hook writes other files
        ks = scen.points(rng, mk.reference(op)["steps"], 10)
        fl = []
        for i, k in enumerate(ks):
            for _ in range(9):
                o = mk.op(fn=op["fn"] if rng.random() < .7 else None, n=rng.choice((1, 2, 3, 10)), name="n%d" % i)
                if mk.target(o) != mk.target(op) and usable(mk, o):
                    fl.append({"t": 0, "i": i, "ev": k, "kind": rng.choice(("reenter", "signal")), "op": o})
                    break
        mk.clutter([op], existing=.5)
        p = mk.prog([[{"call": op} for _ in ks]], faults=fl)
    elif kind in ("stall", "kill"):
        # some writers stop (or die) in the middle; others, also in the same directory or for the same file, go on
        tasks, fl = [], []
        for t, k in enumerate(scen.points(rng, mk.reference(op)["steps"], 5)):
            tasks.append([{"call": op if rng.random() < .6 else mk.twin(op)}])
            fl.append({"t": t, "i": 0, "ev": k, "kind": "stall" if kind == "stall" else rng.choice(scen.EXC_KINDS)})
        o = mk.op(fn=op["fn"], n=rng.choice((1, 2, 10)), name="other")
        o["kw"]["output_dir"] = op["kw"]["output_dir"]
        last = [x for x in (o, op, mk.op(n=2, name="third"), mk.twin(op)) if usable(mk, x)]
        rng.shuffle(last)
        tasks.append([{"call": x} for x in last])
        mk.clutter([op], existing=.3)
        p = mk.prog(tasks, faults=fl)
    elif kind == "blend":
        p = blend(mk, prop, op)
    elif kind == "reject":
        steps, ops = [], []
        good = op if op["st"] != "scalars" else mk.op(n=3, style="arrays")
        if rng.random() < .6:
            steps.append({"call": good})
        for _ in range(8):
            base = good if rng.random() < .5 else mk.op(n=rng.choice((1, 2, 3, 10, 200)), d="/out")
            steps.append({"call": spoil(mk, base)})
            if rng.random() < .3:
                steps.append({"call": good})
        mk.clutter([s["call"] for s in steps], existing=.85)
        p = mk.prog([steps], gran="none")
    p["kind"] = kind
    if prop == "C04":
        p["watch"] = ["args", "results", "argsmid"] + (["mid"] if len(p["tasks"]) > 1 else [])
        if kind not in ("line", "conc", "free"):
            p["gran"] = "line"
    elif prop == "C05":
        p["watch"] = ["ambient", "mid"]
        p["env"] = dict(scen.swarm_env(rng), warn="always")
        if kind == "history" and len(p["tasks"]) == 1:
            p["gran"] = "line"
            p["faults"] = [{"t": 0, "i": i, "ev": k, "kind": "look"} for i, x in enumerate(p["tasks"][0][:8]) if "call" in x
                           for k in scen.points(rng, mk.reference(x["call"])["steps"], 40)]
    p["spawn"] = rng.choice(("slow", "slow", "fast"))
    return p


def blend(mk, prop, op):
    """Writers and calculations at the same time, one in the middle of the other, or one after the other."""
    rng, ref = mk.rng, mk.ref.calc
    calls = []
    while len(calls) < 4:
        key = rng.choice(mk.api.pure)
        o = scen.warned(rng, mk.api, ref, key) if prop == "C06" or rng.random() < .3 else None
        o = o or scen.pick_op(rng, mk.api, ref, key)
        if scen.nsteps(ref, o) < 2000:
            calls.append(o)
    ks = scen.points(rng, mk.reference(op)["steps"], 12)
    rng.shuffle(ks)
    mk.clutter([op], existing=.4)
    how = rng.choice({"C02": ("seq",), "C03": ("fault", "fault", "switch"), "C10": ("stall", "stall", "switch")}.get(prop, ("switch", "switch", "nested")))
    if how == "switch":                                  # at k the other thread makes calls; half of them wait half-way for the writer
        t0, t1, sw = [], [], []
        for i, k in enumerate(ks):
            t0.append({"call": op if rng.random() < .7 else mk.twin(op)})
            sw.append([0, i, k, 1])
            if i:
                sw.append([1, len(t1), 0, 0])
            for c in rng.sample(calls, rng.choice((1, 2))):
                if rng.random() < .4:
                    sw.append([1, len(t1), rng.randrange(1, scen.nsteps(ref, c) + 1), 0])
                t1.append({"call": c})
        return mk.prog([t0, t1], switches=sw)
    if how == "nested":
        fl = [{"t": 0, "i": i, "ev": k, "kind": rng.choice(("reenter", "signal")), "op": rng.choice(calls)} for i, k in enumerate(ks)]
        t0 = [{"call": op} for _ in ks]
        for j in range(3):
            c = calls[j]
            o = mk.op(fn=op["fn"], n=rng.choice((1, 2, 3)), name="n%d" % j)
            if usable(mk, o):
                fl.append({"t": 0, "i": len(t0), "ev": rng.randrange(1, scen.nsteps(ref, c) + 1), "kind": rng.choice(("reenter", "signal")), "op": o})
                t0.append({"call": c})
        return mk.prog([t0], faults=fl)
    if how == "stall":
        tasks, fl = [], []
        for t, k in enumerate(ks[:4]):
            tasks.append([{"call": op if rng.random() < .6 else mk.twin(op)}])
            fl.append({"t": t, "i": 0, "ev": k, "kind": "stall"})
        for c in calls[:3]:
            fl.append({"t": len(tasks), "i": 0, "ev": rng.randrange(1, scen.nsteps(ref, c) + 1), "kind": "stall"})
            tasks.append([{"call": c}])
        o = mk.op(fn=op["fn"], n=rng.choice((1, 2)), name="other")
        tasks.append([{"call": c} for c in calls] + ([{"call": o}] if usable(mk, o) else []))
        return mk.prog(tasks, faults=fl)
    steps, fl = [], []
    for k in ks:
        if how == "fault":
            fl.append({"t": 0, "i": len(steps), "ev": k, "kind": rng.choice(scen.EXC_KINDS)})
        steps.append({"call": op if rng.random() < .7 else mk.twin(op)})
        c = rng.choice(calls)
        if how == "fault" and rng.random() < .4:
            fl.append({"t": 0, "i": len(steps), "ev": rng.randrange(1, scen.nsteps(ref, c) + 1), "kind": rng.choice(scen.EXC_KINDS)})
        steps.append({"call": c})
        if rng.random() < .4:
            steps.append({"call": op})
    return mk.prog([steps], faults=fl)


def size_of(op):
    e = expected(op)
    return int(60 + (1300 if op["fn"] == NN else 90) + sum(len(repr(x)) + 1 for c in e for x in c.tolist()))


def spoil(mk, op):
    """A call with inconsistent arguments over the same target."""
    rng = mk.rng
    kw = dict(op["kw"])
    ps = [p for _, p in COLS[op["fn"]]]
    u = rng.randrange(12)
    p = rng.choice(ps)
    arrs = [x for x in ps if isinstance(kw[x], dict) and ("a" in kw[x] or "list" in kw[x] or "ser" in kw[x])]
    if u <= 4:
        p = rng.choice(arrs or ps)
        n = next((len(kw[x].get("a") or kw[x].get("list") or kw[x].get("ser") or [0] * int(kw[x].get("lin", [0, 0, 3])[2]))
                  for x in ps if isinstance(kw[x], dict)), 3)
        n2 = rng.choice((n + 1, max(0, n - 1), 2 * n, n + 5))
        kw[p] = {rng.choice(("a", "list")): [gen.rnd(rng, 0, 3) for _ in range(n2)]}
    elif u == 5:
        kw[p] = {"a": [gen.rnd(rng, 0, 3) for _ in range(6)], "sh": [2, 3]}
    elif u == 6:
        for x in ps:
            kw[x] = rng.choice((1, 2, 3))
    elif u == 7:
        kw[p] = {"a": [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0], "sh": [7, 1]}
    elif u == 8:
        del kw[p]
    elif u == 9:
        kw[rng.choice(("file_name", "output_dir"))] = rng.choice((None, 3, {"list": []}, "no/such/dir/here", "nul\x00x", "n" * 300))
    elif u == 10:
        kw[p] = {"a": [], "dt": "float64"}
    else:
        kw["beta"] = rng.choice((0, 1, {"np": "float32", "v": 3.0}))
        for x in ps[1:]:
            kw[x] = 1.5
    return dict(op, kw=kw)


# ------------------------------------------------------------------ judging
def V(cls, text):
    return {"cls": cls, "text": text}


def materialised_dir(op, prog):
    """The recorded call with its directory as a reference again (the record holds the resolved description)."""
    kw = dict(op["kw"])
    for k, v in prog["dirs"].items():
        if kw.get("output_dir") == v:
            kw["output_dir"] = {"ref": k}
    return dict(op, kw=kw)


def judge_caller(prop, prog, h, ref):
    """The in-process properties with the file writers as the calls."""
    dirs = {k: v for k, v in prog["tree"].items() if isinstance(v, dict)}

    def alone(op, gran="line"):
        if op["fn"] not in COLS:
            return ref.calc(op, gran)
        q = ref(materialised_dir(op, prog), prog["dirs"], dirs, prog["cwd"])
        return q if q["out"] is not None else dict(q, bad=q["end"])
    recs = [r for r in h["recs"] if "out" in r and (r["fn"] not in COLS or "hard" in r and not r["hard"] and r.get("lim") is None)]
    out = scen.judge(prop, prog, dict(h, recs=recs), alone)
    if prop in ("C01", "C02", "C03"):
        for r in recs:
            if r["fn"] not in COLS:
                continue
            q = alone(r["op"])
            if r["out"][0] == "ok" and "bad" not in q and q["out"][0] == "ok" and q["sha"] and q["sha"] != r["sha"]:
                out.append(V("file", "%s (%s, task %d step %d): the file written is not the one the call alone writes" % (
                    r["fn"], r["how"], r["t"], r["i"])))
    return out


def judge(prop, prog, h, ref):
    if prop in KINDS:
        return judge_caller(prop, prog, h, ref)
    out = []
    for n in h["notes"]:
        if n["k"] == "harness":
            raise RuntimeError("harness: " + n["err"])
    e = h["end"] or {}
    if e.get("how") == "harness":
        raise RuntimeError("harness: %r" % (e,))
    if e.get("how") in ("deadlock", "livelock", "hang"):
        out.append(V(e["how"], "writers do not complete: %s %s" % (e["how"], e.get("detail"))))
    dirs = {k: v for k, v in prog["tree"].items() if isinstance(v, dict)}
    for r in h["recs"]:
        if "out" not in r or "io" not in r:
            continue
        name = "%s (task %d step %d, %d file operations)" % (r["fn"].split(":")[1], r["t"], r["i"], len(r["io"]))
        disturbed = r["hard"] or r["ninj"] or r["lim"] is not None
        ok = r["out"][0] == "ok"
        if prop == "C07":
            valid = True
            try:
                valid = expected(r["op"]) is not None
            except (KeyError, ValueError, TypeError):
                valid = False
            if ok and r["why"]:
                out.append(V("incomplete", "%s returned normally, but %s%s" % (name, r["why"], faults_text(r))))
            elif ok and any(x[1] == "close" for x in r["hard"]):
                out.append(V("close-ignored", "%s returned normally although closing the file failed%s" % (name, faults_text(r))))
            elif valid and not disturbed:
                q = ref(materialised_dir(r["op"], prog), prog["dirs"], dirs, prog["cwd"])
                if q["out"] and q["out"][0] == "ok":
                    if not ok:
                        out.append(V("no-recovery", "%s: undisturbed call raises %s(%s)" % (name, r["out"][1], r["out"][2][:100])))
                    elif q["sha"] != r["sha"]:
                        out.append(V("different", "%s: the file differs from the one an undisturbed first call writes" % name))
            elif valid and ok and r["sha"]:
                q = ref(materialised_dir(r["op"], prog), prog["dirs"], dirs, prog["cwd"])
                if q["out"] and q["out"][0] == "ok" and q["sha"] != r["sha"]:
                    out.append(V("different", "%s returned normally under faults, but the file differs from the undisturbed one%s" % (
                        name, faults_text(r))))
        else:
            if r["strays"]:
                out.append(V("strays", "%s: other directory entries touched: %s%s" % (name, "; ".join(r["strays"][:4]), faults_text(r))))
            if r["leak"]:
                out.append(V("handles", "%s: leaves files open: %s%s" % (name, r["leak"][:4], faults_text(r))))
            if not ok and not disturbed and r["kept"] is False:
                out.append(V("rejected", "%s: rejected (%s: %s), but the existing target was changed" % (name, r["out"][1], r["out"][2][:80])))
            if ok and r["why"] and len(prog["tasks"]) > 1 and not disturbed:
                out.append(V("mixed-up", "%s: concurrent writers spoil the file: %s" % (name, r["why"])))
    return out


def faults_text(r):
    f = ["%s failed with %s at operation %d" % (x[1], x[2], x[0]) for x in r["hard"][:3]]
    if r.get("lim") is not None:
        f.append("file size limit %d" % r["lim"])
    if r["ninj"]:
        f.append("interrupted")
    return " [" + "; ".join(f) + "]" if f else ""


# ------------------------------------------------------------------ worker, replay, minimise
def explicit(prog, h):
    p = dict(prog)
    if p.get("sched", {}).get("mode", "explicit") != "explicit":
        p = engine.explicit(p, h)
        p["ioswitches"] = h["iodec"]
    return p


def worker(prop, seed, start, stride, count, deadline, api, emit):
    """True when a violation was found."""
    prepare()
    ref = FRef()
    st = engine.Stats()
    nops, trouble = {}, []
    found = False
    for idx in range(start, count, stride):
        if time.monotonic() > deadline:
            emit(timeout=idx)
            break
        try:
            prog = make(prop, idx, seed, api, ref)
        except scen.Skip:
            st.skipped += 1
            continue
        try:
            h = execute(prog)
            vs = judge(prop, prog, h, ref)
        except Exception as e:                                            # noqa: one program the harness cannot run
            trouble.append("program %d: %s" % (idx, "".join(traceback.format_exception(e))[-1500:]))
            if len(trouble) > 2 + (idx - start) / stride * .05:
                raise
            continue
        st.add(prog, h)
        for r in h["recs"]:
            for o in r.get("io", ()):
                nops["file operation " + o] = nops.get("file operation " + o, 0) + 1
            if r.get("lim") is not None:
                st.fired["file size limit (kernel)"] = st.fired.get("file size limit (kernel)", 0) + 1
        if vs:
            emit(violation={"idx": idx, "cls": vs[0]["cls"], "text": vs[0]["text"], "n": len(vs), "prog": explicit(prog, h)})
            found = True
            break
    st.refs = ref.calls
    d = st.dump()
    d["extra"], d["trouble"] = nops, trouble
    emit(stats=d)
    return found


def replay(d, api):
    prepare()
    h = execute(d["prog"], timeout=120)
    return judge(d["property"], d["prog"], h, FRef()), engine.describe_prog(d["prog"])


class Min(engine.Minimiser):
    def fails(self, p):
        if time.monotonic() > self.end:
            return False
        self.tries += 1
        try:
            return any(v["cls"] == self.cls for v in judge(self.prop, p, execute(p, timeout=30), self.ref))
        except Exception:                                                # noqa
            return False


def minimise(d, api):
    prepare()
    m = Min(d["property"], d["cls"], FRef(), 75)
    p = m.run(d["prog"])
    for k in sorted(p["tree"]):                       # clutter that plays no part
        if not isinstance(p["tree"][k], dict):
            q = dict(p, tree={x: v for x, v in p["tree"].items() if x != k})
            if m.fails(q):
                p = q
    vs = [v for v in judge(d["property"], p, execute(p), m.ref) if v["cls"] == d["cls"]]
    return p, (vs[0]["text"] if vs else d["text"]), engine.describe_prog(p), m.tries
