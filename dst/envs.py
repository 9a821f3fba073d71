"""C11: the same call under different clocks, randomness, hash seeds, locales, environments and interpreter settings.

In-process programs change the surroundings between and during calls (fields of world.py / files.py); interpreter-level
settings are covered by separate interpreters ("servers") that answer reference calls.  Everything the toolbox asks its
surroundings goes through probe.py / shim.c, so the answers themselves are injected: a variable the code is seen to read
is set, a file it looks for exists.
program = {"kind": ..., "where": "here" | "server" | "file" | "fileserver", "cfg": {...}, ...}
"""
import base64
import hashlib
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import time
import traceback

from . import ambient, engine, files, gen, pool, probe, scen, seams, values, warm, world, zygote

PROBES = []                   # questions the toolbox asked while it was imported
STRINGS = ("1", "0", "true", "", "debug", "2.5", "9.0", "nl_NL.UTF-8", "/tmp", "strict", "none", "1000")
TEXTS = ("", "{}", '{"g": 1.62, "rho_water": 1.0}', "[DEFAULT]\ng = 1.62\n", "1.62\n", "g: 1.62\n", "\x00\xff")
LOCALES = ("nl_NL.UTF-8", "tr_TR.UTF-8", "nl_NL.ISO-8859-1", "C", "C.utf8")

# interpreter-level settings; "args": interpreter options, "env": environment, None removes
CONFIGS = [
    {"env": {"PYTHONHASHSEED": "1"}},
    {"args": ["-O"], "env": {"PYTHONHASHSEED": "2"}},
    {"env": {"LC_ALL": "nl_NL.ISO-8859-1", "PYTHONUTF8": "0", "DST_SETLOCALE": "1"}},
    {"args": ["-OO"], "env": {"PYTHONHASHSEED": "4242", "TZ": "Asia/Kathmandu"}},
    {"env": {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0", "PYTHONHASHSEED": "77"}},
    {"env": {"LC_ALL": "nl_NL.UTF-8", "DST_SETLOCALE": "1", "PYTHONHASHSEED": "5"}},
    {"args": ["-X", "dev"], "env": {"PYTHONHASHSEED": "6", "PYTHONMALLOC": "debug"}},
    {"env": {"MALLOC_PERTURB_": "85", "PYTHONMALLOC": "malloc", "PYTHONHASHSEED": "3"}},
    {"env": {"LC_ALL": "tr_TR.UTF-8", "DST_SETLOCALE": "1", "HOME": None, "TMPDIR": None, "PYTHONHASHSEED": "8"}},
    {"env": {"DST_IMPORT_CLOCK": "-400000000", "DST_IMPORT_RAND": "99", "PYTHONHASHSEED": "9", "TZ": "America/St_Johns"}},
    {"env": {"DST_IMPORT_CLOCK": "5000000", "DST_IMPORT_RAND": "1234567", "PYTHONHASHSEED": "123"}},
    {"env": {"DST_PROBED": "1", "PYTHONHASHSEED": "10"}},
    {"env": {"DST_PROBED": "2", "CI": "1", "DEBUG": "1", "PYTHONHASHSEED": "11"}},
    {"env": {"PYTHONHASHSEED": "31337", "MALLOC_PERTURB_": "170", "COLUMNS": "20", "NO_COLOR": "1"}},
    {"args": ["-b", "-E"], "env": {}},
    {"env": {"PYTHONHASHSEED": "2147483647", "DST_CWD": "/", "DST_ARGV": "-m x --verbose", "DST_MODS": "mined"}},
]


# libraries that may be loaded in the user's program (test runners, notebooks, debuggers); stand-ins are put in their place
MODULES = ["pytest", "_pytest", "IPython", "ipykernel", "doctest", "pdb", "coverage", "xarray", "dask", "google.colab", "spyder_kernels"]
THREADS = ("MainThread", "ThreadPoolExecutor-0_0", "ThreadPoolExecutor-3_11", "Thread-1", "Thread-7 (worker)", "Dummy-3", "worker",
           "asyncio_0", "Thread-1 (_process)", "IPythonHistorySavingThread", "QThread", "waitress-0", "")
_mined = {}


def mined_modules():
    """Names that toolbox code looks up in sys.modules, if it does so at all."""
    return [k for k in mined(("modules",)) if k.replace(".", "").isidentifier() and k not in sys.modules]


def mined_threads():
    return mined(("current_thread", "currentThread", "main_thread", "current_process"))


def mined(names):
    """String constants of toolbox code that uses one of these names."""
    if names not in _mined:
        out = set()
        for d, _, fs in sorted(os.walk(os.path.join(zygote.REPO, gen.PKG))):
            for f in sorted(fs):
                if f.endswith(".py"):
                    todo = [compile(open(os.path.join(d, f), "rb").read(), f, "exec")]
                    while todo:
                        c = todo.pop()
                        todo += [k for k in c.co_consts if hasattr(k, "co_consts")]
                        if any(n in c.co_names for n in names):
                            ks = [k for x in c.co_consts for k in (x if isinstance(x, (tuple, frozenset)) else (x,))]
                            out |= {k for k in ks if isinstance(k, str) and 0 < len(k) < 40}
        _mined[names] = sorted(out)[:40]
    return _mined[names]


# ------------------------------------------------------------------ other interpreters
class Server:
    def __init__(self, cfg, probes):
        e = dict(os.environ)
        cfg = json.loads(json.dumps(cfg))
        if cfg.get("env", {}).get("DST_MODS"):
            cfg["env"]["DST_MODS"] = ",".join(MODULES + mined_modules())
        e.pop("DST_OUT_FD", None)
        for k, v in cfg.get("env", {}).items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        if e.get("DST_PROBED"):
            n = int(e["DST_PROBED"])
            for i, (kind, key) in enumerate(probes):
                if kind == "env":
                    e[key] = STRINGS[(i + n) % len(STRINGS)]
        if cfg.get("probed"):
            e.update(cfg["probed"])
        args = [sys.executable] + cfg.get("args", [])
        if "-E" in args:
            code = "import sys; sys.path.insert(0, %r); import dst.envs; dst.envs.serve()" % os.environ["PYTHONPATH"]
            args += ["-B", "-s", "-c", code]
        else:
            args += ["-B", "-s", "-m", "dst.envs", "serve"]
        self.p = subprocess.Popen(args, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=os.environ["HOME"])

    def ask(self, msg):
        try:
            self.p.stdin.write(json.dumps(msg).encode() + b"\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = b""
        if not l:
            raise RuntimeError("server interpreter ended, status %r" % self.p.wait())
        return pickle.loads(base64.b64decode(l))

    def close(self):
        self.p.kill()
        self.p.wait()


def serve():
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_RDWR), 0)
    os.dup2(0, 1)
    if os.environ.get("DST_CWD"):
        os.chdir(os.environ["DST_CWD"])
    if os.environ.get("DST_ARGV"):
        sys.argv[1:] = os.environ["DST_ARGV"].split()
    for n in filter(None, os.environ.get("DST_MODS", "").split(",")):
        ambient.stand_in(n)
    if os.environ.get("DST_MODS"):
        sys.ps1 = ">>> "
    if os.environ.get("DST_SETLOCALE"):
        import locale
        try:
            locale.setlocale(locale.LC_ALL, "")
        except locale.Error:
            pass
    zygote.start(clock=float(os.environ.get("DST_IMPORT_CLOCK", "0")), rand=int(os.environ.get("DST_IMPORT_RAND", "0")))
    files.prepare()
    for l in inp:
        m = json.loads(l)
        try:
            if "many" in m:
                try:
                    r = zygote.run(warm.in_order, m["many"], timeout=150)
                except zygote.Died as e:
                    r = None
            elif "op" in m:
                try:
                    r = zygote.run(world.reference, m["op"], "line", timeout=40)
                except zygote.Died as e:
                    r = {"bad": {"how": "died", "detail": str(e)}}
            else:
                r = file_outcome(files.execute(m["file"]))
        except BaseException as e:                                       # noqa
            r = {"harness": repr(e)[-800:]}
        out.write(base64.b64encode(pickle.dumps(r)) + b"\n")
        out.flush()


def file_outcome(h):
    return [{"out": r.get("out"), "sha": r.get("sha"), "warns": r["warns"], "why": r.get("why"), "fn": r["fn"], "t": r["t"], "i": r["i"],
             "op": r["op"]} for r in h["recs"]]


# ------------------------------------------------------------------ surroundings
def environment(rng, probes=()):
    """A random setting of everything that must not matter (warnings stay delivered)."""
    e = {"warn": "always"}
    if rng.random() < .7:
        e["clock"] = [rng.choice((0, 1, 43200, 86400 * rng.randrange(1, 400), -86400 * 365 * 20, 86400 * 365 * 14.2, -1.69e9, 3e7 * rng.random())),
                      rng.choice((0.0, 1e-6, 0.25, 61.0, 86400.0, -5.0))]
    if rng.random() < .7:
        e["rand"] = rng.randrange(1, 2**62)
    if rng.random() < .7:
        e["seed"] = rng.randrange(2**31)
    if rng.random() < .4:
        e["tz"] = rng.choice(("UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati", "XYZ-13:37"))
    if rng.random() < .4:
        e["cwd"] = rng.choice(("/", "/tmp", "/usr/share", "gone"))
    if rng.random() < .5:
        e["locale"] = rng.choice(LOCALES)
    if rng.random() < .5:
        e["environ"] = {k: rng.choice(STRINGS + (None,)) for k in rng.sample(
            ("HOME", "LANG", "TMPDIR", "USER", "DEBUG", "CI", "TERM", "COLUMNS", "OMP_NUM_THREADS", "PATH", "LC_NUMERIC", "PYTHONOPTIMIZE",
             "TESTING", "VERBOSE", "LOGLEVEL"), rng.choice((1, 3, 8)))}
    if rng.random() < .4:
        e["printopts"] = rng.choice(({"precision": 2}, {"suppress": True, "precision": 1}, {"threshold": 2, "edgeitems": 1},
                                     {"linewidth": 30}, {"floatmode": "fixed", "precision": 3}, {"sign": "+"}, {"legacy": "1.13", "precision": 3}))
    if rng.random() < .4:
        e["pd_precision"] = rng.choice((1, 3, 12))
    if rng.random() < .3:
        e["pd_fmt"] = rng.choice(("{:.1f}", "{:,.2f}", "<{:.0e}>"))
    if rng.random() < .3:
        e["pd_more"] = rng.choice(({"display.max_rows": 2}, {"display.max_columns": 1}, {"display.width": 20}, {"mode.copy_on_write": True},
                                   {"display.html.border": 3}, {"display.chop_threshold": 0.5}, {"display.date_dayfirst": True},
                                   {"mode.string_storage": "python"}, {"compute.use_numexpr": False}, {"compute.use_bottleneck": False}))
    if rng.random() < .4:
        e["misc"] = {"pid": rng.randrange(2, 2**22), "ppid": rng.choice((1, 7, 12345)), "cpus": rng.choice((1, 2, 96)),
                     "host": rng.choice(("a", "node-17", "DESKTOP-X")), "uid": rng.choice((0, 501)), "tty": rng.random() < .5}
    if rng.random() < .3:
        e["argv"] = rng.choice((["-c"], ["prog", "--debug", "-v"], [""], ["pytest"]))
    if rng.random() < .3:
        e["depth"] = rng.choice((3, 40, 150, 420, 560))
    if rng.random() < .3:
        e["mods"] = rng.sample(MODULES, rng.choice((1, 4))) + mined_modules()
    if rng.random() < .2:
        e["ps1"] = 1
    if rng.random() < .5:
        e["tname"] = rng.choice(list(THREADS) + mined_threads())
    if rng.random() < .3:
        e["decimal"] = rng.choice((3, 50))
    if rng.random() < .2:
        e["bufsize"] = rng.choice((64, 16384))
    if rng.random() < .3:
        e["gc"] = rng.random() < .5
    if rng.random() < .2:
        e["switchint"] = 1e-5
    if rng.random() < .4:
        e["junk"] = rng.randrange(1, 4000)
    if rng.random() < .3:
        e["streams"] = rng.choice(("none", "closed", "ascii"))
    if rng.random() < .2:
        e["loglevel"] = rng.choice((10, 50))
    ks = [k for kind, k in probes if kind == "env"]
    if ks:
        e.setdefault("environ", {}).update({k: rng.choice(STRINGS) for k in ks if rng.random() < .9})
    ps = [k for kind, k in probes if kind == "path"]
    if ps:
        e["files"] = {k: rng.choice(TEXTS) for k in ps if rng.random() < .9}
    return e


# ------------------------------------------------------------------ oracle
class ERef(engine.Ref):
    """The in-process oracle; also remembers what the toolbox asked its surroundings during each function's calls."""

    def __init__(self):
        super().__init__()
        self.asked = {}

    def __call__(self, op, gran="line"):
        r = super().__call__(op, gran)
        a = self.asked.setdefault(op["fn"], [])
        for k in r.get("asked", ()):
            if k not in a:
                a.append(k)
        return r


# ------------------------------------------------------------------ programs
KIND = ("here", "mid", "server", "here", "file", "server", "mid", "fileserver", "here", "server", "thread", "server")


def cfg_of(idx):
    """Slowly changing per worker, because a new interpreter takes seconds; all settings met within 400 programs."""
    return idx % 8 * 2 + idx // 192


def make(prop, idx, seed, api, ref):
    rng = random.Random("C11/%d/%d" % (seed, idx))
    # functions and kinds in step with different periods, so that every function meets every kind
    kind = KIND[(idx // 8 + idx) % len(KIND)]
    if kind in ("file", "fileserver"):
        return file_prog(idx, seed, api, rng, kind)
    key = api.pure[(idx * 5 + idx // len(api.pure)) % len(api.pure)]
    a = scen.pick_op(rng, api, ref.ref, key)
    if kind == "server":
        ops = [a]
        for _ in range(5):
            u = rng.random()
            b = gen.make_op(rng, api, key) if u < .5 else gen.twin(rng, api, a) if u < .8 else gen.make_op(rng, api, rng.choice(api.pure))
            if scen.good(ref.ref, b):
                ops.append(b)
        return {"kind": kind, "where": "server", "cfg": cfg_of(idx), "ops": [engine.canon_op(o) for o in ops]}
    pr = PROBES + ref.ref.asked.get(key, [])
    b = gen.make_op(rng, api, key)
    if not scen.good(ref.ref, b):
        b = a
    steps, fl = [], []
    if kind == "mid":
        n = ref.ref(a)["steps"]
        for k in scen.points(rng, n, 10):
            e = environment(rng, pr)
            if rng.random() < .5:
                fl.append({"t": 0, "i": len(steps), "ev": k, "kind": "clock", "jump": rng.choice((-1e6, 3600.0, 1e8, -1.6e9, .5)), "step": rng.choice((0., 10.))})
            else:
                fl.append({"t": 0, "i": len(steps), "ev": k, "kind": "env", "env": dict(e, warn=None)})
            steps.append({"call": a})
    else:
        for _ in range(rng.choice((3, 6))):
            steps.append({"env": environment(rng, pr)})
            steps += [{"call": a}, {"call": b}] if rng.random() < .5 else [{"call": a}]
    p = {"kind": kind, "where": "here", "tasks": [steps] if kind != "thread" else [[], steps], "faults": fl, "gran": "line",
         "env": environment(rng, pr), "switches": [], "sched": {"mode": "explicit"}}
    p["limit"] = 20 * (ref.ref(a)["steps"] + ref.ref(b)["steps"]) + 20000
    return p


def file_prog(idx, seed, api, rng, kind):
    mk = files.Maker("C11", idx, seed, api, None)
    ops = []
    for _ in range(4):
        op = mk.op(n=rng.choice((1, 2, 3, 10, 200)))
        if rng.random() < .4:
            op["kw"]["file_name"] = rng.choice(("résumé", "Küste-2024", "岸壁", "İstanbul", "I", "ı"))
        ops.append(op)
    if kind == "fileserver":
        cfg = cfg_of(idx)
        lc = CONFIGS[cfg % len(CONFIGS)]["env"].get("LC_ALL", "UTF-8")
        for o in ops:
            try:                               # names the operating system interface of that interpreter can express
                o["kw"].get("file_name", "x").encode("ascii" if lc == "C" else "latin-1" if "8859" in lc else "utf-8")
            except UnicodeEncodeError:
                o["kw"]["file_name"] = "Küste" if lc != "C" else "plain"
        p = mk.prog([[{"call": o} for o in ops]], gran="none")
        return dict(p, kind=kind, where="fileserver", cfg=cfg)
    steps, fl = [], []
    for o in ops:
        e = environment(rng, PROBES)
        e.pop("cwd", None)
        if "legacy" in e.get("printopts", ()):
            e.pop("printopts")                 # known finding C11 (known_findings.txt), replayed by every check
        if rng.random() < .3:
            fl.append({"t": 0, "i": len(steps) + 1, "ev": rng.randrange(1, 60), "kind": "env", "env": dict(e, warn=None)})
            e = {"warn": "always"}
        steps += [{"env": e}, {"call": o}]
    p = mk.prog([steps], faults=fl, gran="line")
    return dict(p, kind=kind, where="file")


class Both:
    """Oracles and interpreters of one worker."""

    def __init__(self):
        self.ref = ERef()
        self.fref = files.FRef()
        self.servers = {}

    @property
    def calls(self):
        return self.ref.calls + self.fref.calls

    def server(self, n):
        n %= len(CONFIGS)
        if n not in self.servers:
            if len(self.servers) >= 3:
                k = next(iter(self.servers))
                self.servers.pop(k).close()
            self.servers[n] = Server(CONFIGS[n], PROBES)
        return self.servers[n]

    def close(self):
        for s in self.servers.values():
            s.close()
        self.servers = {}


B = None


def setup(api, seed=1):
    global B
    files.prepare()
    PROBES[:] = [k for k in probe.SEEN]
    probe.SEEN.clear()
    B = Both()
    return B


def run_here(prog):
    return world.Sim(prog).run()


def execute(prog, timeout=90):
    w = prog["where"]
    empty = {"recs": [], "notes": [], "end": {"how": "done"}, "fired": {}, "decisions": [], "events": 0, "points": [], "time": 0, "leaves": []}
    if w == "here":
        return engine.execute(prog, timeout)
    if w == "file":
        return files.execute(prog, timeout)
    s = B.server(prog["cfg"])
    if w == "server":
        recs = []
        for i, o in enumerate(prog["ops"]):
            r = s.ask({"op": o})
            if "harness" in r:
                raise RuntimeError("harness: " + r["harness"])
            recs.append({"t": 0, "i": i, "fn": o["fn"], "how": "call", "op": o, "res": r, "warns": r.get("warns", []),
                         **({"out": r["out"]} if "out" in r else {})})
        return dict(empty, recs=recs, fired={"interpreter setting": 1}, events=sum(r["res"].get("steps", 0) for r in recs))
    r = s.ask({"file": {k: v for k, v in prog.items() if k not in ("kind", "where", "cfg")}})
    if isinstance(r, dict):
        raise RuntimeError("harness: %r" % r)
    return dict(empty, recs=[dict(x, how="call", wmode="always", np=False) for x in r], fired={"interpreter setting (files)": 1})


def explicit(prog, h):
    return engine.explicit(prog, h) if prog["where"] == "here" else prog


def plain_text(t):
    """A message without the arrays shown in it: how they are printed is the caller's setting."""
    if "dtype:" in t:
        return t[:20]
    i, j = t.find("["), t.rfind("]")
    return t[:i] + t[j:] if 0 <= i < j else t


def plain_warns(w):
    return [(c, plain_text(t)) for c, t in w]


def V(cls, text):
    return {"cls": cls, "text": text}


def judge(prog, h, both):
    out = []
    for n in h["notes"]:
        if n["k"] == "harness":
            raise RuntimeError("harness: " + n["err"])
    e = h["end"] or {}
    if e.get("how") == "harness":
        raise RuntimeError("harness: %r" % (e,))
    if e.get("how") in ("deadlock", "livelock", "hang"):
        out.append(V(e["how"], "%s: %s" % (e["how"], str(e.get("detail"))[:200])))
    w = prog["where"]
    where = "with " + json.dumps(CONFIGS[prog["cfg"] % len(CONFIGS)]) if "cfg" in prog else "in other surroundings"
    for r in h["recs"]:
        if w == "server":
            q = both.ref(r["op"])
            if "bad" in q or "bad" in r["res"]:
                if ("bad" in q) != ("bad" in r["res"]):
                    out.append(V("value", "%s %s: %r instead of %r" % (r["fn"], where, r["res"].get("bad", "ends"), q.get("bad", "ends"))))
                continue
        elif w == "here":
            if "out" not in r:
                continue
            q = both.ref(r["op"])
            if "bad" in q:
                continue
        else:
            if not r.get("out"):
                continue
            dirs = {k: v for k, v in prog["tree"].items() if isinstance(v, dict)}
            q = both.fref(files.materialised_dir(r["op"], prog), prog["dirs"], dirs, prog["cwd"])
            if not q["out"]:
                continue
            if q["out"][0] == r["out"][0] == "ok" and q["sha"] != r["sha"]:
                out.append(V("file", "%s %s: the written file differs (%s)" % (r["fn"], where, r.get("why") or "other bytes")))
            q = dict(q, warns=None)
        o, g = r["out"], q["out"]
        if o[0] != g[0]:
            why = "%s instead of %s" % (scen.shown(o), scen.shown(g))
        elif o[0] == "ok":
            why = values.same(o[1], g[1])
        else:
            why = None if o[1] == g[1] and plain_text(o[2]) == plain_text(g[2]) or w in ("file", "fileserver") and o[1] == g[1] else "%s instead of %s" % (scen.shown(o), scen.shown(g))
        if why:
            out.append(V("value", "%s (step %d) %s: %s" % (r["fn"], r["i"], where, why)))
        elif q["warns"] is not None and plain_warns(r["warns"]) != plain_warns(q["warns"]):
            d = [(x, y) for x, y in zip(plain_warns(r["warns"]) + [None] * 9, plain_warns(q["warns"]) + [None] * 9) if x != y][:1]
            out.append(V("warn", "%s (step %d) %s: warnings differ: %r" % (r["fn"], r["i"], where, d)))
    return out


# ------------------------------------------------------------------ many calls at once
def many_here(ops, env):
    """Runs in a fork: every call under the given settings; None when the run does not end."""
    p = {"tasks": [[{"call": o} for o in ops]], "gran": "line", "env": env, "limit": 7000 * len(ops) + 100000}
    h = world.Sim(p).run()
    if (h["end"] or {}).get("how") != "done" or len(h["recs"]) != len(ops):
        return None
    return [(r["out"][:3] if r["out"][0] == "exc" else r["out"], [tuple(w) for w in r["warns"]]) for r in h["recs"]], list(probe.SEEN)


def sweep(seed, start, stride, api, both, st, extra, emit, deadline, envs):
    """Broad and cheap: pools of calls of all functions in one process per setting; what differs is then run as a program."""
    def note(k, n=1):
        extra[k] = extra.get(k, 0) + n

    def confirm(prog):
        try:
            h = execute(prog)
        except RuntimeError:
            return False
        vs = judge(prog, h, both)
        if vs:
            emit(violation={"idx": 0, "cls": vs[0]["cls"], "text": vs[0]["text"], "n": len(vs), "prog": explicit(prog, h)})
            return True
        note("suspicions not confirmed")
        return False

    cfgs = [c for c in range(len(CONFIGS)) if c % stride == start % stride]
    step = 24
    rng = random.Random("C11/many/%d/%d" % (seed, start))
    for c in range(0, len(api.pure), step):
        if time.monotonic() > deadline:
            break
        ops = []
        r2 = random.Random("C11/ops/%d/%d" % (seed, c))
        for key in api.pure[c:c + step]:
            p = pool.get(api, key)
            got = [p["ops"][r2.choice(k)] for k in p["classes"]]
            r2.shuffle(got)
            w = [p["ops"][i] for i in p["warned"]]
            got = got[:12] + r2.sample(w, min(len(w), 8)) + [gen.make_op(r2, api, key) for _ in range(4)]
            got += several(r2, api, key)
            ops += [engine.canon_op(o) for o in got]
        try:
            first = zygote.run(warm.in_order, ops, timeout=150)
            ops = [o for o, x in zip(ops, first) if x[0] is not None]
            base = zygote.run(many_here, ops, {"warn": "always"}, timeout=150)
        except zygote.Died:
            base = None
        if base is None:
            note("sweeps that did not end")
            continue
        base, asked = base
        for cfg in cfgs:
            got = both.server(cfg).ask({"many": ops})
            if not isinstance(got, list):
                note("sweeps that did not end")
                continue
            note("calls compared between interpreters", len(got))
            bad = [o for o, x, y in zip(ops, base, got) if differ(x, y)]
            for o in bad[:3]:
                if confirm({"kind": "server", "where": "server", "cfg": cfg, "ops": [o]}):
                    return True
        for _ in range(envs):
            e = environment(rng, PROBES + [k for k in asked if k not in PROBES])
            try:
                got = zygote.run(many_here, ops, e, timeout=150)
            except zygote.Died:
                got = None
            if got is None:
                note("sweeps that did not end")
                continue
            note("calls compared between settings", len(ops))
            st.inter.add(hash(json.dumps([e, c], sort_keys=True)))
            bad = [o for o, x, y in zip(ops, base, got[0]) if differ(x, y)]
            for o in bad[:2]:
                if confirm({"kind": "here", "where": "here", "tasks": [[{"env": e}, {"call": o}]], "faults": [], "gran": "line",
                            "env": {"warn": "always"}, "switches": [], "sched": {"mode": "explicit"}, "limit": 500000}):
                    return True
    return False


def differ(x, y):
    if y[0] is None or x[0] is None:
        return False
    if x[0][0] == y[0][0] == "exc":
        return x[0][1] != y[0][1] or plain_text(x[0][2]) != plain_text(y[0][2]) or plain_warns(x[1]) != plain_warns(y[1])
    return warm.unlike("C11", x, y) or plain_warns(x[1]) != plain_warns(y[1])


def several(rng, api, key):
    """Calls with every parameter given, and with several parameters far out of range at once."""
    out = []
    for _ in range(3):
        kw = {}
        for name, d in api.params[key]:
            if name in gen.WRITERS:
                continue
            if name in gen.BOOL or (d is not None and isinstance(d["d"], bool)):
                kw[name] = rng.random() < .5
            elif name in gen.STR:
                kw[name] = rng.choice(gen.STR[name])
            else:
                v = gen.scalar(rng, name, d, 0.0)
                if isinstance(v, float) and rng.random() < .6:
                    v *= rng.choice((1.0, 30.0, 1e3, 0.01, -1.0))
                kw[name] = v
        out.append({"fn": key, "kw": kw, "st": "scalar"})
    return out


# ------------------------------------------------------------------ worker, replay, minimise
def worker(prop, seed, start, stride, count, deadline, api, emit):
    both = setup(api)
    st = engine.Stats()
    trouble = []
    extra = {"questions asked at import": len(PROBES) if start == 0 else 0, "environment settings": 0, "files compared": 0}
    cfgs = set()
    try:
        if sweep(seed, start, stride, api, both, st, extra, emit, time.monotonic() + (deadline - time.monotonic()) * .5,
                 int(os.environ.get("DST_WARM", "0")) // 15):
            count = 0
        for idx in range(start, count, stride):
            if time.monotonic() > deadline:
                emit(timeout=idx)
                break
            try:
                prog = make(prop, idx, seed, api, both)
            except scen.Skip:
                st.skipped += 1
                continue
            try:
                h = execute(prog)
                vs = judge(prog, h, both)
            except Exception as e:                                        # noqa: one program the harness cannot run
                trouble.append("program %d: %s" % (idx, "".join(traceback.format_exception(e))[-1500:]))
                if len(trouble) > 2 + (idx - start) / stride * .05:
                    raise
                continue
            st.add({"tasks": [[]], **prog}, h)
            for s in sum(prog.get("tasks", []), []):
                if "env" in s:
                    extra["environment settings"] += 1
                    st.inter.add(hash(json.dumps([s["env"], h["recs"][0]["fn"] if h["recs"] else 0], sort_keys=True)))
            if "cfg" in prog:
                cfgs.add(prog["cfg"] % len(CONFIGS))
                for r in h["recs"]:
                    st.inter.add(hash((prog["cfg"] % len(CONFIGS), json.dumps(r["op"], sort_keys=True, default=str))))
            extra["files compared"] += sum(1 for r in h["recs"] if r.get("sha"))
            if vs:
                emit(violation={"idx": idx, "cls": vs[0]["cls"], "text": vs[0]["text"], "n": len(vs), "prog": explicit(prog, h)})
                break
    finally:
        both.close()
    extra["interpreter settings (per worker)"] = len(cfgs)
    asked = sum(len(v) for v in both.ref.asked.values())
    extra["questions asked during calls"] = asked
    st.refs = both.calls
    d = st.dump()
    d["extra"], d["trouble"] = extra, trouble
    emit(stats=d)


def trace(p):
    if "cfg" in p:
        return ["interpreter: " + json.dumps(CONFIGS[p["cfg"] % len(CONFIGS)])] + [
            "call %s(%s)" % (o["fn"], json.dumps(o["kw"])[:200]) for o in p.get("ops", [s["call"] for t in p.get("tasks", ()) for s in t if "call" in s])]
    return ["env at start: " + json.dumps(p.get("env"))[:300]] + engine.describe_prog(p)


def replay(d, api):
    both = setup(api)
    try:
        p = d["prog"]
        if p["where"] in ("here",):
            for t in p["tasks"]:
                for s in t:
                    if "call" in s:
                        both.ref(s["call"])
        return judge(p, execute(p, 120), both), trace(p)
    finally:
        both.close()


class Min(engine.Minimiser):
    def fails(self, p):
        if time.monotonic() > self.end:
            return False
        self.tries += 1
        try:
            return any(v["cls"] == self.cls for v in judge(p, execute(p, timeout=30), self.ref))
        except Exception:                                                # noqa
            return False


def minimise(d, api):
    both = setup(api)
    try:
        m = Min("C11", d["cls"], both, 75)
        p = d["prog"]
        if "ops" in p:
            keep = m.ddmin(p["ops"], lambda ks, p=p: dict(p, ops=ks))
            p = dict(p, ops=keep)
        else:
            p = m.run(p)
            for t in range(len(p["tasks"])):
                for i, s in enumerate(p["tasks"][t]):
                    for k in sorted(s.get("env", {})):
                        q = json.loads(json.dumps(p))
                        if k != "warn" and q["tasks"][t][i]["env"].pop(k, None) is not None and m.fails(q):
                            p = q
            for i, f in enumerate(p.get("faults", ())):
                for k in sorted(f.get("env", {})):
                    q = json.loads(json.dumps(p))
                    if q["faults"][i]["env"].pop(k, None) is not None and m.fails(q):
                        p = q
        vs = [v for v in judge(p, execute(p), both) if v["cls"] == d["cls"]]
        return p, (vs[0]["text"] if vs else d["text"]), trace(p), m.tries
    finally:
        both.close()


if __name__ == "__main__" and sys.argv[1:2] == ["serve"]:
    import dst.envs
    dst.envs.serve()
