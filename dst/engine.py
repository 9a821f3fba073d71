"""One worker: pristine zygote, memoised reference oracle, seed loop, minimiser and replay for in-process programs."""
import copy
import hashlib
import json
import time

from . import scen, values, world, zygote


def canon_op(op):
    return {"fn": op["fn"], "kw": {k: values.canonical(v) for k, v in op["kw"].items()},
            **({"alias": op["alias"]} if op.get("alias") else {})}


class Ref:
    """ref(op, gran) -> outcome, warnings and step count of the call made first and alone in a pristine process."""

    def __init__(self, limit=4000):
        self.memo = {}
        self.calls = 0
        self.limit = limit

    def __call__(self, op, gran="line"):
        c = canon_op(op)
        k = gran + json.dumps(c, sort_keys=True)
        r = self.memo.get(k)
        if r is None:
            self.calls += 1
            try:
                r = zygote.run(world.reference, c, gran, timeout=40)
            except zygote.Died as e:
                r = {"bad": {"how": "died", "detail": str(e)}}
            if len(self.memo) > self.limit:
                self.memo.clear()
            self.memo[k] = r
        return r


def execute(prog, timeout=90):
    h = execute_once(prog, timeout)
    if out_of_events(h) and prog.get("gran", "line") != "line":
        # the budget was estimated from the number of lines; before calling it a livelock, count what the calls need alone
        p = dict(prog)
        try:
            scen.budget(lambda op: zygote.run(world.reference, canon_op(op), prog["gran"], "always", 30000000, timeout=60), p, exact=True)
        except (zygote.Died, scen.Skip):
            return h
        if p["limit"] > prog.get("limit", 2000000):
            h = execute_once(p, timeout)
    return h


def out_of_events(h):
    e = h["end"] or {}
    return e.get("how") == "livelock" and isinstance(e.get("detail"), dict)


def execute_once(prog, timeout=90):
    try:
        return zygote.run(world.run_program, prog, timeout=timeout)
    except zygote.Died as e:
        if e.status is None:
            return {"recs": [], "notes": [], "end": {"how": "hang", "detail": "no progress in %ds" % timeout}, "fired": {},
                    "decisions": [], "events": 0, "points": [], "time": 0}
        return {"recs": [], "notes": [], "end": {"how": "hang", "detail": "process died, status %r" % e.status}, "fired": {},
                "decisions": [], "events": 0, "points": [], "time": 0}


def explicit(prog, h):
    """The same run with every scheduling decision written down."""
    p = copy.deepcopy(prog)
    if p.get("sched", {}).get("mode", "explicit") == "explicit":
        return p
    p["sched"] = {"mode": "explicit"}
    ds = h["decisions"]
    if ds and ds[0][1] == -1:
        p["first"] = ds[0][3]
        ds = ds[1:]
    p["switches"] = ds
    p["leaves"] = h.get("leaves", [])
    return p


def log_digest(h):
    """Digest of the complete event log of a run (used to prove determinism)."""
    x = [(r["t"], r["i"], r["fn"], r["how"], r.get("steps"), repr(r.get("out")), r["warns"], r.get("seq0"), r.get("seq1"))
         for r in h["recs"]]
    return hashlib.sha256(repr((x, h["decisions"], h["events"], h["notes"], h["end"], sorted(h["fired"].items()))).encode()
                          ).hexdigest()


# ------------------------------------------------------------------ minimisation
def drop_steps(prog, t, keep):
    """prog with only the steps `keep` (indices) of task t; switches and faults are renumbered."""
    p = copy.deepcopy(prog)
    ren = {old: new for new, old in enumerate(keep)}
    p["tasks"][t] = [prog["tasks"][t][i] for i in keep]
    p["switches"] = [[a, ren[b], c, d] if a == t else [a, b, c, d] for a, b, c, d in prog.get("switches", ())
                     if a != t or b in ren]
    if prog.get("ioswitches"):
        p["ioswitches"] = [[a, ren[b], c, d] if a == t else [a, b, c, d] for a, b, c, d in prog["ioswitches"]
                           if a != t or b in ren]
    p["faults"] = [dict(f, i=ren[f["i"]]) if f["t"] == t else f for f in prog.get("faults", ()) if f["t"] != t or f["i"] in ren]
    return p


def drop_task(prog, t):
    p = copy.deepcopy(prog)
    p["tasks"][t] = []
    p["switches"] = [s for s in p.get("switches", ()) if s[0] != t and s[3] != t]
    if p.get("ioswitches"):
        p["ioswitches"] = [s for s in p["ioswitches"] if s[0] != t and s[3] != t]
    p["faults"] = [f for f in p.get("faults", ()) if f["t"] != t]
    return p


class Minimiser:
    def __init__(self, prop, cls, ref, budget_s=60):
        self.prop, self.cls, self.ref = prop, cls, ref
        self.end = time.monotonic() + budget_s
        self.tries = 0

    def fails(self, p):
        if time.monotonic() > self.end:
            return False
        self.tries += 1
        try:
            h = execute(p, timeout=30)
            return any(v["cls"] == self.cls for v in scen.judge(self.prop, p, h, self.ref))
        except Exception:                                                # noqa: a candidate that cannot run is no candidate
            return False

    def ddmin(self, items, rebuild):
        n = 2
        while len(items) >= 1 and time.monotonic() < self.end:
            size = max(1, len(items) // n)
            for s in range(0, len(items), size):
                rest = items[:s] + items[s + size:]
                if self.fails(rebuild(rest)):
                    items = rest
                    n = max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def run(self, p):
        for t in range(len(p["tasks"]) - 1, -1, -1):
            if len(p["tasks"]) > 1 and p["tasks"][t]:
                q = drop_task(p, t)
                if self.fails(q):
                    p = q
        for name in ("faults", "switches", "ioswitches"):
            if p.get(name):
                keep = self.ddmin(list(range(len(p[name]))), lambda ks, p=p: dict(p, **{name: [p[name][k] for k in ks]}))
                p = dict(p, **{name: [p[name][k] for k in keep]})
        for t in range(len(p["tasks"])):
            base = p
            keep = self.ddmin(list(range(len(p["tasks"][t]))), lambda ks, b=base, t=t: drop_steps(b, t, ks))
            p = drop_steps(base, t, keep)
        for name in ("faults", "switches", "ioswitches"):
            if p.get(name):
                keep = self.ddmin(list(range(len(p[name]))), lambda ks, p=p: dict(p, **{name: [p[name][k] for k in ks]}))
                p = dict(p, **{name: [p[name][k] for k in keep]})
        # simpler surroundings and plainer arguments
        for e in sorted(p.get("env", {})):
            if e != "warn":
                q = dict(p, env={k: v for k, v in p["env"].items() if k != e})
                if self.fails(q):
                    p = q
        for t in range(len(p["tasks"])):
            for i, s in enumerate(p["tasks"][t]):
                if "call" not in s:
                    continue
                for k in sorted(s["call"]["kw"]):
                    q = copy.deepcopy(p)
                    v = q["tasks"][t][i]["call"]["kw"]
                    if isinstance(v[k], dict) and v[k].get("lay", "C") != "C":
                        v[k] = dict(v[k], lay="C")
                        if self.fails(q):
                            p = q
        return p


def describe_prog(p):
    """A short human-readable schedule and fault trace."""
    out = []
    for t, steps in enumerate(p["tasks"]):
        for i, s in enumerate(steps):
            if "call" in s:
                out.append("task %d step %d: call %s(%s)" % (t, i, s["call"]["fn"], ", ".join(
                    "%s=%s" % (k, json.dumps(v)[:60]) for k, v in sorted(s["call"]["kw"].items()))))
            else:
                out.append("task %d step %d: %s" % (t, i, json.dumps(s)[:120]))
    for t, i, ev, to in p.get("switches", ()):
        out.append("at event %d of task %d step %d: run task %d" % (ev, t, i, to))
    for t, i, n, to in p.get("ioswitches", ()):
        out.append("at file operation %d of task %d step %d: run task %d" % (n, t, i, to))
    for f in p.get("faults", ()):
        out.append("at %s of task %d step %d: %s" % (
            "event %s" % f["ev"] if "ev" in f else "file operation %s" % f["io"] if "io" in f else "byte %s" % f["quota"]
            if "quota" in f else "warning %s" % f.get("warn"), f["t"], f["i"],
            f["kind"] + (" " + json.dumps(f.get("op") or f.get("ops"))[:160] if f.get("op") or f.get("ops") else "")))
    return out


# ------------------------------------------------------------------ seed loop
class Stats:
    def __init__(self):
        self.runs = self.calls = self.events = self.switches = self.skipped = 0
        self.simtime = 0.0
        self.fired = {}
        self.kinds = {}
        self.inter = set()          # distinct interleavings / fault placements
        self.fns = set()
        self.samples = []
        self.refs = 0
        self.judged = 0
        self.warm = {}

    def add(self, prog, h):
        self.runs += 1
        self.calls += len(h["recs"])
        self.events += h["events"]
        self.switches += len(h["decisions"])
        self.simtime += h["time"]
        k = prog.get("kind", "?")
        self.kinds[k] = self.kinds.get(k, 0) + 1
        for f, n in h["fired"].items():
            self.fired[f] = self.fired.get(f, 0) + n
        for r in h["recs"]:
            self.fns.add(r["fn"])
        sig = []
        for t, fn, ev, to in h["points"]:
            sig.append((fn, ev, to))
        for f in prog.get("faults", ()):
            steps = prog["tasks"][f["t"]]
            if f["i"] < len(steps) and "call" in steps[f["i"]]:
                self.inter.add(hash((steps[f["i"]]["call"]["fn"], f.get("ev"), f.get("warn"), f.get("io"), f.get("quota"), f["kind"])))
        for a in sig:
            self.inter.add(hash(a))
        if sig or prog.get("faults"):
            self.inter.add(hash((tuple(sig), len(prog.get("faults", ())), tuple(sorted({r["fn"] for r in h["recs"]})))))
        else:
            self.inter.add(hash(tuple((r["fn"], json.dumps(r["op"]["kw"], sort_keys=True)[:200]) for r in h["recs"])))
        self.judged += sum(1 for r in h["recs"] if "out" in r)
        if len(self.samples) < 3 and h["recs"]:
            self.samples.append({"kind": k, "calls": len(h["recs"]), "switches": h["decisions"][:6],
                                 "faults": [{x: f[x] for x in f if x not in ("op", "ops")} for f in prog.get("faults", ())][:4],
                                 "first_call": {"fn": h["recs"][0]["fn"], "kw": h["recs"][0]["op"]["kw"]},
                                 "outcome": scen.shown(h["recs"][0]["out"]) if "out" in h["recs"][0] else None})

    def dump(self):
        return {"runs": self.runs, "calls": self.calls, "events": self.events, "switches": self.switches,
                "skipped": self.skipped, "simtime": self.simtime, "fired": self.fired, "kinds": self.kinds,
                "inter": list(self.inter), "fns": sorted(self.fns), "samples": self.samples, "refs": self.refs,
                "judged": self.judged, "extra": {"warm: " + k: v for k, v in self.warm.items() if k != "unconfirmed"}, "unconfirmed": self.warm.get("unconfirmed", [])}

    def merge(self, d):
        """Adds the dump of another Stats."""
        for k in ("runs", "calls", "events", "switches", "skipped", "simtime", "judged"):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ("fired", "kinds"):
            for x, n in d[k].items():
                getattr(self, k)[x] = getattr(self, k).get(x, 0) + n
        self.inter.update(d["inter"])
        self.fns.update(d["fns"])


def one(prop, idx, seed, api, ref):
    """Generate, run and judge one seed: yields (program, history, violations)."""
    top = scen.make(prop, idx, seed, api, ref)
    for prog in top.get("subs", [top]):
        h = execute(prog)
        if (h["end"] or {}).get("how") == "hang":
            h2 = execute(prog, timeout=150)              # only believed when it hangs again with more time
            if (h2["end"] or {}).get("how") != "hang":
                h = h2
        yield prog, h, scen.judge(prop, prog, h, ref)
