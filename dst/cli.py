"""Command line: check PROP | replay FILE | determinism.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: harness error."""
import argparse
import glob
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
EVID = os.environ.get("DST_EVIDENCE") or os.path.join(HERE, "evidence")

# programs per tier (upper bounds; each function of the toolbox is the primary one in turn)
COUNT = {"quick": {"C01": 1600, "C02": 900, "C03": 1600, "C04": 800, "C05": 1400, "C06": 1300, "C10": 1700,
                   "C07": 900, "C08": 900, "C09": 1500, "C11": 600},
         "thorough": {}}
WARM = {"quick": 60, "thorough": 1200}           # programs per function run in warm batches
WRITERS = {"quick": 160, "thorough": 4000}       # programs with the file writers as the calls, in C01-C06 and C10
LIMIT = {"quick": 420, "thorough": 3000}


def build_shim(tmp):
    so = os.path.join(tmp, "shim.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "dst", "shim.c"), "-ldl"], check=True)
    d = os.path.join(tmp, "mpl")                   # a font cache of its own for matplotlib, which the wave toolbox imports
    os.makedirs(d)
    old = glob.glob(os.path.expanduser("~/.cache/matplotlib/fontlist*.json"))
    for x in old:
        shutil.copy(x, d)
    if not old:
        subprocess.run([PY, "-c", "import matplotlib.font_manager"], env=dict(os.environ, MPLCONFIGDIR=d), timeout=300,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return so


LOCALES = (("nl_NL", "UTF-8"), ("nl_NL", "ISO-8859-1"), ("tr_TR", "UTF-8"))


def build_locales(tmp):
    """Locales with a decimal comma, another character set and other case rules, for C11."""
    d = os.path.join(tmp, "locales")
    os.makedirs(d)
    ps = []
    for l, c in LOCALES:
        try:
            ps.append(subprocess.Popen(["localedef", "-i", l, "-f", c, os.path.join(d, l + "." + c)], stdout=subprocess.DEVNULL,
                                       stderr=subprocess.DEVNULL))
        except OSError:
            return
    for p in ps:
        p.wait()
    for x in ("C.utf8",):
        if os.path.isdir("/usr/lib/locale/" + x):
            os.symlink("/usr/lib/locale/" + x, os.path.join(d, x))


def child_env(so, hashseed="0", extra=None):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "DST_REPO", "VERIF_SEED", "VERIF_TIER", "TMPDIR")}
    e.update({"PYTHONHASHSEED": hashseed, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "OPENBLAS_NUM_THREADS": "1",
              "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg", "DST_SHIM": so, "LD_PRELOAD": so,
              "PYTHONPATH": HERE})
    e["TMPDIR"] = os.path.dirname(so)              # what the code under test leaves behind goes with the check's scratch directory
    e["HOME"] = os.path.join(e["TMPDIR"], "home")
    os.makedirs(e["HOME"], exist_ok=True)
    e["MPLCONFIGDIR"] = os.path.join(e["TMPDIR"], "mpl")
    e.update(extra or {})
    d = os.path.join(os.path.dirname(so), "locales")
    if os.path.isdir(d):
        e["LOCPATH"] = d
    return e


def no_aslr():
    """Address space layout is a source of nondeterminism (id-based behaviour): switch it off for the children."""
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:                                                     # noqa
        pass


class Pool:
    def __init__(self, so, jobs, env=None):
        self.procs = []
        self.sel = selectors.DefaultSelector()
        for argv, extra in jobs:
            r, w = os.pipe()
            e = child_env(so, **({"hashseed": extra.pop("hashseed")} if extra and "hashseed" in extra else {}))
            e.update(extra or {})
            e["DST_OUT_FD"] = str(w)
            p = subprocess.Popen([PY, "-m", "dst.worker"] + [str(a) for a in argv], env=e, cwd=e["HOME"], pass_fds=(w,),
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=no_aslr)
            os.close(w)
            self.procs.append(p)
            self.sel.register(r, selectors.EVENT_READ, [p, b"", False])

    def messages(self, deadline):
        while self.sel.get_map():
            left = deadline - time.monotonic()
            if left <= 0:
                yield {"error": "workers did not end in time"}
                break
            for key, _ in self.sel.select(min(left, 5)):
                b = os.read(key.fd, 1 << 20)
                d = key.data
                if not b:
                    self.sel.unregister(key.fd)
                    os.close(key.fd)
                    d[0].wait()
                    if not d[2]:
                        yield {"error": "worker ended early, status %r" % d[0].returncode}
                    continue
                d[1] += b
                *lines, d[1] = d[1].split(b"\n")
                for l in lines:
                    m = json.loads(l)
                    if "done" in m or "error" in m:
                        d[2] = True
                    yield m

    def kill(self):
        for p in self.procs:
            if p.poll() is None:
                p.kill()
            p.wait()


def merge(stats):
    tot = {"runs": 0, "calls": 0, "events": 0, "switches": 0, "skipped": 0, "simtime": 0.0, "refs": 0, "judged": 0}
    fired, kinds, inter, fns, samples, extra = {}, {}, set(), set(), [], {}
    for s in stats:
        for k in tot:
            tot[k] += s.get(k, 0)
        for k, v in s.get("fired", {}).items():
            fired[k] = fired.get(k, 0) + v
        for k, v in s.get("kinds", {}).items():
            kinds[k] = kinds.get(k, 0) + v
        for k, v in s.get("extra", {}).items():
            extra[k] = extra.get(k, 0) + v
        inter |= set(s.get("inter", ()))
        fns |= set(s.get("fns", ()))
        samples += s.get("samples", ())
    tot.update(fired=fired, kinds=kinds, inter=len(inter), fns=len(fns), samples=samples[:5], extra=extra)
    return tot


RULES = {
    "C01": "one evaluation = one simulated concurrent/re-entrant run in a fresh fork; distinct_nontrivial counts distinct switch placements (function, event, target), distinct nested/fork placements, and distinct whole interleavings",
    "C02": "one evaluation = one simulated call history in a fresh fork; distinct_nontrivial counts distinct histories (functions and arguments of all calls)",
    "C03": "one evaluation = one simulated run with interruptions; distinct_nontrivial counts distinct (function, event, fault kind) placements and whole runs",
    "C04": "one evaluation = one simulated run with every argument and earlier result compared at every event; distinct_nontrivial counts distinct switch/fault placements and histories",
    "C05": "one evaluation = one simulated run with process state compared after each call and at observation points; distinct_nontrivial counts distinct observation/fault/switch placements and histories",
    "C06": "one evaluation = one simulated run with warning delivery compared per call; distinct_nontrivial counts distinct switch/fault placements and histories",
    "C07": "one evaluation = one simulated file-writer run with injected I/O faults or a crash; distinct_nontrivial counts distinct (writer, table shape class, I/O operation, fault) placements",
    "C08": "one evaluation = one simulated writer run in a populated scratch directory; distinct_nontrivial counts distinct (writers, interleaving or fault placement, argument defect)",
    "C09": "one evaluation = one simulated import (order, interruption point, retry) in a fresh fork of an interpreter without the toolbox; distinct_nontrivial counts distinct (entry module, fault kind, fault point)",
    "C10": "one evaluation = one simulated run with stalled, killed or forked callers; distinct_nontrivial counts distinct (function, event, fault kind) placements and interleavings",
    "C11": "one evaluation = one call compared between two environments; distinct_nontrivial counts distinct (call, environment) pairs",
}
LEVEL = {p: "exploration" for p in RULES}
LEVEL["C03"] = LEVEL["C07"] = "fault_enumeration"
REAL = "real: every toolbox function, numpy, pandas, CPython threads (parked and released one at a time), fork, signals, file system in a scratch directory"
STUB = "stub/seam: thread scheduler, blocking primitives and sleep, clocks, kernel randomness, outcomes of file system calls, warning sink, stdout/stderr (memory)"


def known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: property=%s replay=" % prop):
                path, text = l.split("replay=", 1)[1].split(" ", 1)
                out.append((os.path.join(HERE, path), text))
    except OSError:
        pass
    return out


def check(prop, tier, seed, workers, count=None, limit=None, warm=None):
    t0 = time.monotonic()
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="dst_")
    rc = 2
    try:
        so = build_shim(tmp)
        if prop == "C11":
            build_locales(tmp)
        n = count or COUNT[tier].get(prop) or COUNT["quick"][prop] * 12
        lim = limit or LIMIT[tier]
        pool = Pool(so, [((prop, seed, w, workers, n, lim), {"DST_TMP": tmp, "DST_WARM": str(WARM[tier] if warm is None else warm),
                                                                   "DST_WRITERS": str(WRITERS[tier])}) for w in range(workers)])
        stats, viol, errors, timeouts = [], [], [], 0
        stop_at = None
        for m in pool.messages(t0 + lim + 300):
            if "stats" in m:
                stats.append(m["stats"])
            elif "violation" in m:
                viol.append(m["violation"])
                if stop_at is None:
                    stop_at = time.monotonic()
                    break
            elif "error" in m:
                errors.append(m["error"])
                if len(errors) > 3:
                    break
            elif "timeout" in m:
                timeouts += 1
        pool.kill()
        tot = merge(stats)
        trouble = sum((s.get("trouble", []) for s in stats), [])
        wall = time.monotonic() - t0
        ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL[prop], "wall_s": round(wall, 1), "violations": len(viol),
              "coverage": {"evaluations": tot["runs"], "distinct_nontrivial": tot["inter"], "rule": RULES[prop],
                           "samples": tot["samples"], "runs_per_hour": int(tot["runs"] / max(wall, 1e-9) * 3600),
                           "seeds_per_hour": int((tot["runs"] + tot["skipped"]) / max(wall, 1e-9) * 3600),
                           "toolbox_calls_executed": tot["calls"], "calls_judged_against_reference": tot["judged"],
                           "reference_calls_in_pristine_forks": tot["refs"], "simulated_time_steps": tot["events"],
                           "simulated_seconds": round(tot["simtime"], 3), "thread_switches": tot["switches"],
                           "faults_fired": tot["fired"], "scenario_kinds": tot["kinds"], "functions_exercised": tot["fns"],
                           "programs_skipped_because_reference_does_not_end": tot["skipped"], "other": tot["extra"],
                           "workers": workers, "programs_the_harness_could_not_run": trouble[:5], "workers_stopped_by_time_limit": timeouts,
                           "unconfirmed_suspicions_of_warm_batches": sum((s.get("unconfirmed", []) for s in stats), [])[:5], "components": [REAL, STUB]},
              "assumptions": ["preemption at line / call / bytecode boundaries of toolbox code; C code of numpy and pandas is atomic",
                              "a sample of seeds, not an enumeration"]}
        if viol:
            v = min(viol, key=lambda x: x["idx"])
            path = confirm(prop, seed, v, so, tmp)
            ev["coverage"]["evaluations"] = max(1, ev["coverage"]["evaluations"])
            if path:
                write(os.path.join(EVID, prop + ".json"), ev)
                print("%s: %s" % (prop, v["text"]))
                print("seed %d, program %d" % (seed, v["idx"]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            ev["violations"] = 0
            ev["coverage"]["unreproduced"] = v["text"]
            write(os.path.join(EVID, prop + ".json"), ev)
            print("%s: a violation was seen once but did not reproduce: %s" % (prop, v["text"]), file=sys.stderr)
            return 2
        if errors:
            print("harness error:\n" + errors[0], file=sys.stderr)
            return 2
        write(os.path.join(EVID, prop + ".json"), ev)
        if trouble:
            print("%d programs could not be run: %s" % (len(trouble), trouble[0]), file=sys.stderr)
        for path, k in known(prop):
            if run_tool("replay", [path], so, tmp, 240) == 1:            # still fails: say so
                print("KNOWN-FINDING: property=%s %s" % (prop, k))
        print("%s %s seed=%d: held on %d runs, %d calls, %d events, %d distinct, faults %s, %.0fs" % (
            prop, tier, seed, tot["runs"], tot["calls"], tot["events"], tot["inter"], json.dumps(tot["fired"], sort_keys=True), wall))
        return 0
    finally:
        subprocess.run(["rm", "-rf", tmp])


def write(path, obj):
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f, indent=1)
    os.replace(path + ".tmp", path)


def confirm(prop, seed, v, so, tmp):
    """Minimise in one fresh worker, then replay the minimised file in another; fall back to the unminimised program."""
    raw = os.path.join(EVID, "replay_%s_raw.json" % prop)
    out = os.path.join(EVID, "replay_%s.json" % prop)
    write(raw, {"property": prop, "seed": seed, "idx": v["idx"], "cls": v["cls"], "text": v["text"], "prog": v["prog"]})
    if os.path.exists(out):
        os.unlink(out)
    run_tool("minimise", [raw, out], so, tmp, 240)
    for p in (out, raw):
        if os.path.exists(p):
            for _ in range(3):
                if run_tool("replay", [p], so, tmp, 240) == 1:
                    return p
    return None


def run_tool(name, args, so, tmp, timeout, show=False):
    e = child_env(so, extra={"DST_TMP": tmp})
    try:
        p = subprocess.run([PY, "-m", "dst.tool", name] + [os.path.abspath(a) for a in args], env=e, cwd=e["HOME"], timeout=timeout,
                           stdin=subprocess.DEVNULL, stdout=None if show else subprocess.DEVNULL,
                           stderr=None if show else subprocess.DEVNULL, preexec_fn=no_aslr)
        return p.returncode
    except subprocess.TimeoutExpired:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["check", "replay", "digest"])
    ap.add_argument("arg")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 4))
    ap.add_argument("--count", type=int)
    ap.add_argument("--limit", type=int)
    ap.add_argument("--warm", type=int)
    a = ap.parse_args()
    if a.what == "check":
        sys.exit(check(a.arg, a.tier, a.seed, a.workers, a.count, a.limit, a.warm))
    tmp = tempfile.mkdtemp(prefix="dst_")
    try:
        so = build_shim(tmp)
        if a.what == "replay":
            if json.load(open(a.arg))["property"] == "C11":
                build_locales(tmp)
            rc = run_tool("replay", [os.path.abspath(a.arg)], so, tmp, 600, show=True)
            sys.exit(rc if rc is not None else 2)
    finally:
        subprocess.run(["rm", "-rf", tmp])


if __name__ == "__main__":
    main()
