#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "deterministic simulation with fault injection: "
CLAIM = {
    "C01": (DST + "seeded thread schedules, nested calls, signals and forks; every call compared with the call alone in a pristine process", "exploration",
            "Seeded sample of interleavings (preemption at line, call or bytecode boundaries of toolbox code) over all public functions; numpy/pandas C code runs atomically. File writers run against each other and against calculations, switched at file operations too. Oracle: same tree, same call, fresh fork."),
    "C02": (DST + "seeded call histories (near twins, in-place changes, failing calls, long soaks); every call compared with the call alone in a pristine process", "exploration",
            "Seeded sample of histories over all public functions. Oracle: same tree, same call, fresh fork; so it judges history dependence, not the formulas."),
    "C03": (DST + "exceptions injected at swept execution points, then retries and other calls compared with a pristine process", "fault_enumeration",
            "Fault points are swept over line or call events of each chosen call (all points of short calls, a sample of long ones). Not injected inside except/finally bodies or on `with` headers, where no Python code can be safe."),
    "C04": (DST + "argument and result bytes compared at every scheduling point under seeded schedules, faults and histories", "exploration",
            "Arguments compared at each line event of the call itself or at each switch, results and earlier arguments after every call; C code is atomic."),
    "C05": (DST + "photographs of process state compared after calls, at injected observation points and under faults", "exploration",
            "Covers the state listed in dst/ambient.py, from varied initial settings, on success, error, interruption and as seen by other threads."),
    "C06": (DST + "warning delivery per call compared with the call alone under seeded schedules, histories, filters and hooks", "exploration",
            "Warnings are attributed to the call in progress in the thread that received them; filters always / default / error."),
    "C10": (DST + "stalls, kills and forks at swept points; deadlock and livelock detection with a step budget from the reference run", "exploration",
            "Blocking primitives of threading, sleep and flock are simulated, so a blocked caller is detected at once; step bound twice the steps needed alone, and no simulated waiting time beyond that of the call alone (timed locks, polling). Calculations and file writers, also against each other."),
    "C07": (DST + "I/O outcomes injected at swept file operations (LD_PRELOAD seam), crash right after return, retry; files compared with an independent model of the table", "fault_enumeration",
            "Every file operation of small tables is swept, a sample for large ones. Oracle: parsed file against the given cases. Real file system in a scratch directory; only outcomes are injected."),
    "C08": (DST + "concurrent writers switched at file operations, faults, interruptions and rejected arguments; directory, bytes and handles compared", "exploration",
            "Real file system in a scratch directory. A rejected call is one with inconsistent table lengths or non-table arguments."),
    "C09": (DST + "seeded import orders, interruptions at swept points of module execution, read faults, concurrent importers, retry; interface and results compared with a plain import", "exploration",
            "Each run is a fresh fork of an interpreter that has numpy and pandas but not the toolbox."),
    "C11": (DST + "clock, randomness, hash seed, locale, environment, optimisation level and allocator contents as injected inputs; outcomes compared across environments", "exploration",
            "Clock and kernel randomness come from the LD_PRELOAD seam and can jump during a call; interpreter-level settings are covered by separate interpreter processes."),
}
READY = os.environ.get("READY", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11").split()
PURE = ("A statement about the value of a pure function of its arguments: it depends on no schedule, clock, I/O, randomness, crash "
        "or fault, so a deterministic simulator has nothing to decide about it (its only quantifier is over inputs).")
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in CLAIM and i in READY:
        t, lev, note = CLAIM[i]
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                           technique=t, level=lev, level_note=note))
    else:
        na.append(dict(property=i, reason=PURE if i not in CLAIM else "check under construction"))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo were needed: all seams are outside it (sys.monitoring, LD_PRELOAD shim, patched threading primitives). "
               "Replay: ./replay FILE.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
