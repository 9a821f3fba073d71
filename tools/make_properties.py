#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "deltares_coastal_structures_toolbox/functions/"
HY, ST = F + "hydraulic/", F + "structural/"
ALLFN = [F, F + "core_physics.py", F + "core_utility.py", HY + "wave_overtopping/", HY + "wave_runup/",
         HY + "wave_transmission/", ST + "forces_caisson/", ST + "forces_crestwall/",
         ST + "stability_concrete_armour/", ST + "stability_rock_armour/", ST + "stability_rock_rear/",
         ST + "stability_toe_berm/"]
WR = [HY + "wave_overtopping/denbieman2021.py", HY + "wave_overtopping/vangent2007.py"]
WARN = [F + "core_utility.py", F + "core_physics.py", ST + "stability_rock_rear/vangent2007.py",
        ST + "stability_rock_rear/vangentpozueta2004.py", ST + "stability_toe_berm/takahashi1990_caisson.py",
        HY + "wave_overtopping/taw2002.py"]
ITER = [ST + "stability_rock_rear/vangent2007.py", ST + "stability_rock_rear/vangentpozueta2004.py",
        ST + "stability_toe_berm/takahashi1990_caisson.py", ST + "stability_toe_berm/etemadshahidi2021.py",
        HY + "wave_overtopping/eurotop2018.py", HY + "wave_overtopping/taw2002.py", HY + "wave_runup/taw2002.py",
        ST + "stability_rock_armour/kramerburcharth2004_lowcrested.py"]
TESTS = "The suite calls each function once per sampled input, one after another in one thread, and compares one number. "
P = []


def p(id, title, statement, over, otext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=otext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=hook)))


m = lambda name, where: dict(name=name, where=where)
LOCALS = m("formulas compute in local variables and freshly allocated numpy arrays only; no module state is written", F)

p("C01", "Concurrent and re-entrant calls each give the result of the call alone",
  "Whatever other toolbox calls are in progress in other threads, in a signal handler or warning hook that interrupts the call, or in a worker process forked in the middle of a call, every toolbox call returns the same value (or raises the same error) as that call made alone in a fresh process.",
  ["schedules", "inputs", "programs"],
  "every public function, every pair or group of concurrent callers and their arguments, every interleaving of their executions, every point at which a call is interrupted by a nested call or by a fork",
  TESTS + "No test has two calls in progress at once, so shared scratch buffers, memo tables, temporary global switches or hand-off variables would go unnoticed; the space is interleavings, not inputs.",
  ALLFN, [LOCALS], ["return value / exception of every call in the concurrent history"],
  [dict(name="(none)", meaning="there is no shared mutable state today; the ten read-only unit property tables are the only module data", where=ST + "stability_concrete_armour/")])

p("C02", "A call's result depends only on its arguments, not on earlier calls",
  "The value a toolbox call returns (or the error it raises) is a function of its arguments alone: it is the same as in a fresh process whatever calls were made before it, however many, in whatever order, with whatever similar arguments, and whether they succeeded, warned or failed, and also when the caller has since modified its own arrays or the arrays it got back.",
  ["histories", "inputs", "programs"],
  "every finite history of public calls and caller actions (in-place changes of own arrays and of returned arrays, repeated calls, failing calls, near-identical arguments), and every call made after it",
  TESTS + "Each test starts from the state the previous tests happen to leave and never repeats a call after a near twin, after mutating an array, or after thousands of calls; result caches, warm starts and accumulated state only show in such histories.",
  ALLFN, [LOCALS, m("default arguments are immutable scalars", F)], ["return value / exception of every call in the history"])

p("C03", "An interrupted or failed call corrupts nothing that comes after it",
  "If a toolbox call is interrupted at an arbitrary point (Ctrl-C, out of memory, a warning turned into an error, a floating-point trap, a raising warning hook), it either raises that condition to the caller or returns the correct value; afterwards repeating the call, and any other call, gives exactly the result of a fresh process.",
  ["fault_sequences", "crash_points", "inputs"],
  "every public function, every execution point inside it, every interruption kind, and every call made afterwards, including repeated interruptions",
  TESTS + "No test interrupts a call, so half-updated state, swallowed interrupts and partially computed values being returned are unreachable for it.",
  ALLFN, [LOCALS, m("no exception is caught anywhere in the library, so every interruption propagates", F)],
  ["outcome of the interrupted call", "outcomes of the retry and of later calls"])

p("C04", "Callers' arguments and earlier results are never modified",
  "No toolbox call modifies an array or other object passed to it, nor any value returned by an earlier call, at any moment - not even temporarily, as seen by another thread while the call is in progress, and not when the call fails or is interrupted half-way.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "every public function, every argument array (any size, dtype, dimensionality, contiguous, strided, read-only, shared between arguments or callers), every moment during the call, every interruption point, every earlier result",
  TESTS + "Tests pass scalars or throw-away arrays and never look at them again, let alone in the middle of a call, so in-place updates, sort-and-restore tricks and re-used result buffers are invisible.",
  ALLFN, [m("arrays are combined with operators or np.where into new arrays; results are new objects", F)],
  ["bytes of every argument and of every earlier result, at every scheduling point and after each call"])

p("C05", "Calls leave the process environment as they found it",
  "A toolbox call leaves all process-wide state as it was - floating-point error handling, warning filters and hooks, random generators, environment variables, working directory, locale, signal handlers, interpreter and library settings, open files, threads, standard output, and the toolbox's own public tables and functions - and leaves no file or directory created, changed or removed (a file writer: none but its target), on success, on error, when interrupted at any point, and as observed by other threads while the call is in progress.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "every public function and argument set, every moment during the call, every interruption point, every pre-existing setting of that process state",
  TESTS + "No test compares interpreter or library state before, during and after a call, and none interrupts a call between a change of such state and its restoration.",
  ALLFN, [m("the library never sets numpy error state, warning filters, environment, directory or random seeds", F)],
  ["snapshot of process state at every scheduling point and after each call"],
  [dict(name="unit_properties", meaning="published concrete unit tables", where=ST + "stability_concrete_armour/*.py")])

p("C06", "Every warning the call alone would give is delivered, to that caller",
  "With warnings enabled, a call under any interleaving, interruption by other calls, or history issues the same warnings in the same order as that call made alone; under Python's default once-per-location filter every distinct warning text still appears at least once in the process; and when warnings are turned into errors the call raises its first warning instead of returning a value.",
  ["schedules", "histories", "configurations", "inputs"],
  "every public function, every input outside or inside a validity range, every history and interleaving of calls, and the warning configurations always / default / error / raising hook",
  TESTS + "A test that expects a warning checks it once, in isolation; de-duplication, suppression that leaks into other threads, or a muted repeat needs a history or a schedule to appear.",
  WARN + [F], [m("check_variable_validity_range calls warnings.warn once for each violated side", F + "core_utility.py"),
               m("iteration routines warn when not converged", ST + "stability_rock_rear/")],
  ["sequence of (category, text) reaching the warning hook during each call"])

p("C07", "A generated model-input file is complete and exact, or the call raises",
  "When writing an overtopping model input file returns normally, the file on disk holds exactly one complete record per case with the given values in the documented column order, and already survives a crash of the process at that moment; when any part of the write fails (disk full, I/O error, short write, file too large, no permission, missing directory, failing close, out of memory) the call raises, and repeating it once the fault has cleared produces the complete file.",
  ["fault_sequences", "crash_points", "inputs"],
  "both file writers, every case table (one to many thousand cases, scalars or arrays, overwriting or creating), every I/O call at which a fault can occur, every fault kind, crash right after return",
  TESTS + "The file writers are exercised at best once on a healthy disk; no test fails an individual write, kills the process, or reads back a large table.",
  WR, [m("DataFrame.to_csv inside context-managed open; errors propagate", "write_input_file_XGB_Overtopping, write_input_file_NN_Overtopping")],
  ["bytes of the target file", "exception raised by the call"],
  [dict(name="<output_dir>/<file_name>.csv", meaning="semicolon separated table with header", where=WR[0]),
   dict(name="<output_dir>/<file_name>.inp", meaning="comment header plus blank separated records", where=WR[1])])

p("C08", "File writers touch only their own target, and nothing on rejected input",
  "A file-writing call creates or changes exactly the one file named by its arguments, also while other writers to other paths are in progress at any interleaving, and leaves no temporary files, open handles or other directory entries behind, even when it fails or is interrupted; a call rejected because of invalid arguments leaves an already existing target file unchanged.",
  ["schedules", "fault_sequences", "crash_points", "inputs"],
  "both file writers, any directory contents, any set of concurrent writers and their interleavings at file operations, any fault or interruption point, any invalid argument combination",
  "The tests never run two writers at once, never look at the rest of the directory, and never call a writer with inconsistent tables over an existing file.",
  WR, [m("paths are built from output_dir and file_name only; no temporary files", "write_input_file_*")],
  ["directory listing and bytes before / during / after", "open file descriptors"])

p("C09", "Importing is order-independent and can be interrupted and retried",
  "Importing any module of the toolbox first, in any order, from any thread (or the whole package from several threads at once) or working directory, leaves the same complete public interface giving the same results; if an import is interrupted or fails half-way at any point (interrupt, out of memory, unreadable file), importing again once the fault has cleared leaves that same complete interface, and importing has no side effects on the rest of the process.",
  ["schedules", "fault_sequences", "programs", "configurations"],
  "every entry module and import order, every execution point and file read during import, every fault kind, concurrent importers of the package (crossing first imports of different submodules are left out: CPython itself breaks that deadlock by handing out partial modules)",
  "The test session imports everything once, in collection order, in one thread with no faults.",
  ["deltares_coastal_structures_toolbox/__init__.py", F + "__init__.py", HY + "__init__.py", ST + "__init__.py"],
  [m("modules only define functions and constants and import siblings absolutely, without cycles that need partial modules", "import statements")],
  ["public names and signatures, results of sample calls, process state"])

p("C10", "A stalled or dead caller never blocks or slows another",
  "While one caller is stopped, slow, or has died in the middle of a toolbox call, and after a fork taken at that moment, every other call still completes, within the number of steps it needs when made alone; no interleaving deadlocks or livelocks.",
  ["schedules", "crash_points", "fault_sequences"],
  "every pair or group of callers, every point at which one of them stalls for ever, is interrupted, or forks, every other call then made",
  TESTS + "No test has a caller that stops half-way, so a lock held, a busy flag left set, or a wait for another caller cannot be seen.",
  ALLFN, [m("no locks, flags or waits: calls share nothing", F)],
  ["completion and step count of every other call", "set of blocked threads"])

p("C11", "Results do not depend on clock, randomness, hash seed, or environment",
  "For the same arguments a call gives the same value, errors and warnings - and a written file the same contents - whatever the time of day or clock jumps between or during calls, random generator states, string hash seed, locale, time zone, environment variables, working directory, interpreter optimisation level, thread, process, other libraries loaded in the program, or earlier changes the user made to library display options.",
  ["configurations", "histories", "inputs"],
  "every public function and argument set under every setting of those ambient sources of nondeterminism, including changes between two points of one call",
  TESTS + "The tests run in one pinned environment with a fixed hash seed, and never move the clock or the random state.",
  ALLFN, [m("no clock, random, environment or locale access in the library", F)],
  ["return value / exception / warnings / file bytes under two environments"])

# ---- pure-function properties: real guarantees, but nothing nondeterministic or faulty to simulate
NA = {
 "C12": ("Published formulas are implemented faithfully",
   "Every function returns the value of the published design formula it names, with the published default coefficients, for every admissible input.",
   "every public function and input", "A test samples a few rows of a spreadsheet.", ALLFN),
 "C13": ("Inverse functions invert the forward formula",
   "For every admissible input, computing an unknown (wave height, freeboard, unit mass, diameter, damage) from a formula and feeding it back into the forward formula reproduces the starting quantity within the documented tolerance.",
   "every forward/inverse pair and input", "Tests check round trips at a handful of points.", ALLFN),
 "C14": ("Array calls equal element-wise scalar calls",
   "Passing arrays gives, element by element, the same results as separate scalar calls, for every mix of broadcastable shapes.",
   "every function, every broadcastable shape and dtype", "Tests pass scalars nearly everywhere.", ALLFN),
 "C15": ("A warning is given exactly when an input is outside its validity range",
   "A call warns about a parameter if and only if the supplied or derived value lies outside the validity range published for that formula, naming the parameter.",
   "every function with a published range and every input, including exactly at the bounds", "Tests check one point inside and one outside.", WARN + [F]),
 "C16": ("Results respect physical bounds and monotonic trends",
   "Results stay within physical bounds (non-negative discharges and masses, transmission between 0 and 1, reduction factors not above their maximum) and respond monotonically in the direction the physics prescribes.",
   "every function and admissible input", "Bounds and trends are statements about all inputs.", ALLFN),
 "C17": ("Iterative solutions converge and report when they do not",
   "Functions that solve by iteration end for every input within their iteration limit, return a value satisfying the defining equation within the tolerance, and warn or mark the result when no convergence is reached.",
   "every iterative function and input, including degenerate ones", "Tests use inputs that converge.", ITER),
 "C18": ("Equivalent ways to state the same input give the same answer",
   "Giving a stone or unit by mass or by nominal diameter, leaving a parameter at its default or passing the default explicitly, and giving a derived quantity or letting it be derived, lead to the same result; contradictory or missing input is reported.",
   "every function with alternative inputs, every input", "Tests fix one way of calling.", [F + "core_physics.py", ST]),
 "C19": ("Results scale with dimensions as the formulas require",
   "Scaling all lengths and times consistently (Froude scaling) scales dimensional results accordingly and leaves dimensionless results unchanged.",
   "every function and scale factor", "Tests fix one scale.", ALLFN),
 "C20": ("Missing data propagates and never turns into a plausible number",
   "A NaN in a required input yields NaN in the affected results and in no others, and never a finite number.",
   "every function and position of the NaN", "Tests do not pass NaN.", ALLFN),
}
for i, (t, s, q, w, f) in NA.items():
    p(i, t, s, ["inputs"], q, w, f, [m("the formula code itself", "see files")], ["return value"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        fh.write(json.dumps(x) + "\n")
print(len(P), "properties")
