"""Scenario generators and judges of the in-process properties C01-C06, C10 (C07-C09, C11 have their own modules).

make(prop, idx, seed, api, ref) -> program     (pure function of its arguments and of the tree)
judge(prop, prog, hist, ref)    -> [violation, ...]
"""
import random

from . import gen, pool, values

WARM = False                    # see warm.py
EXC_KINDS = ("KeyboardInterrupt", "MemoryError", "Timeout", "SystemExit", "RecursionError", "Kill")


class Skip(Exception):
    """No usable program for this seed (for instance the reference call itself does not end)."""


def good(ref, op):
    return "bad" not in ref(op)


def nsteps(ref, op, g="line"):
    r = ref(op, g)
    if "bad" in r:
        raise Skip("too long at this granularity")
    return max(1, r["steps"])          # 0: refused before any line ran


def pick_op(rng, api, ref, key, tries=6, want_ok=0.8, style=None, cond=None):
    last = None
    guided = rng.random() < .5
    for _ in range(tries):
        op = pool.pick(rng, api, key, None if style is None else lambda o: o.get("st") == style) if guided else None
        if op is None:
            op = gen.make_op(rng, api, key, style=style)
        r = ref(op)
        if "bad" in r:
            continue
        last = op
        if (r["out"][0] == "ok" or rng.random() > want_ok) and (cond is None or cond(op, r)):
            return op
    if last is None:
        raise Skip(key)
    return last


def companion(rng, api, ref, a):
    """A call to run against `a`: mostly a near twin or another case of the same function, sometimes a neighbour."""
    for _ in range(6):
        u = rng.random()
        if u < .42:
            b = gen.twin(rng, api, a)
        elif u < .6:
            b = pool.pick(rng, api, a["fn"]) or gen.twin(rng, api, a)
        elif u < .75:
            b = gen.regular(rng, api, a["fn"], a)
        elif u < .9:
            b = gen.make_op(rng, api, rng.choice(api.by_module[a["fn"].split(":")[0]]))
        else:
            b = gen.make_op(rng, api, rng.choice(api.pure))
        if good(ref, b):
            return b
    raise Skip("companion")


def points(rng, n, m):
    """m event numbers out of 1..n: all of them when few, else ends, early ones and random ones."""
    if n <= m:
        return list(range(1, n + 1))
    out = set(range(1, 1 + m // 4)) | set(range(n - m // 6, n + 1))
    while len(out) < m:
        out.add(rng.randrange(1, n + 1))
    return sorted(out)


def materialise(op, cur):
    if any(isinstance(v, dict) and "ref" in v for v in op["kw"].values()):
        return dict(op, kw={k: (cur[v["ref"]] if isinstance(v, dict) and "ref" in v else v) for k, v in op["kw"].items()})
    return op


def budget(ref, prog, mul=3, exact=False):
    """Event budget of a run: three times what its calls need alone, plus a margin."""
    if "subs" in prog:
        return prog
    tot = 0
    cur = dict(prog.get("shared", {}))
    for t in prog["tasks"]:
        for s in t:
            if s.get("nc"):
                tot += 1000
            elif "mut" in s:
                cur[s["mut"]] = dict(s["to"], lay=prog["shared"][s["mut"]].get("lay", "C"))
            elif "call" in s:
                r = ref(materialise(s["call"], cur))
                if "bad" in r:
                    raise Skip("unusable call in history")
                tot += r["steps"]
    for f in prog.get("faults", ()):
        for o in [f["op"]] if f.get("op") else f.get("ops", ()):
            tot += ref(o).get("steps", 1000)
    k = {"line": 1, "call": 3, "instr": 14, "none": 1}[prog.get("gran", "line")]
    prog["limit"] = tot * mul + 20000 * k if exact else (tot * mul + 20000) * k
    return prog


def gran(rng):
    return rng.choice(("line", "line", "line", "call", "instr"))


def keyfor(api, idx):
    return api.pure[idx % len(api.pure)]


# ------------------------------------------------------------------ building blocks
def sweep_switch(rng, api, ref, a, g, m, pairs=None):
    """Task 0 repeats a; at a different event each time task 1 runs a companion to its end, then a goes on."""
    n = nsteps(ref, a, g)
    ks = points(rng, n, m)
    bs = [companion(rng, api, ref, a) for _ in range(rng.choice((1, 2, 3)))]
    t0, t1, sw = [], [], []
    for i, k in enumerate(ks):
        t0.append({"call": a})
        t1.append({"call": bs[i % len(bs)]})
        sw.append([0, i, k, 1])
        if i:
            sw.append([1, i, 0, 0])
    return {"tasks": [t0, t1], "gran": g, "switches": sw}


def sweep_cross(rng, api, ref, a, g, m):
    """a stops at k, b stops at j, a runs to its end, then b: both are in the middle at the same time."""
    b = companion(rng, api, ref, a)
    na, nb = nsteps(ref, a, g), nsteps(ref, b, g)
    t0, t1, sw = [], [], []
    for i in range(m):
        k, j = rng.randrange(1, max(2, na + 1)), rng.randrange(1, max(2, nb + 1))
        t0.append({"call": a})
        t1.append({"call": b})
        sw.append([0, i, k, 1])
        sw.append([1, i, j, 0])
        # before its next call each side lets the other finish
        sw.append([0, i + 1, 0, 1])
        sw.append([1, i + 1, 0, 0])
    return {"tasks": [t0, t1], "gran": g, "switches": sw}


def sweep_three(rng, api, ref, a, g, m):
    """Three callers in the middle of a call at the same time, or several calls of others at one point of a."""
    bs = [companion(rng, api, ref, a) for _ in range(3)] + [a]
    n = nsteps(ref, a, g)
    t0, t1, t2, sw = [], [], [], []
    for i in range(m):
        b, c = rng.choice(bs), rng.choice(bs)
        t0.append({"call": a})
        sw.append([0, i, rng.randrange(1, n + 1), 1])
        t1.append({"call": b})
        t2.append({"call": c})
        nb = nsteps(ref, b, g)
        sw.append([1, i, rng.randrange(1, max(2, nb + 1)), 2])      # in the middle of b, c runs (to its end, or ...)
        if i % 2:
            sw.append([2, i, rng.randrange(1, max(2, nsteps(ref, c, g) + 1)), 0])   # ... a goes on first, all three unfinished
        sw.append([0, i + 1, 0, 1])
        sw.append([2, i + 1, 0, rng.choice((0, 1))])
        sw.append([1, i + 1, 0, rng.choice((0, 2))])
    return {"tasks": [t0, t1, t2], "gran": g, "switches": sw}


def sweep_burst(rng, api, ref, a, g, m):
    """At one point of a, several calls of another thread (or of a handler) run to their ends."""
    n = nsteps(ref, a, g)
    bs = [companion(rng, api, ref, a) for _ in range(4)]
    ks = points(rng, n, m)
    if rng.random() < .4:
        kind = rng.choice(("reenter", "reenter", "signal"))
        return {"tasks": [[{"call": a} for _ in ks]], "gran": g if kind == "reenter" or g != "instr" else "line",
                "faults": [{"t": 0, "i": i, "ev": k, "kind": kind, "ops": [rng.choice(bs) for _ in range(rng.choice((2, 3, 5)))]}
                           for i, k in enumerate(ks)]}
    t0, t1, sw = [], [], []
    for i, k in enumerate(ks):
        t0.append({"call": a})
        sw.append([0, i, k, 1])
        if i:
            sw.append([1, len(t1), 0, 0])
        t1 += [{"call": rng.choice(bs)} for _ in range(rng.choice((2, 2, 3, 5)))]
    return {"tasks": [t0, t1], "gran": g, "switches": sw}


def sweep_nested(rng, api, ref, a, g, m, kind):
    n = nsteps(ref, a, g)
    ks = points(rng, n, m)
    bs = [companion(rng, api, ref, a) for _ in range(2)]
    fl = []
    for i, k in enumerate(ks):
        f = {"t": 0, "i": i, "ev": k, "kind": kind}
        if kind == "fork":
            f["ops"] = [bs[i % 2]] + ([a] if i % 3 == 0 else [])
        else:
            f["op"] = bs[i % 2]
        fl.append(f)
    return {"tasks": [[{"call": a} for _ in ks]], "gran": g, "faults": fl}


def free(rng, api, ref, a, g, mode):
    nt = rng.choice((2, 2, 3, 4))
    tasks = []
    pool = [a] + [companion(rng, api, ref, a) for _ in range(rng.choice((2, 3, 4)))]
    for t in range(nt):
        tasks.append([{"call": rng.choice(pool)} for _ in range(rng.choice((1, 2, 3, 5)))])
    tot = sum(nsteps(ref, s["call"]) for t in tasks for s in t) * {"line": 1, "call": 2, "instr": 9}[g]
    if mode == "random":
        # aim at 5..60 switches per run, whatever its length
        want = rng.choice((5, 15, 60))
        sched = {"mode": "random", "seed": rng.randrange(2**31), "p": min(0.5, want / max(10, tot))}
    else:
        sched = {"mode": "pct", "seed": rng.randrange(2**31), "d": rng.choice((1, 2, 3, 5)), "n": max(5, tot)}
    return {"tasks": tasks, "gran": g, "sched": sched}


def fault_sweep(rng, api, ref, a, g, m, kinds):
    """Every other call is interrupted at a different event; in between the call is repeated or a companion runs."""
    n = nsteps(ref, a, g)
    ks = points(rng, n, m)
    bs = [companion(rng, api, ref, a) for _ in range(2)]
    steps, fl = [], []
    for i, k in enumerate(ks):
        fl.append({"t": 0, "i": len(steps), "ev": k, "kind": kinds[i % len(kinds)] if rng.random() < .8 else rng.choice(kinds)})
        steps.append({"call": a})
        u = i % 4
        if u == 1:
            steps.append({"call": bs[0]})
        elif u == 2:
            steps.append({"call": bs[1]})
        steps.append({"call": a})
    steps.append({"call": bs[0]})
    return {"tasks": [steps], "gran": g, "faults": fl}


def equal_hashes(rng, api, ref, a):
    """Variants of `a` that differ, but whose arguments have equal hashes (-1.0 and -2.0)."""
    ks = [p for p, d in api.params[a["fn"]] if p in a["kw"] and isinstance(a["kw"][p], float) and gen.default_range(p, d)[0] <= -1]
    if not ks:
        return []
    k = rng.choice(ks)
    out = [dict(a, kw=dict(a["kw"], **{k: v})) for v in (-1.0, -2.0)]
    return [o for o in out if good(ref, o)] * 2


def history(rng, api, ref, a, n):
    """A sequential history around `a`: near twins, repeats, failing calls, caller-side mutation."""
    pool = [companion(rng, api, ref, a) for _ in range(max(3, n // 3))]
    if rng.random() < .5:
        pool += equal_hashes(rng, api, ref, a)
    steps = [{"call": a}]
    for _ in range(n):
        u = rng.random()
        if u < .25:
            steps.append({"call": a})
        elif u < .85:
            steps.append({"call": rng.choice(pool)})
        elif u < .95:
            steps.append({"mutres": rng.choice((-1, 0, 1, 2))})
        else:
            steps.append({rng.choice(("gc", "drop")): 1})
    steps.append({"call": a})
    if rng.random() < .5:
        rng.shuffle(steps)
    return {"tasks": [steps], "gran": "line"}


def inplace_history(rng, api, ref, a, n):
    """The caller keeps one array object per argument, changes it in place between calls, and calls again."""
    shared, kw = {}, {}
    for k, v in a["kw"].items():
        if isinstance(v, dict) and ("a" in v or "lin" in v) and v.get("lay") != "ro":
            shared["s_" + k] = v
            kw[k] = {"ref": "s_" + k}
        else:
            kw[k] = v
    if not shared:
        return history(rng, api, ref, a, n)
    if len(shared) > 1 and rng.random() < .3 and all("a" in shared[s] for s in shared):      # keep one array, the others as numbers
        one = rng.choice(sorted(shared))
        for k in sorted(kw):
            if isinstance(kw[k], dict) and kw[k].get("ref") in shared and kw[k]["ref"] != one and shared[kw[k]["ref"]]["a"]:
                kw[k] = shared.pop(kw[k]["ref"])["a"][0]
        if not good(ref, dict(a, kw={k: (shared[v["ref"]] if isinstance(v, dict) and "ref" in v else v) for k, v in kw.items()}, alias=None)):
            raise Skip("one array")
    op = dict(a, kw=kw)
    op.pop("alias", None)
    steps = [{"call": op}]
    cur = {s: dict(v) for s, v in shared.items()}
    for _ in range(n):
        if rng.random() < .75:
            s = rng.choice(sorted(shared))
            v = gen.tweak_val(rng, cur[s])
            v["lay"] = shared[s].get("lay", "C")
            if "a" in v and len(v["a"]) == len(cur[s]["a"]) and (all(isinstance(x, (int, float)) for x in v["a"])):
                cand = dict(op, kw={k: (cur[x["ref"]] if isinstance(x, dict) and "ref" in x and x["ref"] != s else
                                        v if isinstance(x, dict) and "ref" in x else x) for k, x in kw.items()})
                if good(ref, cand):
                    steps.append({"mut": s, "to": v})
                    cur[s] = v
            elif "lin" in v:
                steps.append({"mut": s, "to": v})
                cur[s] = v
        elif rng.random() < .3:
            steps.append({"mutres": -1})
        steps.append({"call": op})
    return {"tasks": [steps], "gran": "line", "shared": shared}


def soak(rng, api, ref, a, n, distinct):
    """Very many calls of one function; only some are compared (all copies of a and of the probes)."""
    steps = [{"call": a}]
    probes = [companion(rng, api, ref, a) for _ in range(3)]
    for i in range(n):
        if distinct:
            o = gen.twin(rng, api, a) if i % 3 else gen.regular(rng, api, a["fn"], a)
            steps.append({"call": o, "nc": 1})
        else:
            steps.append({"call": a})
        if i % 97 == 50:
            steps.append({"call": a})
        if i % 61 == 30:
            steps.append({"call": probes[i % 3]})
    steps += [{"call": p} for p in probes] + [{"call": a}]
    return {"tasks": [steps], "gran": "none" if not distinct else "line", "soak": 1}


def soak_len(rng, api, key, usual, most):
    c = [x for x in api.sizes.get(key, ()) if 20 < x <= most - 20]
    return rng.choice(c) + 10 if c and rng.random() < .6 else rng.choice(usual)


def cold(rng, api, ref, a, m, how, gran="line", kinds=EXC_KINDS):
    """Many small runs, each with its disturbance in the first call ever made in the process (lazy set-up code)."""
    bs = [a, companion(rng, api, ref, a), companion(rng, api, ref, a)]
    subs = []
    for j, k in enumerate(points(rng, nsteps(ref, a, gran), m)):
        b = bs[j % 3] if rng.random() < .7 else rng.choice(bs)
        if how == "fault":
            p = {"tasks": [[{"call": a}, {"call": b}, {"call": a}]], "faults": [{"t": 0, "i": 0, "ev": k, "kind": kinds[j % len(kinds)]}]}
        elif how == "switch":
            p = {"tasks": [[{"call": a}, {"call": b}], [{"call": b}]], "switches": [[0, 0, k, 1]]}
        elif how == "cross":
            q = rng.randrange(1, max(2, nsteps(ref, b, gran) + 1))
            p = {"tasks": [[{"call": a}, {"call": b}], [{"call": b}, {"call": a}]], "switches": [[0, 0, k, 1], [1, 0, q, 0], [0, 1, 0, 1]]}
        elif how == "reenter":
            p = {"tasks": [[{"call": a}, {"call": b}]], "faults": [{"t": 0, "i": 0, "ev": k, "kind": rng.choice(("reenter", "signal")), "op": b}]}
        elif how == "stall":
            p = {"tasks": [[{"call": a}], [{"call": b}, {"call": a}]], "faults": [{"t": 0, "i": 0, "ev": k, "kind": "stall"}]}
        elif how == "fork":
            p = {"tasks": [[{"call": a}]], "faults": [{"t": 0, "i": 0, "ev": k, "kind": "fork", "ops": [b, a]}]}
        p["gran"] = gran
        subs.append(p)
    return {"subs": subs}


# ------------------------------------------------------------------ per property
AMB = [
    {},
    {"np_err": {"all": "ignore"}},
    {"np_err": {"divide": "warn", "over": "ignore", "invalid": "ignore", "under": "warn"}},
    {"seed": 4711, "printopts": {"precision": 3, "suppress": True}},
    {"recursion": 1777, "decimal": 11, "switchint": 7777.0},
    {"warn": "mixed", "environ": {"DST_PROBE": "x"}},
    {"gcthr": [901, 7, 9], "pd_precision": 9, "locale": "C"},
    {"tz": "Asia/Tokyo", "seed": 3, "np_err": {"all": "warn"}, "bufsize": 16384},
    {"gc": 0, "printopts": {"floatmode": "fixed", "precision": 2}, "seed": 99},
]


def turn(kinds, n):
    """WARM: the kinds that do not need a process of their own; otherwise those that do come up every other time."""
    hot = [k for k in kinds if k not in ("cold", "fork", "forkstall")]
    own = [k for k in kinds if k not in hot]
    if WARM or not own:
        return hot[n % len(hot)]
    return own[n // 2 % len(own)] if n % 2 else hot[n // 2 % len(hot)]


def swarm_env(rng):
    e = {}
    for x in rng.sample(AMB, rng.choice((0, 1, 1, 2, 3))):
        e.update(x)
    return e


def make(prop, idx, seed, api, ref):
    """A program, or {"subs": [programs]} to be run one after the other in processes of their own."""
    p = make1(prop, idx, seed, api, ref)
    if "subs" in p:
        rest = {k: v for k, v in p.items() if k != "subs"}
        p["subs"] = [budget(ref, dict(q, **rest)) for q in p["subs"]]
    return p


def make1(prop, idx, seed, api, ref):
    rng = random.Random("%s/%d/%d" % (prop, seed, idx))
    key = keyfor(api, idx)
    rnd = idx // len(api.pure)                   # how many times each function has been primary
    off = idx % len(api.pure) * 5                # which scenario kind a function starts with
    g = gran(rng)
    big = rng.random() < .15
    m = 24 if not big else 60
    if prop == "C01":
        a = pick_op(rng, api, ref, key)
        if nsteps(ref, a) > 4000:
            m = 6
        kind = turn(("sweep", "nested", "cold", "random", "cross", "burst", "sweep", "pct", "cold", "signal", "three", "fork"),
                    rnd + off + rng.randrange(2))
        if kind == "cold":
            how = rng.choice(("switch", "cross", "reenter", "fork", "switch"))
            p = cold(rng, api, ref, a, 10 if nsteps(ref, a) < 4000 else 3, how, "line" if how in ("reenter", "fork") else g)
        elif kind == "sweep":
            p = sweep_switch(rng, api, ref, a, g, m)
        elif kind == "cross":
            p = sweep_cross(rng, api, ref, a, g, m // 2)
        elif kind == "three":
            p = sweep_three(rng, api, ref, a, g, m // 2)
        elif kind == "burst":
            p = sweep_burst(rng, api, ref, a, g, m // 2)
        elif kind == "nested":
            p = sweep_nested(rng, api, ref, a, g, m, "reenter")
        elif kind == "signal":
            p = sweep_nested(rng, api, ref, a, "line" if g == "instr" else g, m, "signal")
        elif kind == "fork":
            p = sweep_nested(rng, api, ref, a, "line", 4, "fork")
        else:
            p = free(rng, api, ref, a, g, kind)
        p["kind"] = kind
        p["env"] = {"warn": "always"}
        if rng.random() < .2 and kind != "cold":
            warn_hook(rng, api, ref, p, a)
        return budget(ref, p)
    if prop == "C02":
        a = pick_op(rng, api, ref, key)
        st = nsteps(ref, a)
        kind = turn(("history", "inplace", "history", "soak", "history", "inplace", "soakd", "long"), rnd + off + rng.randrange(3))
        if kind == "inplace":
            a = pick_op(rng, api, ref, key, style=rng.choice(("arrays", "arrays", "one_array", "big", "arrays2d")))
            p = inplace_history(rng, api, ref, a, rng.choice((4, 8, 14)))
        elif kind == "soak" and st < 300:
            p = soak(rng, api, ref, a, soak_len(rng, api, key, (140, 280, 1100), 1500), False)
        elif kind == "soakd" and st < 300:
            p = soak(rng, api, ref, a, soak_len(rng, api, key, (80, 150, 300), 600), True)
        elif kind == "long" and st < 1000:
            p = history(rng, api, ref, a, 40)
        else:
            kind = "history"
            p = history(rng, api, ref, a, rng.choice((4, 8, 14)) if st < 3000 else 4)
        p["kind"] = kind
        p["env"] = {"warn": "always"}
        return budget(ref, p)
    if prop == "C03":
        a = pick_op(rng, api, ref, key)
        kind = turn(("line", "cold", "call", "conc", "werror", "cold", "fp", "hook", "line", "twice"), rnd + off + rng.randrange(2))
        st = nsteps(ref, a)
        mm = 30 if st < 2000 else 5
        if kind in ("werror", "hook"):
            a = warned(rng, api, ref, key) or a
        if kind == "cold":
            p = cold(rng, api, ref, a, 16 if st < 2000 else 4, "fault", rng.choice(("line", "line", "call")))
        elif kind in ("line", "call"):
            p = fault_sweep(rng, api, ref, a, kind, mm, EXC_KINDS)
        elif kind == "twice":
            p = fault_sweep(rng, api, ref, a, "line", mm, EXC_KINDS)
            for f in list(p["faults"]):
                if rng.random() < .5:
                    p["faults"].append(dict(f, i=f["i"] + 1, ev=rng.randrange(1, st + 1)))
        elif kind == "conc":
            p = sweep_switch(rng, api, ref, a, "line", 16 if st < 2000 else 4)
            p["faults"] = []
            for i, s in enumerate(p["tasks"][1]):
                n = nsteps(ref, s["call"])
                if rng.random() < .5:
                    p["faults"].append({"t": 1, "i": i, "ev": rng.randrange(1, max(2, n + 1)), "kind": rng.choice(EXC_KINDS)})
                elif rng.random() < .5:
                    p["faults"].append({"t": 0, "i": i, "ev": rng.randrange(1, max(2, st + 1)), "kind": rng.choice(EXC_KINDS)})
            p["tasks"][0].append({"call": a})
        elif kind == "werror":
            b = companion(rng, api, ref, a)
            steps = []
            for _ in range(4):
                steps += [{"env": {"warn": "error"}}, {"call": rng.choice((a, a, b))}, {"env": {"warn": "always"}}, {"call": a},
                          {"call": b}]
            p = {"tasks": [steps], "gran": "line"}
        elif kind == "fp":
            b = companion(rng, api, ref, a)
            c = wildop(rng, api, ref, key) or b
            steps = []
            for _ in range(3):
                steps += [{"env": {"np_err": {"all": "raise"}}}, {"call": rng.choice((a, c))}, {"call": c},
                          {"env": {"np_err": {"all": "warn", "under": "ignore"}}}, {"call": a}, {"call": b}]
            p = {"tasks": [steps], "gran": "line"}
        else:
            nw = len(ref(a)["warns"])
            b = companion(rng, api, ref, a)
            steps, fl = [], []
            for i in range(6):
                if nw:
                    fl.append({"t": 0, "i": len(steps), "warn": rng.randrange(1, nw + 1), "kind": rng.choice(EXC_KINDS)})
                steps += [{"call": a}, {"call": b}, {"call": a}]
            p = {"tasks": [steps], "gran": "line", "faults": fl}
        p["kind"] = kind
        p.setdefault("env", {"warn": "always"})
        return budget(ref, p)
    if prop == "C04":
        style = rng.choice(("arrays", "arrays", "arrays", "one_array", "arrays2d", "big", "arr1", "arr0", "list", "list", "series", "series",
                            "f32", "broadcast", None))
        a = pick_op(rng, api, ref, key, style=style, want_ok=.6)
        st = nsteps(ref, a)
        kind = turn(("seq", "faults", "conc", "inplace", "seq", "random"), rnd + off + rng.randrange(2))
        if st > 3000:
            kind = "seq"
        w = ["args", "results", "argsmid"]
        if kind == "seq":
            p = history(rng, api, ref, a, rng.choice((3, 6, 10)))
            p["tasks"][0] = [s for s in p["tasks"][0] if "mutres" not in s]
            p["gran"] = g if st < 800 else "line"
        elif kind == "inplace":
            p = inplace_history(rng, api, ref, a, 6)
            p["tasks"][0] = [s for s in p["tasks"][0] if "mutres" not in s]
        elif kind == "faults":
            p = fault_sweep(rng, api, ref, a, rng.choice(("line", "call")), 24, EXC_KINDS)
        elif kind == "conc":
            p = sweep_switch(rng, api, ref, a, "line", 16)
            share(rng, p)
            w.append("mid")
        else:
            p = free(rng, api, ref, a, "line", "random")
            share(rng, p)
            w.append("mid")
        p["kind"] = kind
        p["watch"] = w
        p["env"] = {"warn": "always"}
        return budget(ref, p)
    if prop == "C05":
        kind = turn(("look", "faults", "cold", "seq", "conc", "look", "werror"), rnd + off + rng.randrange(2))
        a = (warned(rng, api, ref, key) if rng.random() < .3 else None) or pick_op(rng, api, ref, key)
        st = nsteps(ref, a)
        if st > 3000 and kind in ("faults", "conc"):
            kind = "look"
        w = ["ambient"]
        if kind == "cold":
            p = cold(rng, api, ref, a, 10 if st < 3000 else 3, "fault", "line")
        elif kind == "look":
            fl = [{"t": 0, "i": 0, "ev": k, "kind": "look"} for k in points(rng, st, 70)]
            b = companion(rng, api, ref, a)
            fl += [{"t": 0, "i": 1, "ev": k, "kind": "look"} for k in points(rng, nsteps(ref, b), 20)]
            p = {"tasks": [[{"call": a}, {"call": b}, {"call": a}]], "gran": "line", "faults": fl}
        elif kind == "faults":
            p = fault_sweep(rng, api, ref, a, rng.choice(("line", "call")), 20, EXC_KINDS)
        elif kind == "seq":
            p = history(rng, api, ref, a, 10 if st < 3000 else 3)
        elif kind == "conc":
            p = sweep_switch(rng, api, ref, a, "line", 16)
            w.append("mid")
        else:
            b = companion(rng, api, ref, a)
            p = {"tasks": [[{"env": {"warn": "error"}}, {"call": a}, {"call": b}, {"env": {"np_err": {"all": "raise"}}}, {"call": a},
                            {"call": b}]], "gran": "line"}
        p["kind"] = kind
        p["watch"] = w
        p["env"] = dict({"warn": "always"}, **swarm_env(rng))
        return budget(ref, p)
    if prop == "C06":
        a = warned(rng, api, ref, key) or pick_op(rng, api, ref, key)
        st = nsteps(ref, a)
        kind = turn(("sweep", "history", "cold", "random", "default", "error", "nested", "faults", "hook"), rnd + off + rng.randrange(3))
        mm = 20 if st < 2000 else 5
        if kind == "cold":
            p = cold(rng, api, ref, a, 8 if st < 2000 else 3, rng.choice(("switch", "fault", "reenter")))
        elif kind == "sweep":
            p = sweep_switch(rng, api, ref, a, "line" if st > 300 else g, mm)
            warny(rng, api, ref, p, key)
        elif kind == "history":
            p = history(rng, api, ref, a, rng.choice((6, 12)) if st < 2000 else 4)
            warny(rng, api, ref, p, key)
        elif kind == "faults":
            p = fault_sweep(rng, api, ref, a, rng.choice(("line", "call")), mm, EXC_KINDS)
        elif kind == "random":
            p = free(rng, api, ref, a, g, rng.choice(("random", "pct")))
        elif kind == "nested":
            p = sweep_nested(rng, api, ref, a, "line", mm, rng.choice(("reenter", "signal")))
        elif kind == "hook":
            p = history(rng, api, ref, a, 8 if st < 2000 else 4)
            warn_hook(rng, api, ref, p, a, n=4)
        elif kind == "default":
            if rng.random() < .5:
                p = history(rng, api, ref, a, 8 if st < 2000 else 4)
            else:
                p = free(rng, api, ref, a, "line", "random")
            warny(rng, api, ref, p, key)
        else:
            p = history(rng, api, ref, a, 8 if st < 2000 else 4)
            warny(rng, api, ref, p, key)
        p["kind"] = kind
        p["env"] = {"warn": {"default": "default", "error": "error"}.get(kind, "always")}
        if kind in ("history", "faults", "error") and len(p["tasks"]) == 1 and rng.random() < .5:
            how = rng.choice((("rec",), ("hook",), ("rec", "hook")))
            for s in p["tasks"][0]:                  # the caller records warnings, or has a new hook, for some calls
                if "call" in s and rng.random() < .4:
                    s[rng.choice(how)] = 1
        return budget(ref, p)
    if prop == "C10":
        a = pick_op(rng, api, ref, key)
        st = nsteps(ref, a)
        kind = turn(("stall", "kill", "cold", "random", "fork", "stall", "cold", "forkstall", "pct", "stall"), rnd + off + rng.randrange(2))
        bs = [a] + [companion(rng, api, ref, a) for _ in range(2)]
        if kind == "cold":
            p = cold(rng, api, ref, a, 8 if st < 3000 else 3, rng.choice(("stall", "stall", "fault", "fork")))
        elif kind in ("stall", "kill", "forkstall"):
            ks = points(rng, st, 10 if st < 3000 else 3)
            if len(ks) > 10:
                ks = sorted(rng.sample(ks, 10))
            tasks, fl, sw = [], [], []
            for t, k in enumerate(ks):
                tasks.append([{"call": rng.choice((a, a, gen_same(rng, api, ref, a)))}])
                fl.append({"t": t, "i": 0, "ev": k, "kind": "stall" if kind != "kill" else rng.choice(EXC_KINDS)})
            n = len(tasks)
            tasks.append([{"call": b} for b in bs] + [{"call": a}])
            if kind == "forkstall":
                for i in range(len(tasks[n])):
                    s2 = nsteps(ref, tasks[n][i]["call"])
                    fl.append({"t": n, "i": i, "ev": rng.randrange(1, max(2, s2)), "kind": "fork", "ops": [rng.choice(bs)]})
                del tasks[n][2:]
                fl = [f for f in fl if f["t"] != n or f["i"] < 2]
            p = {"tasks": tasks, "gran": "line", "faults": fl}
        elif kind == "fork":
            p = sweep_nested(rng, api, ref, a, "line", 4, "fork")
        else:
            p = free(rng, api, ref, a, g, kind)
        p["kind"] = kind
        p["env"] = {"warn": "always"}
        return budget(ref, p)
    raise KeyError(prop)


def gen_same(rng, api, ref, a):
    for _ in range(4):
        b = gen.twin(rng, api, a)
        if good(ref, b):
            return b
    return a


def warned(rng, api, ref, key):
    """A call of `key` that warns, if one is found quickly."""
    w = pool.get(api, key)["warned"]
    for i in range(8):
        if w and rng.random() < .6:
            op = pool.get(api, key)["ops"][rng.choice(w)]
        else:
            op = gen.make_op(rng, api, key, style=rng.choice(("scalar", "scalar", "arrays", "npscalar", None)))
        r = ref(op)
        if "bad" not in r and r["warns"]:
            return op
    return None


def wildop(rng, api, ref, key):
    for _ in range(4):
        op = gen.make_op(rng, api, key)
        for k in sorted(op["kw"]):
            if isinstance(op["kw"][k], float) and rng.random() < .4:
                op["kw"][k] = rng.choice((0.0, -op["kw"][k], 1e300, -1e-300, float("inf")))
        if good(ref, op):
            return op
    return None


def warny(rng, api, ref, p, key):
    """Replace some companions by calls that warn."""
    w = [x for x in (warned(rng, api, ref, key) for _ in range(2)) if x]
    if not w:
        return
    for t in p["tasks"]:
        for s in t:
            if "call" in s and rng.random() < .3 and len(p["tasks"]) == 1:
                s["call"] = rng.choice(w)
    if len(p["tasks"]) > 1 and p.get("switches"):
        for s in p["tasks"][1]:
            if rng.random() < .5:
                s["call"] = rng.choice(w)


def warn_hook(rng, api, ref, p, a, n=2):
    """The caller's warning hook itself makes toolbox calls, lets another thread run, or looks around."""
    fl = p.setdefault("faults", [])
    for t, steps in enumerate(p["tasks"]):
        for i, s in enumerate(steps):
            if "call" in s and rng.random() < .5:
                nw = len(ref(s["call"]).get("warns", ()))
                if nw:
                    b = companion(rng, api, ref, a)
                    if len(p["tasks"]) > 1 and rng.random() < .5 and p.get("sched"):
                        fl.append({"t": t, "i": i, "warn": rng.randrange(1, nw + 1), "kind": "switch",
                                   "to": rng.randrange(len(p["tasks"]))})
                    else:
                        fl.append({"t": t, "i": i, "warn": rng.randrange(1, nw + 1), "kind": "reenter", "op": b})


def share(rng, p):
    """Let calls of different threads use the same array objects."""
    shared, seen = {}, {}
    for t in p["tasks"]:
        for s in t:
            if "call" not in s:
                continue
            op = s["call"]
            kw = dict(op["kw"])
            for k, v in kw.items():
                if isinstance(v, dict) and ("a" in v or "lin" in v):
                    key = k + repr(v)
                    if key not in seen:
                        seen[key] = "s%d" % len(seen)
                        shared[seen[key]] = v
                    kw[k] = {"ref": seen[key]}
            s["call"] = dict(op, kw=kw)
    if shared:
        p["shared"] = shared


# ------------------------------------------------------------------ judging
def V(cls, text, **k):
    return dict(cls=cls, text=text, **k)


def describe(rec):
    return "%s (%s, task %d step %d)" % (rec["fn"], rec["how"], rec["t"], rec["i"])


def judge_value(rec, ref):
    """None or a reason why the outcome of this call is not what the call alone gives."""
    if "out" not in rec:
        return None
    r = ref(rec["op"])
    if "bad" in r:
        return None
    o, q = rec["out"], r["out"]
    if rec.get("ninj") and o[0] == "exc" and o[3]:
        return None                                     # the injected condition reached the caller
    if rec["wmode"] == "error" and r["warns"]:
        if o[0] == "exc" and not o[4]:
            return None
        # a value returned although a warning was to be raised is judged by C06; it must still be right
    if rec.get("np") and o[0] == "exc" and o[1] == "FloatingPointError":
        return None
    if o[0] != q[0]:
        return "%s instead of %s" % (shown(o), shown(q))
    if o[0] == "ok":
        return values.same(o[1], q[1])
    if o[1] != q[1] or o[2] != q[2]:
        return "%s instead of %s" % (shown(o), shown(q))
    return None


def shown(o):
    if o[0] == "ok":
        return "value " + values.show(o[1])
    return "%s(%s)" % (o[1], o[2][:80])


def judge_end(h, prog):
    e = h["end"] or {}
    if e.get("how") == "livelock" and isinstance(e.get("detail"), dict) and prog.get("soak"):
        return []                  # soak fillers have no reference; one of them may simply be long
    if e.get("how") in ("deadlock", "livelock", "hang"):
        return [V(e["how"], "%s: %s" % (e["how"], e.get("detail")))]
    return []


def judge(prop, prog, h, ref):
    out = []
    nc = {(t, i) for t, steps in enumerate(prog["tasks"]) for i, s in enumerate(steps) if s.get("nc")}
    recs = [r for r in h["recs"] if "out" in r and not (r["how"] == "call" and (r["t"], r["i"]) in nc)]
    for n in h["notes"]:
        if n["k"] == "harness":
            raise RuntimeError("harness: " + n["err"])
    if (h["end"] or {}).get("how") == "harness":
        raise RuntimeError("harness: %r" % (h["end"],))
    if prop in ("C01", "C02", "C03"):
        for r in recs:
            w = judge_value(r, ref)
            if w:
                if prop == "C03" and r.get("ninj") and r["out"][0] == "ok":
                    out.append(V("interrupted-wrong", "%s: interrupted call returned a wrong value: %s" % (describe(r), w), rec=r["fn"]))
                elif prop == "C03" and r.get("ninj"):
                    out.append(V("interrupted-masked", "%s: the interruption did not reach the caller: %s" % (describe(r), w), rec=r["fn"]))
                else:
                    out.append(V("value", "%s: %s" % (describe(r), w), rec=r["fn"]))
        out += judge_end(h, prog)
        for n in h["notes"]:
            if n["k"] == "fork_child" and prop == "C01":
                out.append(V("fork", "calls in a forked worker do not complete: %r" % (n["end"],)))
    elif prop == "C04":
        for n in h["notes"]:
            if n["k"] == "args":
                out.append(V("args", "%s: argument %s modified (%s): %s" % (n["fn"], n["arg"], n["when"], n["why"]), rec=n["fn"]))
            elif n["k"] == "results":
                out.append(V("results", "result of %s (task %d step %d) modified later (%s): %s" % (
                    n["fn"], n["t"], n["i"], n["when"], n["why"]), rec=n["fn"]))
        for r in recs:
            if r["out"][0] == "exc" and "read-only" in r["out"][2]:
                q = ref(r["op"])
                if "bad" not in q and q["out"][0] == "ok":
                    out.append(V("args", "%s: tries to write into a read-only argument" % describe(r), rec=r["fn"]))
    elif prop == "C05":
        for n in h["notes"]:
            if n["k"] == "ambient":
                out.append(V("ambient", "%s changed (%s) by %s" % ("; ".join("%s %s" % (a, b) for a, b in n["diff"]), n["when"],
                                                                  n.get("fn") or [w["fn"] for w in n.get("by", ())])))
    elif prop == "C06":
        mode = prog["env"].get("warn", "always")
        texts = set()
        want = set()
        for r in recs:
            q = ref(r["op"])
            if "bad" in q:
                continue
            if r["wmode"] == "error":
                if q["warns"]:
                    c, t = q["warns"][0]
                    o = r["out"]
                    if not (o[0] == "exc" and o[1] == c and o[2] == t):
                        out.append(V("warn-error", "%s: warnings are errors, but %s instead of raising %s(%s)" % (
                            describe(r), shown(o), c, t[:80]), rec=r["fn"]))
                continue
            if r.get("ninj"):
                k = len(r["warns"])
                if list(map(tuple, r["warns"])) != list(map(tuple, q["warns"][:k])):
                    out.append(V("warn", "%s: interrupted call gave other warnings: %r instead of %r" % (
                        describe(r), r["warns"][:3], q["warns"][:3]), rec=r["fn"]))
                continue
            got = list(map(tuple, r["warns"]))
            exp = list(map(tuple, q["warns"]))
            if mode == "default":
                texts |= set(got)
                want |= set(exp)
                continue
            if got != exp:
                out.append(V("warn", "%s: warnings %r instead of %r" % (describe(r), got[:3], exp[:3]), rec=r["fn"]))
        if mode == "default":
            for c, t in sorted(want - texts):
                out.append(V("warn-default", "warning never shown in the process: %s(%s)" % (c, t[:100])))
        for n in h["notes"]:
            if n["k"] == "stray_warning":
                out.append(V("warn-stray", "warning outside any call: " + n["text"][:100]))
    elif prop == "C10":
        out += judge_end(h, prog)
        for n in h["notes"]:
            if n["k"] == "blocked_by_stalled":
                out.append(V("blocked", "calls wait for a stalled caller: %r" % (n["who"],)))
            elif n["k"] == "fork_child":
                out.append(V("fork", "calls in a worker forked mid-call do not complete: %r" % (n["end"],)))
        for r in recs:
            q = ref(r["op"], prog.get("gran", "line"))
            if "bad" in q or r["how"] != "call":
                continue
            if r.get("vt", 0.0) > q["vt"] + 1e-6:
                out.append(V("waits", "%s: waited %.3g s of simulated time for other callers, %.3g s when alone" % (
                    describe(r), r["vt"], q["vt"]), rec=r["fn"]))
            if r["steps"] > 2 * q["steps"] + 60:
                out.append(V("slow", "%s: needed %d steps, %d when alone" % (describe(r), r["steps"], q["steps"]), rec=r["fn"]))
    return out
