"""Warm batches: very many programs in one simulated process.

The programs are those of scen.py, but they run one after the other in a single forked process and are judged against
calls made earlier in that same process, so a batch needs one fork instead of one per program and per reference call.
That makes a batch a cheap search, not a verdict: what looks wrong is run again by the ordinary engine from a pristine
process (alone, and after the calls that preceded it) and judged against pristine reference calls; only that counts."""
import json
import random
import sys
import warnings

from . import ambient, engine, gen, pool, scen, values, world, zygote

EVENTS = {"C04": 120000}        # events per batch, about
KEEP = 1500                     # how many preceding calls are kept for the second confirmation


class HereRef:
    """Reference calls made in this process, once per distinct call."""

    def __init__(self, log):
        self.memo, self.log, self.calls = {}, log, 0

    def __call__(self, op, gran="line"):
        c = engine.canon_op(op)
        k = gran + json.dumps(c, sort_keys=True)
        r = self.memo.get(k)
        if r is None:
            self.calls += 1
            r = self.memo[k] = world.reference(c, gran, limit=30000 if gran == "line" else 400000)
            if "bad" not in r and gran == "line":
                self.log.append(c)
        return r


def batch(prop, api, j, seed, first, n):
    """Runs in a fork."""
    scen.WARM = True
    log = []
    ref = HereRef(log)
    st = engine.Stats()
    ambient.plain()
    most = EVENTS.get(prop, 800000)
    for i in range(first, first + n):
        try:
            p = scen.make(prop, j + len(api.pure) * i, seed, api, ref)
        except scen.Skip:
            st.skipped += 1
            continue
        p["kind"] = "warm:" + p.get("kind", "?")
        cost = p["limit"] // 3 - 6000                # about the number of events
        if st.events + cost > most * (i - first + 4) / n and st.runs:
            st.skipped += 1
            continue
        before = len(log)
        h = world.run_program(p)
        ambient.reset()
        v = scen.judge(prop, p, h, ref)
        st.add(p, h)
        if v:
            return {"stats": st.dump(), "suspect": {"prog": engine.explicit(p, h), "cls": v[0]["cls"], "text": v[0]["text"],
                                                    "log": log[:before][-KEEP:]}}
        if (h["end"] or {}).get("how") != "done":
            break
        log += [r["op"] for r in h["recs"] if "out" in r and not r.get("ninj")]
    return {"stats": st.dump()}


# ------------------------------------------------------------------ the same calls in two orders
class TooLong(BaseException):
    pass


def in_order(ops):
    """Runs in a fork: outcome and warnings of each call, made one after the other in this process."""
    warnings.resetwarnings()
    warnings.simplefilter("always")
    got, left, out = [], [0], []
    warnings.showwarning = lambda m, c, *a, **k: got.append((c.__name__, values.scrub(str(m))))

    def line(code, n):
        left[0] -= 1
        if left[0] < 0:
            raise TooLong()
    mon, tool = sys.monitoring, 4
    mon.use_tool_id(tool, "orders")
    mon.register_callback(tool, mon.events.LINE, line)
    for c in world.CODES:
        mon.set_local_events(tool, c, mon.events.LINE)
    for op in ops:
        kw = {k: values.build(v) for k, v in op["kw"].items()}
        al = op.get("alias")
        if al and al[0] in kw and al[1] in kw:
            kw[al[1]] = kw[al[0]]
        fn = gen.resolve(op["fn"])
        got.clear()
        left[0] = 6000
        try:
            o = ("ok", values.encode(fn(**kw)))
        except TooLong:
            o = None
        except BaseException as e:                                       # noqa: the outcome, whatever it is
            o = ("exc", type(e).__name__, values.scrub(str(e)))
        out.append((o, list(got)))
    return out


def tiny(rng, op):
    """Calls that differ from op by almost nothing."""
    out = []
    for k in sorted(op["kw"]):
        v = op["kw"][k]
        d = rng.choice((3e-9, -4e-7, 3e-6, 2e-5, 4e-4, 3e-3, 0.04))
        if isinstance(v, float) and v == v:
            out.append(dict(op, kw=dict(op["kw"], **{k: v + d})))
        elif isinstance(v, dict) and v.get("a") and v.get("dt", "float64") == "float64" and all(isinstance(x, float) for x in v["a"]):
            a = list(v["a"])
            a[rng.randrange(len(a))] += d
            out.append(dict(op, kw=dict(op["kw"], **{k: dict(v, a=a)})))
    for o in out:
        o.pop("alias", None)
    return rng.sample(out, min(4, len(out)))


def order_ops(api, keys, seed, r, n):
    rng = random.Random("orders/%d/%s/%d" % (seed, ",".join(keys[:3]), r))
    ops = []
    while len(ops) < n:
        key = rng.choice(keys)
        a = pool.pick(rng, api, key) or gen.make_op(rng, api, key)
        ops.append(a)
        if len(keys) == 1:
            ops += [gen.twin(rng, api, a) for _ in range(3)] + tiny(rng, a)
            if rng.random() < .2:
                ops.append(gen.make_op(rng, api, rng.choice(api.by_module[key.split(":")[0]])))
    seen, out = set(), []
    for o in ops:
        o = engine.canon_op(o)
        k = json.dumps(o, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(o)
    rng.shuffle(out)
    return out


def unlike(prop, a, b):
    if a[0] is None or b[0] is None:
        return False
    if prop == "C06":
        return a[1] != b[1]
    if a[0][0] != b[0][0]:
        return True
    return values.same(a[0][1], b[0][1]) is not None if a[0][0] == "ok" else a[0] != b[0]


def orders(prop, api, ref, seed, keys, r, n, st):
    """None, or (program, history, violations): calls whose outcome depends on which calls came before."""
    ops = order_ops(api, keys, seed, r, n)
    try:
        x = zygote.run(in_order, ops, timeout=150)
        y = zygote.run(in_order, ops[::-1], timeout=150)[::-1]
    except zygote.Died:
        st.warm["orders that did not end"] = st.warm.get("orders that did not end", 0) + 1
        return None
    st.warm["calls made in two orders"] = st.warm.get("calls made in two orders", 0) + len(ops)
    tries = 0
    for i, (a, b) in enumerate(zip(x, y)):
        if unlike(prop, a, b):
            tries += 1
            if tries > 3:
                break
            for hist in (ops[:i], ops[:i:-1]):
                p = {"tasks": [[{"call": ops[i]}]], "gran": "line", "env": {"warn": "always"}, "kind": "orders"}
                bad = {json.dumps(o, sort_keys=True) for o, u in zip(ops, x) if u[0] is None}
                p = after(scen.budget(ref, p) if "bad" not in ref(ops[i]) else dict(p, limit=400000),
                          [o for o in hist if json.dumps(o, sort_keys=True) not in bad])
                p["limit"] += 7000 * len(hist)
                h = engine.execute(p)
                vs = scen.judge(prop, p, h, ref)
                if vs and (h["end"] or {}).get("how") != "hang":
                    return p, h, vs
            st.warm["suspicions not confirmed"] = st.warm.get("suspicions not confirmed", 0) + 1
    return None


def after(prog, ops):
    """prog with the given calls made first, by task 0."""
    n = len(ops)
    p = dict(prog)
    p["tasks"] = [[{"call": o, "nc": 1} for o in ops] + prog["tasks"][0]] + prog["tasks"][1:]
    p["switches"] = [[t, i + n if t == 0 and i >= 0 else i, ev, to] for t, i, ev, to in prog.get("switches", ())]
    p["faults"] = [dict(f, i=f["i"] + n) if f["t"] == 0 else f for f in prog.get("faults", ())]
    p["limit"] = prog.get("limit", 2000000) * 3 + 4000000
    p["soak"] = 1
    if p.pop("first", 0):
        p["switches"] = [[0, n, 0, prog["first"]]] + p["switches"]
    return p


def confirm(prop, sus, ref):
    """(program, history, violations) of the suspect run from a pristine process, or None."""
    cands = [sus["prog"]] + [after(sus["prog"], sus["log"][-k:]) for k in (40, KEEP) if sus["log"]]
    for p in cands:
        h = engine.execute(p)
        vs = scen.judge(prop, p, h, ref)
        if vs and (h["end"] or {}).get("how") != "hang":
            return p, h, vs
    return None


def run(prop, api, ref, seed, keys, per, emit, st, over):
    """All warm batches of this worker; True when a violation was found."""
    size = 20
    if prop in ("C02", "C06") and per:
        k = max(1, per // 60)
        todo = [([api.pure[j]], r, 500) for r in range(k) for j in keys] + [(api.pure, 100 * keys.start + r, 1200) for r in range(2 * k)]
        for fns, r, n in todo:
            if over():
                break
            c = orders(prop, api, ref, seed, fns, r, n, st)
            if c:
                emit(violation={"idx": r, "cls": c[2][0]["cls"], "text": c[2][0]["text"], "n": len(c[2]),
                                "prog": engine.explicit(c[0], c[1])})
                return True
    for first in range(0, per, size):
        for j in keys:
            if over():
                return False
            try:
                out = zygote.run(batch, prop, api, j, seed, 1000 + first, min(size, per - first), timeout=150)
            except zygote.Died:
                st.warm["batches that did not end"] = st.warm.get("batches that did not end", 0) + 1
                continue
            st.merge(out["stats"])
            st.warm["batches"] = st.warm.get("batches", 0) + 1
            s = out.get("suspect")
            if s:
                c = confirm(prop, s, ref)
                if c:
                    emit(violation={"idx": j, "cls": c[2][0]["cls"], "text": c[2][0]["text"], "n": len(c[2]),
                                    "prog": engine.explicit(c[0], c[1])})
                    return True
                st.warm["suspicions not confirmed"] = st.warm.get("suspicions not confirmed", 0) + 1
                if len(st.warm.setdefault("unconfirmed", [])) < 3:
                    st.warm["unconfirmed"].append(s["text"][:300])
    return False
