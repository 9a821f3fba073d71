"""Coverage-guided choice of calls: a pool of calls per function, grouped by the toolbox lines of the tree under test they reach.

A pool is a pure function of (seed, function, tree): the calls are drawn from the seed and run once, one after the other,
in a fork of the pristine process.  Lines reached by exactly the same calls form a class; picking a class first and then a
call in it gives a rarely reached branch the same weight as the main path."""
import json
import os
import random
import sys
import warnings

import numpy as np

from . import gen, values, world, zygote

N, TWINS, MAXLINES = 90, 40, 6000
EXTRA, LINES = 700, 40000         # further tries, for functions with short calls: kept if they reach lines that few calls reach
_mem = {}


class TooLong(BaseException):
    pass


def survey(api, key, seed):
    """Runs in a fork: [(op, sorted line ids, warned)]."""
    rng = random.Random("pool/%d/%s" % (seed, key))
    warnings.simplefilter("always")
    seen = []
    warnings.showwarning = lambda *a, **k: seen.append(1)
    np.seterr(all="ignore")
    hit, left = set(), [0]

    def line(code, n):
        hit.add((code.co_name, code.co_firstlineno, n))
        left[0] -= 1
        if left[0] < 0:
            raise TooLong()
    mon, tool = sys.monitoring, 4
    mon.use_tool_id(tool, "pool")
    mon.register_callback(tool, mon.events.LINE, line)
    for c in world.CODES:
        mon.set_local_events(tool, c, mon.events.LINE)
    fn = gen.resolve(key)
    ops, cover, flags = [], [], []
    ids = {}
    count, total = {}, 0
    for i in range(N + TWINS + EXTRA):
        if i < N or not ops:
            op = gen.make_op(rng, api, key)
        elif i < N + TWINS:
            op = gen.twin(rng, api, rng.choice(ops))
        elif total > LINES:
            break
        else:
            op = redraw(rng, api, key, ops, cover, count)
        hit.clear()
        seen.clear()
        left[0] = MAXLINES
        try:
            kw = {k: values.build(v) for k, v in op["kw"].items()}
            fn(**kw)
        except TooLong:
            total += MAXLINES
            continue
        except Exception:                                                # noqa
            pass
        total += MAXLINES - left[0] + 20
        if i >= N + TWINS and not any(count.get(ids.get(h), 0) < 3 for h in hit):
            continue
        ops.append(op)
        cover.append(sorted(ids.setdefault(h, len(ids)) for h in sorted(hit)))
        flags.append(bool(seen))
        for l in cover[-1]:
            count[l] = count.get(l, 0) + 1
    by = {}
    for i, c in enumerate(cover):
        for l in c:
            by.setdefault(l, []).append(i)
    classes = sorted({tuple(v) for v in by.values()})
    return {"ops": ops, "classes": classes, "warned": [i for i, f in enumerate(flags) if f]}


def redraw(rng, api, key, ops, cover, count):
    """A fresh call, or one that reaches a rarely reached line with one or two of its arguments drawn again."""
    if rng.random() < .4:
        return gen.make_op(rng, api, key)
    rare = sorted(count, key=lambda l: (count[l], l))[:4]
    l = rng.choice(rare) if rare else None
    a = rng.choice([o for o, c in zip(ops, cover) if l in c] or ops)
    b = gen.make_op(rng, api, key, style=a.get("st"))
    kw = dict(a["kw"])
    for k in rng.sample(sorted(b["kw"]), min(len(b["kw"]), rng.choice((1, 1, 2)))):
        kw[k] = b["kw"][k]
    return dict(a, kw=kw)


def path(key):
    d = os.environ.get("DST_TMP")
    return os.path.join(d, "pool_" + key.replace(":", "-") + ".json") if d else None


def get(api, key):
    p = _mem.get(key)
    if p is not None:
        return p
    f = path(key)
    seed = getattr(api, "seed", 1)
    if f and os.path.exists(f):
        with open(f) as fh:
            p = json.load(fh)
        if p.pop("seed") != seed:
            p = None
    if p is None:
        try:
            p = zygote.run(survey, api, key, seed, timeout=60)
        except (zygote.Died, RuntimeError):
            p = {"ops": [], "classes": [], "warned": []}
        p = json.loads(json.dumps(p))
        if f:
            t = "%s.%d" % (f, os.getpid())
            with open(t, "w") as fh:
                json.dump(dict(p, seed=seed), fh)
            os.replace(t, f)
    _mem[key] = p
    return p


def pick(rng, api, key, ok=None):
    """A call of `key` from a uniformly chosen class, or None."""
    p = get(api, key)
    if not p["classes"]:
        return None
    for _ in range(4):
        op = p["ops"][rng.choice(rng.choice(p["classes"]))]
        if ok is None or ok(op):
            return op
    return None


def share(api, start, stride):
    """Surveys of this worker's part of the functions, so that the workers do not all do the same work."""
    for key in api.pure[start::stride]:
        get(api, key)
