"""Replay and minimisation of the in-process programs (C01-C06, C10)."""
from . import engine, scen


def replay(d, api):
    ref = engine.Ref()
    h = engine.execute(d["prog"], timeout=120)
    return scen.judge(d["property"], d["prog"], h, ref), engine.describe_prog(d["prog"])


def minimise(d, api):
    ref = engine.Ref()
    m = engine.Minimiser(d["property"], d["cls"], ref, 75)
    p = m.run(d["prog"])
    h = engine.execute(p)
    vs = [v for v in scen.judge(d["property"], p, h, ref) if v["cls"] == d["cls"]]
    return p, (vs[0]["text"] if vs else d["text"]), engine.describe_prog(p), m.tries
