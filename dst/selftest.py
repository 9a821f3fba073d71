"""Determinism self-test: python -m dst.selftest PROP SEED START STRIDE COUNT -> one digest line per program.

Each program is run twice (the complete event logs must agree) and once more with every scheduling decision written
down explicitly (the calls and their outcomes must agree, so a replay file stands for the seed)."""
import hashlib
import sys


def main():
    prop, seed, start, stride, count = sys.argv[1], *map(int, sys.argv[2:6])
    from . import zygote
    from .tool import module
    api = zygote.start(load=prop != "C09")
    if api is not None:
        api.seed = seed
    m = module(prop)
    from . import engine, scen
    bad = n = 0
    if prop in ("C07", "C08"):
        m.prepare()
        ref = m.FRef()
        make, execute, expl = m.make, m.execute, m.explicit
    elif prop in ("C09", "C11"):
        ref = m.setup(api)
        make, execute, expl = m.make, m.execute, m.explicit
    else:
        ref = engine.Ref()
        make, execute, expl = scen.make, engine.execute, engine.explicit

    def outcome(h):
        return repr(([(r["t"], r["i"], r["fn"], r["how"], r.get("out"), r["warns"]) for r in h["recs"]], h["notes"], h["end"]))
    for idx in range(start, count, stride):
        try:
            prog = make(prop, idx, seed, api, ref)
        except scen.Skip:
            continue
        for prog in prog.get("subs", [prog]):
            h1, h2 = execute(prog), execute(prog)
            h3 = execute(expl(prog, h1))
            d1, d2 = engine.log_digest(h1), engine.log_digest(h2)
            n += 1
            ok = d1 == d2 and outcome(h1) == outcome(h3)
            bad += not ok
            print(prop, idx, d1[:24], "same" if d1 == d2 else "DIFFERS", "explicit-same" if outcome(h1) == outcome(h3) else "EXPLICIT-DIFFERS",
                  prog.get("kind"), flush=True)
    print("%d programs, %d not reproduced" % (n, bad))


if __name__ == "__main__":
    main()
