"""Helpers run in a fresh process: python -m dst.tool replay FILE | minimise IN OUT."""
import json
import os
import sys


def module(prop, prog=()):
    if prop in ("C07", "C08") or prop < "C11" and prop != "C09" and "tree" in prog:
        from . import files as m
    elif prop == "C09":
        from . import imports as m
    elif prop == "C11":
        from . import envs as m
    else:
        from . import inproc as m
    return m


def main():
    what, path = sys.argv[1], sys.argv[2]
    d = json.load(open(path))
    from . import zygote
    api = zygote.start(load=d["property"] != "C09")
    m = module(d["property"], d["prog"])
    if what == "replay":
        vs, trace = m.replay(d, api)
        for l in trace:
            print(l)
        hit = [v for v in vs if v["cls"] == d["cls"]]
        for v in hit[:3]:
            print("=> " + v["text"])
        if hit:
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
        sys.stdout.flush()
        os._exit(1 if hit else 0)
    if what == "minimise":
        q, text, trace, tries = m.minimise(d, api)
        d.update(prog=q, text=text, trace=trace, minimiser_runs=tries)
        with open(sys.argv[3] + ".tmp", "w") as f:
            json.dump(d, f, indent=1)
        os.replace(sys.argv[3] + ".tmp", sys.argv[3])
        os._exit(0)


if __name__ == "__main__":
    main()
