"""Worker process: python -m dst.worker PROP SEED START STRIDE COUNT DEADLINE_S  -> JSON lines on fd 3."""
import json
import os
import sys
import time
import traceback


def main():
    prop, seed, start, stride, count, limit = sys.argv[1], *map(int, sys.argv[2:7])
    out = os.fdopen(int(os.environ["DST_OUT_FD"]), "w")

    def emit(**k):
        out.write(json.dumps(k) + "\n")
        out.flush()

    try:
        t0 = time.monotonic()
        if prop in ("C07", "C08"):
            from . import files as mod
        elif prop == "C09":
            from . import imports as mod
        elif prop == "C11":
            from . import envs as mod
        else:
            mod = None
        from . import zygote
        api = zygote.start(load=prop != "C09")
        from . import engine, pool, scen, warm
        if api is not None:
            api.seed = seed
            if prop not in ("C07", "C08"):
                pool.share(api, start, stride)
        if mod is not None:
            mod.worker(prop, seed, start, stride, count, t0 + limit, api, emit)
            emit(done=1)
            return
        ref = engine.Ref()
        st = engine.Stats()
        trouble = []
        if warm.run(prop, api, ref, seed, range(start, len(api.pure), stride), int(os.environ.get("DST_WARM", "0")), emit, st,
                    lambda: time.monotonic() - t0 > limit * .6):
            count = 0
        for idx in range(start, count, stride):
            if time.monotonic() - t0 > limit:
                emit(timeout=idx)
                break
            bad = False
            try:
                for prog, h, vs in engine.one(prop, idx, seed, api, ref):
                    st.add(prog, h)
                    if vs:
                        emit(violation={"idx": idx, "cls": vs[0]["cls"], "text": vs[0]["text"], "n": len(vs),
                                        "prog": engine.explicit(prog, h)})
                        bad = True
                        break
            except scen.Skip:
                st.skipped += 1
            except Exception as e:                                        # noqa: one program the harness cannot run
                trouble.append("program %d: %s" % (idx, "".join(traceback.format_exception(e))[-1500:]))
                if len(trouble) > 3 + (idx - start) / stride * .05:
                    raise
            if bad:
                count = 0
                break
        st.refs = ref.calls
        emit(stats=dict(st.dump(), trouble=trouble))
        n = int(os.environ.get("DST_WRITERS", "0"))
        if count and n:
            from . import files
            files.worker(prop, seed, start, stride, n, t0 + limit * 1.3, api, emit)
        emit(done=1)
    except BaseException as e:                                            # noqa
        emit(error="".join(traceback.format_exception(e))[-4000:])


if __name__ == "__main__":
    main()
    os._exit(0)
