"""JSON-able descriptions of argument values, how to build them, and how results are encoded and compared.

A value description is one of
  plain JSON scalar (float, int, bool, str, None)
  {"np": "float32", "v": 1.5}                       numpy scalar
  {"a": [...], "dt": "float64", "sh": [n,..], "lay": "C"}   array; lay: C, F, str (strided), rev (negative stride),
                                                    ro (read-only), off (unaligned-offset view of a larger buffer)
  {"lin": [lo, hi, n, bump], "lay": ..}             large array, n points from lo to hi, wiggled by bump
  {"list": [...]}, {"tup": [...]}, {"ser": [...]}   python list / tuple / pandas Series
  {"ref": "name"}                                   caller-owned shared object of the running program
"""
import math
import re

import numpy as np

NAN = float("nan")


# labels of the rows of a pandas Series: a selection of a larger table, sorted the other way, named cases, equal labels
INDEX = {"part": lambda i, n: 2 * i + 5, "down": lambda i, n: n - 1 - i, "names": lambda i, n: "case %d" % i, "equal": lambda i, n: i // 2}


def build(v, shared=None):
    if isinstance(v, dict):
        if "ref" in v:
            return shared[v["ref"]]
        if "np" in v:
            return np.dtype(v["np"]).type(v["v"])
        if "list" in v:
            return [build(x, shared) for x in v["list"]]
        if "tup" in v:
            return tuple(build(x, shared) for x in v["tup"])
        if "ser" in v:
            import pandas as pd
            ix = v.get("ix")
            return pd.Series(v["ser"], index=None if not ix else [INDEX[ix](i, len(v["ser"])) for i in range(len(v["ser"]))],
                             name=v.get("name"))
        if "lin" in v:
            lo, hi, n, bump = v["lin"]
            a = np.linspace(lo, hi, int(n))
            if bump:
                a = a + bump * np.sin(np.arange(int(n)) * 12.9898)
            if v.get("hole") is not None:          # change a single element in the middle
                a[v["hole"][0] % len(a)] = v["hole"][1]
            return layout(a.astype(v.get("dt", "float64")), v.get("lay", "C"))
        if "a" in v:
            a = np.array(v["a"], dtype=v.get("dt", "float64"))
            if "sh" in v:
                a = a.reshape(v["sh"])
            return layout(a, v.get("lay", "C"))
        raise ValueError("bad value description %r" % (v,))
    return v


def layout(a, lay):
    if lay == "C" or a.ndim == 0 and lay != "ro":
        return a
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "str":
        big = np.full(tuple(2 * s for s in a.shape), -7.25, dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if lay == "rev":
        b = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
        return b[tuple(slice(None, None, -1) for _ in a.shape)]
    if lay == "ro":
        a = a.copy()
        a.flags.writeable = False
        return a
    if lay == "off":
        raw = np.zeros(a.nbytes + 3, dtype=np.uint8)
        v = raw[3:].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    raise ValueError(lay)


def canonical(v):
    """The same value in writeable layout (used for the reference call)."""
    if isinstance(v, dict):
        if v.get("lay") == "ro":
            v = dict(v)
            v["lay"] = "C"
        for k in ("list", "tup"):
            if k in v:
                return {k: [canonical(x) for x in v[k]]}
    return v


# ---------------------------------------------------------------- results
def encode(x, depth=0):
    """A picklable, comparable image of a result."""
    if depth > 6:
        return ("deep", str(type(x)))
    if x is None or isinstance(x, (bool, str, bytes)):
        return ("s", x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", x.shape, [encode(y, depth + 1) for y in x.ravel().tolist()])
        return ("nd", str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return ("ng", str(x.dtype), x.item())
    if isinstance(x, (int, float, complex)):
        return ("n", type(x).__name__, x)
    if isinstance(x, dict):
        return ("d", [(encode(k, depth + 1), encode(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("l", type(x).__name__, [encode(y, depth + 1) for y in x])
    t = type(x).__module__ + "." + type(x).__name__
    if t.startswith("pandas"):
        return ("pd", t, ("l", "list", [("s", repr(i)) for i in getattr(x, "index", ())]), encode(np.asarray(x), depth + 1))
    return ("o", t, scrub(repr(x)))


def scrub(s):
    s = re.sub(r"0x[0-9a-fA-F]+", "0x", s)
    return s


RTOL = 1e-12


def close(a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        return close(complex(a).real, complex(b).real) and close(complex(a).imag, complex(b).imag)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a == b:
        return True
    if math.isnan(a) and math.isnan(b):
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= RTOL * max(abs(a), abs(b))


def same(a, b):
    """None if the encoded values agree, else a short reason."""
    if a == b:
        return None
    if a[0] != b[0]:
        return "%s instead of %s" % (show(a), show(b))
    k = a[0]
    if k == "nd":
        if a[1] != b[1] or tuple(a[2]) != tuple(b[2]):
            return "array %s%s instead of %s%s" % (a[1], a[2], b[1], b[2])
        x, y = np.frombuffer(a[3], a[1]), np.frombuffer(b[3], b[1])
        if x.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (
                    np.isfinite(x) & np.isfinite(y) & (np.abs(x - y) <= RTOL * np.maximum(np.abs(x), np.abs(y))))
        else:
            ok = x == y
        if ok.all():
            return None
        i = int(np.argmin(ok))
        return "element %d is %r instead of %r" % (i, x[i].item(), y[i].item())
    if k == "n":
        if a[1] != b[1]:
            return "%s instead of %s" % (show(a), show(b))
        return None if close(a[2], b[2]) else "%r instead of %r" % (a[2], b[2])
    if k == "ng":
        if a[1] != b[1]:
            return "%s instead of %s" % (show(a), show(b))
        if isinstance(a[2], (int, float, complex)) and isinstance(b[2], (int, float, complex)):
            return None if close(a[2], b[2]) else "%r instead of %r" % (a[2], b[2])
        return "%r instead of %r" % (a[2], b[2])
    if k == "d":
        if len(a[1]) != len(b[1]):
            return "dict of %d entries instead of %d" % (len(a[1]), len(b[1]))
        for (ka, va), (kb, vb) in zip(a[1], b[1]):
            if ka != kb:
                return "key %s instead of %s" % (show(ka), show(kb))
            r = same(va, vb)
            if r:
                return "entry %s: %s" % (show(ka), r)
        return None
    if k in ("l", "obj"):
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return "%s instead of %s" % (show(a), show(b))
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            r = same(x, y)
            if r:
                return "item %d: %s" % (i, r)
        return None
    if k == "pd":
        return None if a[1] == b[1] and a[2] == b[2] and not same(a[3], b[3]) else "%s instead of %s" % (show(a), show(b))
    return "%s instead of %s" % (show(a), show(b))


def show(e):
    try:
        if e[0] == "nd":
            x = np.frombuffer(e[3], e[1])
            return "array%s%s" % (tuple(e[2]), x[:6].tolist())
        return repr(e[1:])[:160]
    except Exception:
        return repr(e)[:160]
