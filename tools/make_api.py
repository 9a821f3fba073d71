#!/opt/venv/bin/python
"""Writes dst/api.json: the public interface of the pinned tree (function -> parameter names).  Calls are generated for these only."""
import importlib, inspect, json, os, pkgutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("DST_REPO", "/repo"))
PKG = "deltares_coastal_structures_toolbox"
root = importlib.import_module(PKG)
out = {}
mods = sorted(x.name for x in pkgutil.walk_packages(root.__path__, PKG + "."))
for m in mods:
    mod = importlib.import_module(m)
    for k, f in sorted(vars(mod).items()):
        if inspect.isfunction(f) and f.__module__ == m and not k.startswith("_"):
            out[m[len(PKG) + 1:] + ":" + k] = list(inspect.signature(f).parameters)
tables = {}
for m in mods:
    mod = importlib.import_module(m)
    for k, v in sorted(vars(mod).items()):
        if not k.startswith("_") and isinstance(v, (dict, list, tuple, str, float, int)):
            tables[m[len(PKG) + 1:] + ":" + k] = type(v).__name__
json.dump({"modules": mods, "functions": out, "data": tables}, open(os.path.join(HERE, "dst", "api.json"), "w"), indent=0, sort_keys=True)
print(len(mods), len(out), len(tables))
