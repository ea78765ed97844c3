#!/opt/venv/bin/python
"""Writes sa/members.json: attributes (and method signatures, where Python knows them) of the classes of the installed
libraries, and every attribute name any of them has (run once with the interpreter that runs the repository)."""
import importlib
import inspect
import json
import os
import pkgutil
import sys
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
LIB = json.load(open(os.path.join(HERE, "..", "sa", "library.json")))
SIGS = """builtins.str builtins.list builtins.dict builtins.set builtins.tuple builtins.int builtins.float builtins.bytes
numpy.ndarray pathlib.Path argparse.ArgumentParser logging.Logger prettytable.PrettyTable PIL.Image.Image
multiprocessing.pool.Pool collections.OrderedDict io.TextIOWrapper""".split()


def sig(o, drop):
    try:
        ps = list(inspect.signature(o).parameters.values())
    except (ValueError, TypeError):
        return None
    if drop:
        ps = ps[1:]
    return [[p.name, {p.POSITIONAL_ONLY: "po", p.POSITIONAL_OR_KEYWORD: "pk", p.VAR_POSITIONAL: "*",
                      p.KEYWORD_ONLY: "ko", p.VAR_KEYWORD: "**"}[p.kind],
             None if p.default is p.empty else ["?"]] for p in ps]


types, universe = {}, set()
for m, names in LIB.items():
    if names is None:
        continue
    mod = importlib.import_module(m)
    for n, e in names.items():
        if not isinstance(e, list) or e[0] != "class":
            continue
        o = getattr(mod, n)
        if not isinstance(o, type):
            continue
        try:
            d = dir(o)
        except BaseException:
            continue
        universe |= set(d)
for n in SIGS:
    m, _, k = n.rpartition(".")
    o = getattr(importlib.import_module(m), k)
    raw = {x: inspect.getattr_static(o, x) for x in dir(o)}
    types[n] = {x: sig(getattr(o, x), not isinstance(raw[x], (staticmethod, classmethod)))
                if callable(getattr(o, x, None)) else None for x in dir(o)}
seen = set()
for m in list(sys.modules.values()):
    try:
        vs = list(vars(m).values())
    except TypeError:
        continue
    for o in vs:
        if isinstance(o, type) and o not in seen:
            seen.add(o)
            try:
                universe |= set(dir(o))
                universe |= set(getattr(o, "__annotations__", ()) or ())
            except BaseException:
                pass
            try:
                src = inspect.getsource(o)
            except BaseException:
                continue
            import re
            universe |= set(re.findall(r"self\.([A-Za-z_]\w*)\s*(?::[^=\n]+)?=[^=]", src))
universe |= {x for m in sys.modules.values() for x in getattr(m, "__dict__", {}) if (m.__name__ or "").split(".")[0] in (
    "os", "sys", "time", "math", "re", "json")}
p = os.path.join(HERE, "..", "sa", "members.json")
json.dump(dict(types=types, universe=sorted(x for x in universe if x.isidentifier())), open(p, "w"),
          separators=(",", ":"), sort_keys=True)
print(os.path.getsize(p), len(universe), {k: len(v) for k, v in types.items()})
