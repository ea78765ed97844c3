#!/opt/venv/bin/python
"""Writes sa/library.json: names and signatures of the installed third-party and standard
libraries (run once with the interpreter that runs the repository)."""
import importlib
import inspect
import json
import os
import types
import warnings

warnings.simplefilter("ignore")
MODS = """builtins os os.path sys json re math time copy glob shutil argparse collections collections.abc functools
itertools operator warnings logging pathlib string datetime random multiprocessing abc types typing enum
contextlib io pickle tempfile subprocess csv struct numbers inspect traceback textwrap
numpy numpy.linalg numpy.random numpy.ma numpy.lib numpy.lib.stride_tricks numpy.fft numpy.testing
scipy scipy.ndimage scipy.signal scipy.io scipy.interpolate scipy.sparse scipy.spatial scipy.ndimage.morphology
cv2 PIL PIL.Image PIL.ImageOps PIL.ImageDraw PIL.ImageFilter PIL.ImageColor matplotlib matplotlib.pyplot matplotlib.cm matplotlib.colors
skimage skimage.io skimage.util skimage.morphology skimage.transform skimage.segmentation skimage.measure
tqdm prettytable cityscapesscripts cityscapesscripts.preparation cityscapesscripts.preparation.json2labelImg
cityscapesscripts.helpers cityscapesscripts.helpers.labels cityscapesscripts.preparation.json2instanceImg torch yaml""".split()


def const(v):
    return v is None or isinstance(v, (bool, int, float, str))


out = {}
for m in MODS:
    try:
        mod = importlib.import_module(m)
    except BaseException:
        out[m] = None
        continue
    names = {}
    for n in dir(mod):
        try:
            o = getattr(mod, n)
        except BaseException:
            continue
        if isinstance(o, types.ModuleType):
            names[n] = "module:" + o.__name__
            continue
        sig = None
        if callable(o):
            try:
                ps = list(inspect.signature(o).parameters.values())
                sig = [[p.name, p.kind.name[:3] if p.kind != p.KEYWORD_ONLY else "KEY",
                        (["v", p.default] if const(p.default) else ["?"]) if p.default is not p.empty else None]
                       for p in ps]
                for s, p in zip(sig, ps):
                    s[1] = {p.POSITIONAL_ONLY: "po", p.POSITIONAL_OR_KEYWORD: "pk", p.VAR_POSITIONAL: "*",
                            p.KEYWORD_ONLY: "ko", p.VAR_KEYWORD: "**"}[p.kind]
            except (ValueError, TypeError):
                pass
        kind = "class" if isinstance(o, type) else "fn" if callable(o) else "value"
        names[n] = [kind, sig]
        if isinstance(o, type) and (o.__module__ or "").split(".")[0] in ("enum", "PIL") or m == "PIL.Image" and kind == "class":
            names[n].append(sorted(x for x in dir(o) if not x.startswith("_")))
    out[m] = names
    if hasattr(mod, "__getattr__"):
        names["__dynamic__"] = True
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa", "library.json")
json.dump(out, open(p, "w"), separators=(",", ":"), sort_keys=True)
print(os.path.getsize(p), [m for m in out if out[m] is None])
