"""Names and signatures of the libraries installed where the repository runs (library.json,
written by tools/mklib.py)."""
import json
import os

_D = None


def table():
    global _D
    if _D is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "library.json")) as f:
            _D = json.load(f)
    return _D


def entry(dotted):
    """table entry of a dotted name: None when it is not in the table, "missing" when the
    module is known and does not define it"""
    t = table()
    mod, _, nm = dotted.rpartition(".")
    while mod:
        names = t.get(mod)
        if names is not None:
            rest = nm.split(".")
            e = names.get(rest[0])
            if e is None:
                return None if "__dynamic__" in names and len(rest) > 1 else "missing"
            if isinstance(e, str) and len(rest) > 1:
                return entry(e[7:] + "." + ".".join(rest[1:])) if e[7:] in t else None
            if len(rest) > 1:
                if len(e) > 2:
                    return ["member", None] if rest[1] in e[2] else "missing"
                return None
            return e
        if mod in t:
            return None
        mod, _, x = mod.rpartition(".")
        nm = x + "." + nm
    return None


def signature(dotted):
    e = entry(dotted)
    if not isinstance(e, list) or len(e) < 2:
        return None
    return e[1]


def member_values(dotted):
    e = entry(dotted)
    return e[2] if isinstance(e, list) and len(e) > 2 else None
