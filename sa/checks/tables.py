"""C18: the class lists and label tables of the datasets agree."""
from ..core import *
from .. import terms as X
from ..terms import const, num
from . import jobs
from .jobs import EVS, TITLE, MULTI, LABELS, N_of, Lost, job, where, each, closed, commands, category_texts

DATA = "pyEdgeEval.datasets."
CITY_NAMES = ("road", "sidewalk", "building", "wall", "fence", "pole", "traffic light", "traffic sign", "vegetation",
              "terrain", "sky", "person", "rider", "car", "truck", "bus", "train", "motorcycle", "bicycle")
VOC_NAMES = ("aeroplane", "bicycle", "bird", "boat", "bottle", "bus", "car", "cat", "chair", "cow", "dining table",
             "dog", "horse", "motor bike", "person", "potted plant", "sheep", "sofa", "train", "tv/monitor")
# labels, label -> class, class names, labels of the evaluated instance classes, labels that may carry instances
SETS = {
    "CITYSCAPES": (list(range(34)), dict(zip(LABELS, range(19))), CITY_NAMES, [24, 25, 26, 27, 28, 31, 32, 33],
                   range(24, 34), "cityscapes_attributes"),
    "SBD": (list(range(22)), {v: v - 1 for v in range(1, 21)}, VOC_NAMES, list(range(1, 21)), range(1, 21),
            "sbd_attributes"),
}


def value(r, t):
    """Python value of a constant term."""
    t = r.I.deep(r.st, t)
    if t.op in ("num", "str"):
        return t.a[0]
    if t.op in ("dict", "odict"):
        return {value(r, k): value(r, v) for k, v in zip(t.a[::2], t.a[1::2])}
    n = X.length(t)
    if n.op != "num":
        raise Lost("table not constant: " + X.pretty(t)[:80])
    return [value(r, X.index(t, num(k))) for k in range(n.a[0])]


def plain(s):
    """A class name without the separator between its words."""
    return s.lower().replace("_", " ").replace("-", " ") if isinstance(s, str) else s


def differ(got, want):
    """First difference between two tables, in words."""
    if isinstance(want, dict):
        for k in list(want) + [k for k in got if k not in want]:
            if k not in got:
                return f"{k} is missing"
            if k not in want:
                return f"{k} is listed"
            if plain(got[k]) != plain(want[k]):
                return f"{k} stands for {got[k]!r}, not {want[k]!r}"
        return None
    if len(got) != len(want):
        return f"{len(got)} entries instead of {len(want)}"
    for k, (g, w) in enumerate(zip(got, want)):
        if plain(g) != plain(w):
            return f"entry {k} is {g!r}, not {w!r}"
    return None


def C18(c):
    jobs.spec(c)
    rule = "class lists and label tables describe the same classes in the same order"

    def table(name, module):
        """Value of a table of a module, and where it is defined."""
        d = f"spec.table_{name}"
        q = c.ix.lookup(f"{module}.{name}")
        if q is None or q[0] == "missing":
            raise Lost(f"{name} is not defined in {module}")
        m = q[1] if q[0] == "assign" and q[1] in c.ix.modules else module
        line = q[3][0].lineno if q[0] == "assign" and q[3] and hasattr(q[3][0], "lineno") else 1
        c.driver(d, f"from {module} import {name}\n\n\ndef get():\n    return {name}\n")
        r = c.run(d + ".get", [])
        v = value(r, r.value)
        if not isinstance(v, (list, dict)):
            raise Lost(f"{name} is not a table")
        return v, (c.ix.modules[m].rel, line)

    def check(tag, name, module, want, text):
        try:
            v, wh = table(name, module)
        except Lost as e:
            c.undecided(tag, str(e))
            return None
        if isinstance(want, dict) != isinstance(v, dict):
            if isinstance(want, dict) and sorted(want) == list(range(len(want))):
                want = list(want.values())
            else:
                c.undecided(tag, f"{name} is a {type(v).__name__}")
                return None
        bad = differ(v, want)
        c.require(not bad, tag, *wh, rule, f"{text}: {bad}")
        return v

    found = {}
    for ds, (labels, l2t, names, inst, may, mod) in SETS.items():
        m = DATA + mod
        check(f"{ds}: labels", f"{ds}_labelIds", m, labels, "every label stands at its own position of the label list")
        check(f"{ds}: class of each label", f"{ds}_label2trainId", m, l2t, "label to class")
        check(f"{ds}: class names", f"{ds}_trainId2name", m, dict(enumerate(names)), "class to name")
        try:
            v, wh = table(f"{ds}_inst_labelIds", m)
            v = list(v)
            lost, odd = [x for x in inst if x not in v], [x for x in v if x not in may]
            twice = [x for k, x in enumerate(v) if x in v[:k]]
            c.require(not lost, f"{ds}: instance labels", *wh, rule, f"instances of label {lost[:1]} are not told apart")
            c.require(not odd, f"{ds}: only labels with instances", *wh, rule, f"label {odd[:1]} has no instances")
            c.require(not twice, f"{ds}: instance labels once", *wh, rule, f"label {twice[:1]} is listed twice")
        except Lost as e:
            c.undecided(f"{ds}: instance labels", str(e))
    if c.ix.lookup(DATA + "otf_cityscapes.CITYSCAPES_trainId2label"):
        l2t = SETS["CITYSCAPES"][1]
        check("CITYSCAPES: label of each class", "CITYSCAPES_trainId2label", DATA + "otf_cityscapes",
              {t: v for v, t in l2t.items()}, "class to label")

    def listed(k):
        want = SETS["SBD" if N_of(k) == 20 else "CITYSCAPES"][2]
        r = c.run("spec.jobs.classes_of", [jobs.cls(c, k)])
        v = value(r, r.value)
        bad = differ(v, list(want))
        c.require(not bad, f"{TITLE[k]}: class list", *where(c, k), rule, f"CLASSES: {bad}")
        c.require(len(v) <= 24, f"{TITLE[k]}: classes fit the edge files", *where(c, k), rule,
                  f"{len(v)} classes in three bytes per pixel")

    def accepted(k):
        N = N_of(k)
        for v in range(-2, N + 6):
            J = job(c, k, category=num(v))
            on = not (J is None or J.guard is FALSE)
            want = 1 <= v <= N
            if on != want and on and closed(J.guard):
                c.undecided(f"{TITLE[k]}: category {v}", "condition not understood: " + pretty(closed(J.guard)))
                continue
            c.require(on == want, f"{TITLE[k]}: category {v}", *where(c, k), "exactly the categories 1..N are accepted",
                      f"category {v} is {'accepted' if on else 'refused'}")

    each(c, MULTI, listed)
    each(c, MULTI, accepted)
    for fn, wh, semantic, combos in commands(c):
        if not semantic:
            continue
        N = 20 if "sbd" in fn else 19
        base = dict(combos[0])
        base["--output-path"] = jobs.SAVE
        cases = [(str(v), [v] if 1 <= v <= N else []) for v in range(-1, N + 4)]
        cases += [(f"[{v}]", [v] if 1 <= v <= N else []) for v in range(-1, N + 4)]
        cases += [(None, list(range(1, N + 1))), (str(list(range(1, N + 1))), list(range(1, N + 1))),
                  (str(list(range(0, N + 1))), []), (str(list(range(1, N + 2))), [])]
        try:
            category_texts(c, fn, wh, base, cases)
        except Lost as e:
            c.undecided(f"{fn}: categories", str(e))
    return ("tables and class lists evaluated from the source and compared entry by entry; every category number "
            "near 1..N followed from each command and evaluator to the scorer")
