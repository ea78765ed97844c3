"""C10, C12, C13, C14, C15, C24, C28: evaluation jobs from the evaluators to the scorer."""
import os
from ..core import *
from .. import terms as X
from .. import norms
from .small import written
from ..terms import mk, const, num, NONE, TRUE, FALSE

EVS = {"cityscapes": "pyEdgeEval.evaluators.CityscapesEvaluator",
       "half": "pyEdgeEval.evaluators.HalfCityscapesEvaluator",
       "otf": "pyEdgeEval.evaluators.OTFCityscapesEvaluator",
       "sbd": "pyEdgeEval.evaluators.SBDEvaluator",
       "reanno": "pyEdgeEval.evaluators.sbd.ReannoSBDEvaluator"}
TITLE = {"cityscapes": "Cityscapes", "half": "half-resolution Cityscapes", "otf": "on-the-fly Cityscapes",
         "sbd": "SBD", "reanno": "re-annotated SBD", "bsds": "BSDS"}
BSDS = "pyEdgeEval.evaluators.BSDS500Evaluator"
CALC = ["pyEdgeEval.common.multi_label.calculate_metrics", "pyEdgeEval.common.binary_label.calculate_metrics"]
SC = ["pyEdgeEval.common.multi_label.evaluate_boundaries_threshold",
      "pyEdgeEval.common.binary_label.evaluate_boundaries_threshold",
      "pyEdgeEval.common.binary_label.evaluate_boundaries_threshold_multiple_gts"]
ROOT, PRED, SAVE = S("root", "str"), S("pred", "str"), S("save", "str")
NAMES, T_, NP = S("names", "strlist"), S("thresholds", "array"), S("nproc", "int")
I_ = S("i", "int")
CAT = S("category", "int")
NM = X.index(NAMES, I_)
B = {True: TRUE, False: FALSE}
SET = dict(scale=S("scale", "float"), apply_thinning=S("apply_thinning", "bool"),
           apply_nms=S("apply_nms", "bool"), max_dist=S("max_dist", "float"),
           skip_if_nonexistent=S("skip_if_nonexistent", "bool"), kill_internal=S("kill_internal", "bool"))
NORM = norms.one_dim(T_)
MULTI = ("cityscapes", "half", "otf", "sbd", "reanno")


class Lost(Exception):
    """The job could not be followed to the scorer."""


def spec(c):
    c.driver("spec.jobs", open(os.path.join(VERIF, "sa", "specs", "jobs.py")).read())


def where(c, key):
    r = c.ix.need(BSDS if key == "bsds" else EVS[key])
    return (c.ix.modules[r[3]].rel, r[2].lineno)


def cls(c, key):
    return mk("cls", c.ix.need(BSDS if key == "bsds" else EVS[key])[1])


def kwd(d):
    return X.mk_dict([(const(k), v) for k, v in d.items()])


def interp(c, extra=()):
    return Interp(c.ix, opaque=[c.q(o) for o in CALC + SC + list(extra)])


def is_open(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("PIL.Image.open", "skimage.io.imread")


def loads(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("scipy.io.loadmat", "pymatreader.read_mat")


def file_of(t):
    return t.a[1].a[0]


def opened(t):
    """Paths of the image files a term reads, in order of appearance."""
    out = []
    for x in X.subterms(t):
        if (is_open(x) or loads(x)) and file_of(x) not in out:
            out.append(file_of(x))
    return out


class Job:
    pass


def follow(c, r, at=I_):
    """The job of a run: its metrics call and what one of its samples hands to the scorer."""
    if r.raises:
        return None
    evs = [e for e in r.events if e.kind == "call" and str(e.name).endswith("calculate_metrics")]
    if len(evs) != 1:
        raise Lost(f"{len(evs)} metric computations in one evaluation")
    e = evs[0]
    J = Job()
    J.r, J.e, J.guard = r, e, e.guard
    J.args = {k: r.I.deep(r.st, v) for k, v in e.args.items()}
    J.samples = J.args.get("samples")
    if J.samples is None or "eval_single" not in J.args:
        raise Lost("metrics are not computed from a sample list")
    J.count = X.length(J.samples)
    n0 = len(r.I.events)
    r2 = c.run("spec.jobs.one", [J.args["eval_single"], J.samples, at], interp=r.I, state=r.st)
    evs = [e for e in r.I.events[n0:] if e.kind == "call" and "evaluate_boundaries" in str(e.name)]
    if len(evs) != 1:
        raise Lost(f"{len(evs)} scorer calls for one sample")
    J.sc = {k: r2.I.deep(r2.st, v) for k, v in evs[0].args.items()}
    J.scorer = evs[0]
    J.ret = r2.value
    J.sample = X.index(J.samples, at)
    J.name = X.index(J.sample, const("name"))
    return J


def job(c, key, thin=False, mode="post-seal", IS=False, category=CAT, names=NAMES, gt_dir=None,
        suffix=None, save=NONE, split="val", at=I_, driver="cat", **over):
    c.q(EVS[key])
    p = dict(SET, eval_mode=const(mode) if mode else NONE,
             instance_sensitive=B[IS] if isinstance(IS, bool) else IS)
    p.update(over)
    I = interp(c)
    r = c.run("spec.jobs." + driver, [cls(c, key), ROOT, PRED, const(split), B[thin],
                                const(gt_dir) if gt_dir else NONE, const(suffix) if suffix else NONE,
                                names, category, T_, NP, save, kwd(p)], interp=I)
    return follow(c, r, at)


def bsds_job(c, nosplit=False, names=NAMES, save=NONE, split="test", at=I_, **over):
    p = {k: SET[k] for k in ("scale", "apply_thinning", "apply_nms", "max_dist")}
    p.update(over)
    I = interp(c)
    r = c.run("spec.jobs.bsds", [cls(c, "bsds"), ROOT, PRED, const(split), names, T_, NP, save, B[nosplit],
                                 kwd(p)], interp=I)
    return follow(c, r, at)


def each(c, keys, f):
    """Run f per evaluator; one that cannot be followed leaves its obligations undecided."""
    for k in keys:
        try:
            f(k)
        except Lost as e:
            c.undecided(f"{TITLE[k]}: {f.__name__}", str(e))


def got(J, key):
    v = J.sc.get(key)
    if v is None:
        raise Lost(f"the scorer no longer takes `{key}`")
    return v


GENERIC = """
from pyEdgeEval.datasets.generic_binary import bsds_eval_single


def one(**kw):
    return bsds_eval_single(kw)
"""
GENERIC_AT = "pyEdgeEval.datasets.generic_binary._evaluate_single"


def generic_job(c):
    """A sample of the generic binary data set, which no evaluator uses, handed to its scorer."""
    if not c.ix.lookup(GENERIC_AT):
        raise Lost("the generic binary data set is gone")
    c.driver("spec.generic", GENERIC)
    I = interp(c)
    kw = {k: SET[k] for k in ("scale", "apply_thinning", "apply_nms", "max_dist")}
    r = c.run("spec.generic.one", [], dict(kw, name=NM, thresholds=T_, gt_path=S("gt_path", "str"),
                                           pred_path=S("pred_path", "str")), interp=I)
    evs = [e for e in r.events if e.kind == "call" and "evaluate_boundaries" in str(e.name)]
    if len(evs) != 1 or r.raises:
        raise Lost(f"{len(evs)} scorer calls for one sample of the generic binary data set")
    J = Job()
    J.r, J.scorer, J.ret = r, evs[0], r.value
    J.sc = {k: r.I.deep(r.st, v) for k, v in evs[0].args.items()}
    J.args = dict(thresholds=T_, nproc=NP)
    return J


def at(c, path):
    r = c.ix.need(path)
    return (c.ix.modules[r[3]].rel, r[2].lineno)


# ------------------------------------------------------------------ normal forms
def role(name, files=None):
    """Reading any of the files (all when None), at any size, is the symbol `name`."""
    sym = S(name, "any")

    def f(t):
        def leaf(x):
            if x.op == "method" and x.a[0] == "resize" and (is_open(x.a[1]) and (
                    files is None or file_of(x.a[1]) in files)):
                return sym
            if is_open(x) and (files is None or file_of(x) in files):
                return sym
            return None
        return X.subst(t, leaf)
    return f


def planes(n):
    """A class plane of a decoded edge image, whatever number of classes (at least n) is decoded."""
    full = mk("slice", NONE, NONE, NONE)

    def decoded(y):
        """The unpacked image when y holds its classes in order along the first axis."""
        if y.op == "call" and y.a[0].op == "ext" and y.a[0].a[0] in ("numpy.ascontiguousarray", "numpy.array",
                                                                    "numpy.asarray") and len(y.a[1].a) == 1:
            return decoded(y.a[1].a[0])
        if y.op == "astype":
            return decoded(y.a[0])
        if y.op != "transpose" or len(y.a) < 2 or y.a[1] is not mk("tuple", num(2), num(0), num(1)):
            return None
        z = y.a[0]
        if z.op == "index" and z.a[0].op == "call" and z.a[0].a[0].op == "ext" and \
                z.a[0].a[0].a[0] == "numpy.unpackbits" and z.a[1].op == "tuple" and len(z.a[1].a) == 3:
            p, q, s = z.a[1].a
            if p is full and q is full and s.op == "slice" and s.a[0] is num(-1) and s.a[2] is num(-1) and \
                    s.a[1].op == "num" and -25 <= s.a[1].a[0] <= -(n + 1):
                return z.a[0]
        return None

    def leaf(x):
        if x.op != "index":
            return None
        k = x.a[1]
        if k.op == "tuple":
            if not k.a or any(y is not full and y.op != "ellipsis" for y in k.a[1:]):
                return None
            k = k.a[0]
        z = decoded(x.a[0])
        return mk("bitplane", z, k) if z is not None else None
    return lambda t: X.subst(t, leaf)


def chains(t):
    """`k == table lookup` as the set of keys mapped to k; a plane of stacked masks."""
    def key(g):
        if g.op == "cmp" and g.a[0] == "==":
            for n in g.a[1:]:
                if n.op == "num":
                    return n
        return None

    def leaf(x):
        if x.op == "cmp" and x.a[0] == "==" and any(y.op == "num" for y in x.a[1:]):
            k, s = (x.a[1], x.a[2]) if x.a[1].op == "num" else (x.a[2], x.a[1])
            hits, seen = [], set()
            while s.op == "sel":
                g, v, s = s.a
                n = key(g)
                if n is None or v.op != "num" or n in seen:
                    return None
                seen.add(n)
                if v is k:
                    hits.append(g)
            v = s
            if s.op in ("poly", "mono"):
                p = X.poly_of(s)
                if len(p) != 1:
                    return None
                (m, q), = p.items()
                for y, e in m:
                    if y.op == "not":
                        n = key(y.a[0])
                        if n is None or n in seen:
                            return None
                        seen.add(n)
                        if k.op == "num" and k.a[0] == 0:
                            hits.append(y.a[0])
                    elif y.op == "full" and y.a[1].op == "num" and e == 1:
                        q = q * y.a[1].a[0]
                    else:
                        return None
                v = num(q)
            elif s.op == "full":
                v = s.a[1]
            elif s.op == "zeros":
                v = num(0)
            if not seen or v.op != "num" or v is k:
                return None
            return X.or_(*hits)
        return None
    return X.subst(t, leaf)


def stacked(t):
    """Planes of stacked masks; 0/1 masks of any type."""
    def f(x):
        if x.op == "index" and x.a[0].op == "maskstack" and x.a[1].op == "num":
            n, b = x.a[0].a
            k = x.a[1].a[0]
            if n.op == "num" and 0 <= k < n.a[0]:
                return X.instantiate(b, x.a[1])
        if x.op == "len" and x.a[0].op == "maskstack":
            return x.a[0].a[0]
        if x.op == "cmp" and x.a[1].op == "len" or x.op == "cmp" and x.a[2].op == "len":
            return X.rebuild("cmp", [x.a[0]] + [y.a[0].a[0] if y.op == "len" and y.a[0].op == "maskstack" else y
                                                for y in x.a[1:]])
        if x.op == "astype" and X.boolish(x.a[0]) and x.a[1].op == "ext" and x.a[1].a[0] in (
                "numpy.uint8", "numpy.bool_", "builtins.bool", "builtins.int", "numpy.int32", "numpy.int64"):
            return x.a[0]
        return None
    return norms.bottom_up(f)(t)


OTF = norms.chain(norms.label_stacks, stacked, norms.no_zeros, norms.five_digit_ids)


def stem(p):
    """Last known text of a path."""
    while p.op in ("join", "cat") and p.a:
        p = p.a[-1]
    return p.a[0] if p.op == "str" else ""


def first(p):
    return p.a[0] if p.op == "join" else p


def N_of(key):
    return 20 if key in ("sbd", "reanno") else 19


def ref(c, name, args):
    return c.run("spec.jobs." + name, args).value


# ------------------------------------------------------------------ C10
LABELS = [7, 8, 11, 12, 13, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31, 32, 33]
CITY = ("road sidewalk building wall fence pole traffic_light traffic_sign vegetation terrain sky person "
        "rider car truck bus train motorcycle bicycle").replace("_", "*").split()
VOC = ("aeroplane bicycle bird boat bottle bus car cat chair cow dining*table dog horse motor*bike person "
       "potted*plant sheep sofa train tv/monitor").split()


def C10(c):
    spec(c)

    def edge_plane(k):
        J = job(c, k, mode="post-seal", IS=False)
        n = planes(N_of(k))
        r = role("edge_image")
        want = ref(c, "channel", [S("edge_image", "any"), num(N_of(k)), X.sub(CAT, num(1))])
        c.compare(f"{TITLE[k]}: ground-truth edges of a category", r(got(J, "gt")), want,
                  "category c is the c-th bit of the encoded ground truth", where(c, k), norm=n)

    def interior(k):
        J = job(c, k, mode=None, IS=False, kill_internal=TRUE)
        g = got(J, "gt_seg")
        files = [p for p in opened(g) if "label" in stem(p)]
        if len(files) != 1:
            raise Lost("interior mask does not come from one label image")
        if "labelIds" in stem(files[0]) and k in ("cityscapes", "half"):
            for v in range(1, 20):
                J = job(c, k, mode=None, IS=False, kill_internal=TRUE, category=num(v))
                c.compare(f"{TITLE[k]}: interior mask of category {v}", role("labels")(got(J, "gt_seg")),
                          ref(c, "class_mask", [S("labels", "any"), num(LABELS[v - 1])]),
                          "the interior of class c carries the label of class c", where(c, k), norm=chains)
            return
        v = CAT if k in ("sbd", "reanno") else X.sub(CAT, num(1))
        want = ref(c, "class_mask", [S("labels", "any"), v])
        c.compare(f"{TITLE[k]}: interior mask of a category", role("labels")(g), want,
                  "the interior of class c carries the label of class c", where(c, k))

    def stored(k):
        J = job(c, k, save=SAVE)
        want = ref(c, "class_dir", [PRED, CAT])
        for p in opened(got(J, "pred")):
            if first(p) is PRED or X.contains(p, lambda x: x is PRED):
                c.compare(f"{TITLE[k]}: directory of the predictions", mk("dirof", *p.a[:-1]),
                          mk("dirof", *want.a), "predictions of class c live under class_ccc", where(c, k),
                          norm=lambda t: mk("dirof", *t.a[:2]))
        want = ref(c, "class_dir", [SAVE, CAT])
        n = 0
        for p, mode, g in J.r.I.files.values():
            if X.contains(p, lambda x: x is SAVE):
                n += 1
                c.compare(f"{TITLE[k]}: directory of the results", mk("dirof", *p.a[:2]), mk("dirof", *want.a),
                          "results of class c are written under class_ccc", where(c, k))
        if not n:
            raise Lost("no result file written")

    def on_the_fly(k):
        for IS in (False, True):
            for thin in (False, True):
                for v in range(1, 20) if not thin else (1, 2, 12, 19):
                    J = job(c, k, thin=thin, IS=IS, category=num(v))
                    g = got(J, "gt")
                    sg = [p for p in opened(g) if "instance" not in stem(p)]
                    si = [p for p in opened(g) if "instance" in stem(p)]
                    a = S("seg_image", "any")
                    f = lambda t: role("inst_image", si)(role("seg_image", sg)(t))
                    args = [a] + ([S("inst_image", "any")] if IS else [])
                    want = ref(c, "otf_inst_of" if IS else "otf_of", args + [
                        num(LABELS[v - 1]), mk("list", num(2), num(3)), num(1 if thin else 2)] +
                        ([num(24)] if IS else []))
                    c.compare(f"{TITLE[k]}: edges of category {v} (instances={IS}, thin={thin})", f(g), want,
                              "class c is drawn from the label that maps to class c", where(c, k), norm=OTF)

    def on_the_fly_interior(k):
        for v in range(1, 20):
            J = job(c, k, IS=False, category=num(v))
            want = ref(c, "class_mask", [S("labels", "any"), num(LABELS[v - 1])])
            c.compare(f"{TITLE[k]}: interior mask of category {v}", role("labels")(got(J, "gt_seg")), want,
                      "the interior of class c carries the label of class c", where(c, k), norm=chains)

    def named(k):
        want = CITY if N_of(k) == 19 else VOC
        v = c.run("spec.jobs.classes_of", [cls(c, k)]).value
        c.compare(f"{TITLE[k]}: class names", mk("list", *v.a) if v.op in ("tuple", "list") else v,
                  mk("list", *[const(w.replace("*", " ")) for w in want]),
                  "classes are named in the order of their numbers", where(c, k))

    each(c, ("cityscapes", "half", "sbd", "reanno"), edge_plane)
    each(c, ("cityscapes", "half", "sbd"), interior)
    each(c, MULTI, stored)
    each(c, ("otf",), on_the_fly)
    each(c, ("otf",), on_the_fly_interior)
    each(c, MULTI, named)
    return "channel, interior mask, prediction and result directories and class names per category and evaluator"


# ------------------------------------------------------------------ C12
def C12(c):
    spec(c)
    rule = "protocol presets fix tolerance, interior removal and skipping"

    def settled(k, mode, IS, thin=False):
        """Settings in force, or None when the configuration is refused."""
        J = job(c, k, thin=thin, mode=mode, IS=IS)
        if J is None:
            return None
        fs = [stem(p) for p in opened(got(J, "gt"))]
        return dict(max_dist=got(J, "max_dist"), kill_internal=got(J, "kill_internal"),
                    skip_if_nonexistent=got(J, "skip_if_nonexistent"),
                    instances=B[any("_is" in f or "instance" in f for f in fs)], J=J)

    def presets(k):
        re = k == "reanno"
        for thin in (False, True):
            for IS in (False, True):
                for mode in ("pre-seal", "post-seal", None):
                    name = f"{TITLE[k]}: {mode or 'custom'} instances={IS} thin={thin}"
                    s = settled(k, mode, IS, thin)
                    pre = mode == "pre-seal"
                    if s is None:
                        c.require(pre and IS and k in ("cityscapes", "half", "otf"), name + ": refused",
                                  *where(c, k), "only contradictory settings are refused", f"{name} is refused")
                        continue
                    if pre and IS and k in ("cityscapes", "half", "otf"):
                        if s["J"].guard is not FALSE:
                            c.violate(name + ": refused", *where(c, k),
                                      "instance-sensitive pre-SEAL evaluation is refused", f"{name} is accepted")
                        continue
                    eff = IS and not pre
                    if mode:
                        kill = skip = B[not eff and not re]
                    else:
                        kill = FALSE if re else SET["kill_internal"]
                        skip = FALSE if re else SET["skip_if_nonexistent"]
                    want = dict(max_dist=num(0.02) if pre else SET["max_dist"], kill_internal=kill,
                                skip_if_nonexistent=skip, instances=B[eff])
                    if re:
                        want.update(max_dist=SET["max_dist"], instances=B[IS])
                    for f, w in want.items():
                        c.compare(f"{name}: {f}", s[f], w, rule, where(c, k))

    def rescaled(k):
        for mode in ("post-seal", None):
            J = job(c, k, mode=mode, IS=False)
            for f in ("gt", "pred", "gt_seg"):
                c.require(not X.contains(got(J, f), lambda x: x is SET["scale"]),
                          f"{TITLE[k]}: {f} ignores the scale ({mode or 'custom'})", *where(c, k),
                          "half-resolution ground truths are never rescaled",
                          f"`{f}` depends on the scale option")
            want = rounding(ref(c, "grid_of", [mk("tuple", *[X.index(GRID, num(j)) for j in (0, 1)]), num(1)]))
            for x in X.subterms(sizes(got(J, "gt"))):
                if x.op == "method" and x.a[0] == "resize" and is_open(x.a[1]) and x.a[2].a:
                    c.compare(f"{TITLE[k]}: size of the ground truth ({mode or 'custom'})", rounding(x.a[2].a[0]),
                              want, "half-resolution ground truths are never rescaled", where(c, k))

    each(c, MULTI, presets)
    each(c, ("half",), rescaled)
    return "settings reaching the scorer for every evaluator, preset, instance and thin mode"


# ------------------------------------------------------------------ C13
def kernel_args(c, J, tag, wh):
    """Settings handed to the scorer unchanged."""
    rule = "every setting reaches the scorer unchanged"
    for f in ("max_dist", "apply_thinning", "apply_nms"):
        c.compare(f"{tag}: {f}", got(J, f), SET[f], rule, wh)
    c.compare(f"{tag}: thresholds of a sample", got(J, "thresholds"), T_, rule, wh, norm=NORM)
    c.compare(f"{tag}: thresholds of the summary", J.args.get("thresholds", NONE), T_, rule, wh, norm=NORM)
    c.compare(f"{tag}: worker count", J.args.get("nproc", NONE), NP, rule, wh)
    c.compare(f"{tag}: suppression parameters", got(J, "nms_kwargs"),
              kwd(dict(r=num(1), s=num(5), m=num(1.01), half_prec=FALSE)),
              "suppression uses radius 1, border 5, multiplier 1.01", wh, norm=sorted_dict)


def sorted_dict(t):
    if t.op == "dict":
        return mk("dict", *sorted(t.a, key=lambda x: x.key))
    return t


CLI = {
    "evaluate_cityscapes.evaluate_cityscapes_raw": ("cityscapes_path",),
    "evaluate_cityscapes.evaluate_cityscapes_thin": ("cityscapes_path",),
    "evaluate_sbd.evaluate_sbd": ("sbd_path",),
    "evaluate_sbd.evaluate_reanno_sbd": ("sbd_path",),
    "evaluate_bsds500.evaluate_bsds500": ("bsds_path",),
}
HELP = "pyEdgeEval.helpers."
CATS, THRS = "[2, 7]", "[.25, 0.5]"


FLAT = "no_split_dir"  # argument of a command rather than an option: predictions without a directory per split


def cli_run(c, fn, opts):
    I = interp(c)
    kw = {k: v for k, v in opts.items() if k in (FLAT, "gt_dir")}
    I.cli = {k: v for k, v in opts.items() if k not in kw}
    r = c.run(HELP + fn, [], kw, interp=I)
    evs = [e for e in r.events if e.kind == "call" and str(e.name).endswith("calculate_metrics")]
    return r, ([] if r.raises else [e for e in evs if e.guard is not FALSE])


def opt(r, name):
    for k, v in r.I.cli_opts.items():
        if k.lstrip("-") == name.lstrip("-"):
            return r.I.cli.get(k, v[3])
    raise Lost(f"no option {name}")


def commands(c):
    for fn in CLI:
        wh = (lambda q: (c.ix.modules[q[3]].rel, q[2].lineno))(c.ix.need(HELP + fn))
        semantic = "bsds" not in fn
        flags = ["--nonIS", "--pre-seal"] if semantic else ["--use-val"]
        if fn.endswith("raw"):
            flags.append("--half")
        if "sbd" in fn.split(".")[1] or not semantic:
            flags.append("--raw")
        if fn.endswith("thin"):
            flags = ["--nonIS", "--pre-seal"]
        if FLAT in [x.arg for x in c.ix.need(HELP + fn)[2].args.args]:
            flags.append(FLAT)
        combos = [{}]
        for f in flags:
            combos = [dict(x, **{f: v}) for x in combos for v in (FALSE, TRUE)]
        yield fn, wh, semantic, combos


def cli_job(c, fn, wh, semantic, combo):
    o = dict(combo)
    o["--thresholds"] = const(THRS)
    if semantic:
        o["--categories"] = const(CATS)
    o["--output-path"] = SAVE
    r, evs = cli_run(c, fn, o)
    on = {k: v is TRUE for k, v in combo.items()}
    tag = fn.split(".")[1] + (" " + " ".join(k for k in on if on[k]) if any(on.values()) else "") + (
        " with its own directory" if "gt_dir" in combo else "")
    root = [v[3] for k, v in r.I.cli_opts.items() if v[4]]
    root, pred = opt(r, CLI[fn][0]), opt(r, "pred_path")
    city = "cityscapes" in fn
    refused = city and on.get("--pre-seal") and not on.get("--nonIS")
    if refused:
        c.require(not evs, f"{tag}: refused", *wh, "instance-sensitive pre-SEAL evaluation is refused",
                  f"{tag} is accepted")
        return
    thr = mk("list", num(0.25), num(0.5))
    if semantic:
        key = "sbd"
        if city:
            key = "half" if fn.endswith("thin") or on.get("--half") else "cityscapes"
        elif "reanno" in fn:
            key = "reanno"
        if len(evs) != 2:
            if evs and all(e.loops for e in evs):
                raise Lost("categories are looped over symbolically")
            c.violate(f"{tag}: categories", *wh, "exactly the listed categories are evaluated",
                      f"`{CATS}` leads to {len(evs)} evaluations")
            return
    else:
        key = "bsds"
        if len(evs) != 1:
            c.violate(f"{tag}: evaluation", *wh, "one evaluation per run", f"{len(evs)} evaluations")
            return
    thinning = TRUE if fn.endswith("thin") else FALSE if city else B[not on.get("--raw")]
    scale = opt(r, "--scale") if fn.endswith("_raw") else num(0.5 if city else 1)
    p = dict(scale=scale, apply_thinning=thinning, apply_nms=opt(r, "--apply-nms"), max_dist=opt(r, "--max-dist"))
    rule = "command-line options take effect unchanged"
    for k, e in enumerate(evs):
        J = follow_event(c, r, e)
        n0 = TITLE[key] + f" from {tag}" + (f", category {(2, 7)[k]}" if semantic else "")
        I = interp(c)
        if semantic:
            q = dict(p, eval_mode=const("pre-seal" if on["--pre-seal"] else "post-seal"),
                     instance_sensitive=B[not on["--nonIS"]])
            sfx = opt(r, "--pred-suffix") if not city else NONE
            if key == "reanno":
                q["max_dist"] = num(0.0075)  # its protocol fixes the tolerance
            w = c.run("spec.jobs.cli_cat", [cls(c, key), root, pred, thinning if not city else B[fn.endswith("thin")],
                                            o.get("gt_dir", const("gtEval")), sfx, num((2, 7)[k]), thr,
                                            opt(r, "--nproc"), SAVE, kwd(q)], interp=I)
        else:
            w = c.run("spec.jobs.cli_bsds", [cls(c, key), root, pred, const("val" if on["--use-val"] else "test"),
                                             thr, opt(r, "--nproc"), SAVE, B[on.get(FLAT, False)], kwd(p)], interp=I)
        W = follow(c, w)
        if W is None:
            raise AnalysisError(f"reference of {tag} is refused")
        for f in W.sc:
            if f in J.sc:
                c.compare(f"{n0}: {f}", named(J, J.sc[f]), named(W, W.sc[f]), rule, wh)
        if semantic:
            c.compare(f"{n0}: samples", J.count, W.count, rule, wh)
        for f in ("nproc", "thresholds"):
            c.compare(f"{n0}: {f} of the summary", J.args.get(f, NONE), W.args.get(f, NONE), rule, wh)
        gone = [p for p, mode, g in w.I.files.values() if X.contains(p, lambda x: x is SAVE)
                and not any(p is q[0] for q in r.I.files.values())]
        c.require(not gone, f"{n0}: results are written under the output path", *wh, rule,
                  f"not written: {pretty(gone[0]) if gone else ''}")


def named(J, t):
    """Names read from the dataset listing (when it could be read) are the symbolic names."""
    fine = lambda y: X.subst(y, lambda x: FALSE if x.op == "exc" else None)
    n = fine(J.name)
    return X.subst(fine(t), lambda x: NM if x is n else None)


def follow_event(c, r, e):
    keep = r.events[:]
    r.events[:] = [e]
    try:
        return follow(c, r)
    finally:
        r.events[:] = keep


def category_texts(c, fn, wh, base, cases):
    """A category text given to a command evaluates exactly the listed categories."""
    name = fn.split(".")[1]
    for text, want in cases:
        o = dict(base)
        o["--categories"] = const(text) if text else NONE
        o["--thresholds"] = const(THRS)
        r, evs = cli_run(c, fn, o)
        if evs and all(e.loops for e in evs):
            c.undecided(f"{name}: categories {text}", "categories are looped over symbolically")
            continue
        begun = [e for e in r.events if e.kind == "call" and str(e.name).endswith("calculate_metrics")
                 and not closed(e.guard) and e.guard is not FALSE and not e.loops]
        if not want and begun and not evs:
            c.violate(f"{name}: categories `{text}`", *wh, "categories are refused before anything is scored",
                      f"`{text}` is refused after a category has been scored")
            continue
        bad = [closed(e.guard) for e in evs if closed(e.guard)]
        if bad and len(evs) != len(want):
            c.undecided(f"{name}: categories {text}", "condition not understood: " + pretty(bad[0]))
            continue
        ok = len(evs) == len(want)
        for e, v in zip(evs, want):
            try:
                J = follow_event(c, r, e)
            except Lost:
                ok = None
                break
            tail = "class_" + str(v).zfill(3)
            ps = [p for p in opened(J.sc["pred"]) if X.contains(p, lambda x: x is opt(r, "pred_path"))]
            ok = ok and all(X.contains(p, lambda x: x is const(tail)) for p in ps)
        if ok is None:
            c.undecided(f"{name}: categories {text}", "not followed")
        else:
            c.require(ok, f"{name}: categories `{text}`", *wh,
                      "a category string denotes exactly the listed values",
                      f"`{text}` evaluates {len(evs)} categories, not {want}")


def C13(c):
    spec(c)

    def settings(k):
        for IS in (False, True):
            J = job(c, k, mode=None, IS=IS)
            kernel_args(c, J, f"{TITLE[k]} (instances={IS})", where(c, k))
            if k != "reanno":
                for f in ("kill_internal", "skip_if_nonexistent"):
                    c.compare(f"{TITLE[k]} (instances={IS}): {f}", got(J, f), SET[f],
                              "every setting reaches the scorer unchanged", where(c, k))
            if k != "half":
                for f in ("gt", "pred"):
                    c.require(X.contains(got(J, f), lambda x: x is SET["scale"]),
                              f"{TITLE[k]} (instances={IS}): {f} depends on the scale", *where(c, k),
                              "every setting reaches the scorer", f"`{f}` does not depend on the scale")

    def folders(k):
        if k in ("cityscapes", "half", "sbd", "reanno"):
            J = job(c, k, gt_dir="otherGT")
            n = [p for p in opened(got(J, "gt")) if X.contains(p, lambda x: x is const("otherGT"))]
            c.require(n, f"{TITLE[k]}: ground-truth directory", *where(c, k), "every setting reaches the scorer",
                      "edges are not read from the given ground-truth directory")
        J = job(c, k, suffix="_other.png")
        want = ref(c, "pred_file", [PRED, CAT, NM, const("_other.png")])
        for p in opened(got(J, "pred")):
            if X.contains(p, lambda x: x is PRED):
                c.compare(f"{TITLE[k]}: prediction suffix", p, want, "every setting reaches the scorer", where(c, k))
        J = job(c, k, save=NONE)
        w = [p for p, m, g in J.r.I.files.values() if "w" in str(m)]
        c.require(not w, f"{TITLE[k]}: nothing is written without an output directory", *where(c, k),
                  "every setting reaches the scorer", f"writes {pretty(w[0]) if w else ''}")

    def binary(k):
        J = bsds_job(c)
        kernel_args(c, J, TITLE[k], where(c, k))
        c.require(X.contains(got(J, "pred"), lambda x: x is SET["scale"]), f"{TITLE[k]}: scale", *where(c, k),
                  "every setting reaches the scorer", "predictions and annotations do not depend on the scale",
                  key="bsds scale")
        J = bsds_job(c, save=SAVE)
        w = [p for p, m, g in J.r.I.files.values() if X.contains(p, lambda x: x is SAVE)]
        c.require(w, f"{TITLE[k]}: results are written under the output path", *where(c, k),
                  "every setting reaches the scorer", "nothing is written under the output path")

    def interiors(k):
        """Interior removal needs the class segmentation, whether or not absent classes are skipped."""
        if k == "reanno":
            return
        for IS in (False, True):
            seen = [got(job(c, k, mode=None, IS=IS, kill_internal=TRUE, skip_if_nonexistent=s), "gt_seg") for s in (TRUE, FALSE)]
            for s, t in zip((True, False), seen):
                c.require(t is not NONE, f"{TITLE[k]} (instances={IS}): interior removal, skipping {s}", *where(c, k),
                          "every setting reaches the scorer", "interior removal is asked for without a segmentation")
            c.compare(f"{TITLE[k]} (instances={IS}): segmentation for interior removal", seen[1], seen[0],
                      "every setting reaches the scorer unchanged", where(c, k))

    def defaults(k):
        rule, wh = "an option left out has its documented default", where(c, k)
        if k == "bsds":
            p = dict(scale=num(1), apply_thinning=TRUE, apply_nms=FALSE, max_dist=num(0.0075))
            G = follow(c, c.run("spec.jobs.bsds_plain", [cls(c, k), ROOT, PRED, NAMES, T_, NP], interp=interp(c)))
            W = bsds_job(c, **p)
        else:
            p = dict(scale=num(0.5) if k not in ("sbd", "reanno") else num(1), apply_thinning=FALSE, apply_nms=FALSE,
                     max_dist=num(dict(sbd=0.02, reanno=0.0075).get(k, 0.0035)), skip_if_nonexistent=FALSE, kill_internal=FALSE)
            G = follow(c, c.run("spec.jobs.cat_plain", [cls(c, k), ROOT, PRED, NAMES, CAT, T_, NP], interp=interp(c)))
            W = job(c, k, mode=None, IS=True, **p)
        if G is None:
            c.require(False, f"{TITLE[k]}: defaults", *wh, rule, "an evaluation with default settings is refused")
            return
        for f in sorted(set(W.sc) | set(G.sc)):
            c.compare(f"{TITLE[k]} with default settings: {f}", G.sc.get(f, NONE), W.sc.get(f, NONE), rule, wh)

    each(c, MULTI, settings)
    each(c, MULTI, interiors)
    each(c, MULTI + ("bsds",), defaults)
    each(c, MULTI, folders)
    each(c, ("bsds",), binary)
    each(c, ("bsds",), lambda k: kernel_args(c, generic_job(c), "generic binary", at(c, GENERIC_AT)))

    for fn, wh, semantic, combos in commands(c):
        own = [dict(combos[0], gt_dir=const("other_gt"))] if "gt_dir" in [
            x.arg for x in c.ix.need(HELP + fn)[2].args.args] else []
        for combo in combos + own:
            try:
                cli_job(c, fn, wh, semantic, combo)
            except Lost as e:
                c.undecided(f"{fn} {combo}", str(e))

    # without an output directory results go next to the predictions
    for fn, wh, semantic, combos in commands(c):
        o = dict(combos[0], **{"--output-path": NONE, "--thresholds": const(THRS)})
        if semantic:
            o["--categories"] = const(CATS)
        r, evs = cli_run(c, fn, o)
        name = fn.split(".")[1]
        rule = "results are written next to the predictions unless an output directory is given"
        if r.raises:
            c.require(False, f"{name}: no output directory", *wh, rule, "the command fails without an output directory")
            continue
        pred = opt(r, "pred_path")
        out = [p for p, m, g in r.I.files.values() if "w" in str(m)]
        if any(x.op in UNKNOWN_OPS for p in out for x in X.subterms(p)):
            c.undecided(f"{name}: no output directory", "paths not understood")
            continue
        for p in out:
            c.require(X.contains(p, lambda x: x is pred) and not X.contains(p, lambda x: x is NONE),
                      f"{name}: results without an output directory", *wh, rule, f"writes {pretty(p)[:160]}")
        c.require(bool(out), f"{name}: results are written without an output directory", *wh, rule, "no results are written")

    # numbers are read as numbers of their kind
    for fn, wh, semantic, combos in commands(c):
        r, evs = cli_run(c, fn, dict(combos[0]))
        for o, kinds in (("--max-dist", ("float",)), ("--scale", ("float",)), ("--nproc", ("int",))):
            v = r.I.cli_opts.get(o)
            if v is None:
                continue
            c.require(v[1] in kinds + ("any", "str"), f"{fn.split('.')[1]}: type of {o}", *wh,
                      "command-line options take effect unchanged", f"{o} is read as {v[1]}")

    # an option left out has its documented default
    for fn, wh, semantic, combos in commands(c):
        r, evs = cli_run(c, fn, {})
        name = fn.split(".")[1]
        dist = 0.0035 if "cityscapes" in fn else 0.02 if "sbd" in fn else 0.0075
        doc = {"--max-dist": (num(dist),), "--thresholds": (const("99"), num(99)), "--scale": (num(0.5),)}
        for o, v in r.I.cli_opts.items():
            want = doc.get(o) or ((v[5],) if v[1] == "bool" else None)
            if want is None:
                continue
            d = v[2]
            if d not in want and d.op not in ("num", "str", "none", "bool"):
                c.undecided(f"{name}: default of {o}", pretty(d)[:100])
                continue
            c.require(d in want, f"{name}: default of {o}", *wh, "an option left out has its documented default",
                      f"{o} is {pretty(d)[:60]} when it is not given, documented: {pretty(want[0])}")

    # strings denote exactly the listed values
    for fn, wh, semantic, combos in commands(c):
        base = dict(combos[0])
        base["--output-path"] = SAVE
        name = fn.split(".")[1]
        if semantic:
            N = 20 if "sbd" in fn else 19
            category_texts(c, fn, wh, base, (("3", [3]), ("[5]", [5]), ("[1, 4,9]", [1, 4, 9]), (f"[{N}]", [N]), ("0", []),
                               (f"{N + 1}", []), (f"[1, {N + 1}]", []), ("[0]", []), ("[1, 0]", []), ("-1", []),
                               (None, list(range(1, N + 1)))))
        many = [round((k * 7 % 401 + 1) / 500, 4) for k in range(400)]
        for text, want in ((THRS, [0.25, 0.5]), ("[0.3]", [0.3]), (str(many), many), ("[0.7,0.1,0.7]", [0.7, 0.1, 0.7]), ("[0.1, 0.2,0.9]", [0.1, 0.2, 0.9]), (" [ 1e-3,.5 ] ", [0.001, 0.5]), ("37", 37),
                           ("0.5", None), ("abc", None)):
            o = dict(base)
            if semantic:
                o["--categories"] = const("[3]")
            o["--thresholds"] = const(text)
            r, evs = cli_run(c, fn, o)
            bad = [closed(e.guard) for e in evs if closed(e.guard)]
            if bad and len(evs) != (want is not None):
                c.undecided(f"{name}: thresholds {text}", "condition not understood: " + pretty(bad[0]))
                continue
            if want is None:
                c.require(not evs, f"{name}: thresholds `{text}`", *wh,
                          "a threshold string denotes exactly the listed values", f"`{text}` is accepted")
                continue
            if len(evs) != 1:
                c.violate(f"{name}: thresholds `{text}`", *wh, "a threshold string denotes exactly the listed values",
                          f"`{text}` leads to {len(evs)} evaluations")
                continue
            J = follow_event(c, r, evs[0])
            w = num(want) if isinstance(want, int) else mk("list", *[num(v) for v in want])
            c.compare(f"{name}: thresholds `{text}`", J.args.get("thresholds", NONE), w,
                      "a threshold string denotes exactly the listed values", wh)
    return "settings and command-line options followed to the scorer call of a sample, for every evaluator and command"


# ------------------------------------------------------------------ C14
def carries(p, name):
    """The path contains the sample name, and no other."""
    hits = [x for x in X.subterms(p) if x.op == "index" and x.a[0] is NAMES]
    return hits and all(x is name for x in hits)


def C14(c):
    spec(c)
    rule = "all files of a job carry the job's sample name"

    def files(J, f):
        return opened(got(J, f))

    def sample(c, k, J, tag, gts):
        wh = where(c, k)
        c.compare(f"{tag}: one job per sample", J.count, X.length(NAMES), "one job per sample", wh)
        c.compare(f"{tag}: jobs in sample order, under the sample's name", J.name, NM, "jobs in sample order", wh)
        for f in gts + ["pred"]:
            for p in opened(got(J, f)) if J.sc.get(f, NONE) is not NONE else []:
                c.require(carries(p, NM), f"{tag}: file of {f}", *wh, rule, f"`{f}` is read from {pretty(p)}")
                r = first(p)
                own = r is ROOT or (f == "pred" and r is PRED)
                c.require(own, f"{tag}: root of the file of {f}", *wh,
                          "ground truth lies under the dataset, predictions under the prediction root",
                          f"`{f}` is read from {pretty(p)}")
        ps = [p for p in files(J, "pred") if first(p) is PRED]
        c.require(ps, f"{tag}: prediction file", *wh, "predictions lie under the prediction root",
                  "no file under the prediction root is read as prediction")
        return ps

    def paths(k):
        seen = {}
        for thin in (False, True):
            for IS in (False, True):
                J = job(c, k, thin=thin, mode=None, IS=IS, kill_internal=TRUE)
                tag = f"{TITLE[k]} thin={thin} instances={IS}"
                ps = sample(c, k, J, tag, ["gt", "gt_seg"])
                for p in ps:
                    if not stem(p):
                        if X.contains(p, lambda x: x.op == "tostr" and x.a[0] is NONE):
                            c.violate(f"{tag}: prediction path", *where(c, k), "predictions lie in the directory of "
                                      "their category", f"the prediction is read from {pretty(p)}")
                            continue
                        raise Lost("prediction suffix is not constant")
                    c.compare(f"{tag}: prediction path", p, ref(c, "pred_file", [PRED, CAT, NM, const(stem(p))]),
                              "predictions lie in the directory of their category", where(c, k))
                seen[thin, IS] = frozenset(p for p in files(J, "gt"))
        edge = k != "otf"
        for (t, s), fs in seen.items():
            tag = f"{TITLE[k]} thin={t} instances={s}"
            if edge:
                for p in fs:
                    c.require(("isedge" in stem(p)) == s and ("thin" in stem(p)) == t and ("raw" in stem(p)) != t,
                              f"{tag}: kind of ground truth", *where(c, k),
                              "thin evaluation uses thin, instance-sensitive evaluation instance-sensitive edges",
                              f"edges are read from {pretty(p)}")
            else:
                inst = [p for p in fs if "instance" in stem(p)]
                c.require(bool(inst) == s and len(fs) == 1 + s, f"{tag}: maps", *where(c, k),
                          "instance-sensitive evaluation uses instance maps",
                          f"edges are drawn from {', '.join(pretty(p) for p in fs)}")

    def binary(k):
        for ns in (False, True):
            J = bsds_job(c, nosplit=ns)
            c.compare(f"{TITLE[k]}: one job per sample", J.count, X.length(NAMES), "one job per sample", where(c, k))
            c.compare(f"{TITLE[k]}: name", J.name, NM, "jobs in sample order", where(c, k))
            for n, s in ((0, "7"), (1, "8")):
                J = bsds_job(c, nosplit=ns, names=mk("list", const("test/7"), const("test/8")), at=num(n))
                g, p = got(J, "gts"), got(J, "pred")
                for f, v, w in (("gts", g, ref(c, "plain_file", [mk("join", ROOT, const("groundTruth")),
                                                                 const("test/" + s), const(".mat")])),
                                ("pred", p, ref(c, "plain_file", [PRED, const(s if ns else "test/" + s),
                                                                  const(".png")]))):
                    fs = opened(v)
                    if len(fs) != 1:
                        raise Lost(f"`{f}` does not come from one file")
                    c.compare(f"{TITLE[k]} (split directory left out: {ns}): file of {f} {s}", fs[0], w, rule,
                              where(c, k))

    def given(k):
        """The ground-truth folder and the prediction suffix can be chosen."""
        wh = where(c, k)
        base = job(c, k, kill_internal=TRUE)
        G = job(c, k, kill_internal=TRUE, gt_dir="OTHER")
        P = job(c, k, kill_internal=TRUE, suffix="_x.tif")
        B = job(c, k, kill_internal=TRUE, suffix="_x.tif", gt_dir="OTHER")
        jobs_ = [(P, "a given suffix"), (B, "a given suffix and folder")]
        if k in ("cityscapes", "half", "otf") and c.ix.lookup(EVS["cityscapes"] + ".set_pred_suffix") is not None:
            L = job(c, k, kill_internal=TRUE, suffix="_x.tif", driver="cat_late")
            jobs_.append((L, "a suffix set later"))
        for J, tag in jobs_:
            for p in [p for p in files(J, "pred") if first(p) is PRED]:
                c.compare(f"{TITLE[k]}: prediction path with {tag}", p,
                          ref(c, "pred_file", [PRED, CAT, NM, const("_x.tif")]),
                          "predictions are read with the given suffix", wh)
        mine = lambda J: {p for p in files(J, "pred") if first(p) is PRED}
        same = mine(base) == mine(G) and set(files(base, "gt")) == set(files(P, "gt"))
        c.require(same, f"{TITLE[k]}: folder and suffix are independent", *wh,
                  "the ground-truth folder and the prediction suffix are set separately",
                  "a given ground-truth folder changes the predictions or a given suffix the ground truths")
        for J, tag in ((G, "a given folder"), (B, "a given folder, with a given suffix")):
            for p in files(J, "gt") if k != "otf" else ():
                c.require(X.contains(p, lambda x: x.op == "str" and "OTHER" in x.a[0]),
                          f"{TITLE[k]}: file of gt in {tag}", *wh,
                          "ground truths are read from the given folder", f"`gt` is read from {pretty(p)}")

    each(c, MULTI, paths)
    each(c, MULTI, given)
    each(c, ("bsds",), binary)
    return "file paths reaching the scorer for a symbolic sample, per evaluator and mode"


# ------------------------------------------------------------------ C15
GRID = S("grid_size", "any")


def rounding(t):
    """int(x + 0.5) and its spellings."""
    HALF = num(0.5)

    def f(x):
        r = norms.ext_call(x, "builtins.round", "numpy.round", "numpy.rint", "numpy.around")
        if r and len(r[0]) == 1 and not r[1]:
            return mk("nearest", r[0][0])
        r = norms.ext_call(x, "math.floor", "numpy.floor")
        if r and len(r[0]) == 1:
            return mk("nearest", X.sub(r[0][0], HALF))
        if x.op == "int":
            y = x.a[0]
            if y.op == "nearest":
                return y
            return mk("nearest", X.sub(y, HALF)) if X.contains(y, lambda z: z is GRID) else None
        return None
    return norms.bottom_up(f)(t)


def sizes(t):
    """Size of a ground-truth image, however it is read."""
    def leaf(x):
        def gt(y):
            return is_open(y) and X.contains(file_of(y), lambda z: z is ROOT)
        if x.op == "attr" and x.a[1] == "size" and gt(x.a[0]):
            return GRID
        if x.op == "index" and x.a[0].op == "attr" and x.a[0].a[1] == "shape" and x.a[1].op == "num":
            y = x.a[0].a[0]
            while y.op in ("asarray", "copied", "astype"):
                y = y.a[0]
            if gt(y):
                return X.index(GRID, num(1 - x.a[1].a[0] % 2))
        if x.op == "len":
            y = x.a[0]
            while y.op in ("asarray", "copied", "astype"):
                y = y.a[0]
            if gt(y):
                return X.index(GRID, num(1))
        if x.op == "attr" and x.a[1] in ("width", "height") and gt(x.a[0]):
            return X.index(GRID, num(0 if x.a[1] == "width" else 1))
        return None
    return X.subst(t, leaf)


def plainfloat(t):
    def f(x):
        if x.op == "astype" and x.a[1].op == "ext" and x.a[1].a[0] in (
                "builtins.float", "numpy.float64", "numpy.float32"):
            return x.a[0]
        return None
    return norms.bottom_up(f)(t)


NEAR = ("PIL.Image.Resampling.NEAREST", "PIL.Image.NEAREST")


def C15(c):
    spec(c)

    def grids(k):
        for thin, IS in ((False, False), (False, True), (True, False), (True, True)):
            J = job(c, k, thin=thin, mode=None, IS=IS, kill_internal=TRUE)
            scale = num(1) if k == "half" else SET["scale"]
            g = mk("tuple", *[X.index(GRID, num(j)) for j in (0, 1)])
            want = rounding(ref(c, "grid_of", [g, scale]))
            tag = f"{TITLE[k]} thin={thin} instances={IS}"
            raw = set()
            n = 0
            parts = {}
            for f in ("pred", "gt", "gt_seg"):
                t = sizes(got(J, f))
                for x in X.subterms(t):
                    if x.op == "method" and x.a[0] == "resize" and is_open(x.a[1]):
                        n += 1
                        size = x.a[2].a[0] if x.a[2].a else NONE
                        raw.add(size)
                        how = x.a[2].a[1] if len(x.a[2].a) > 1 else None
                        if how is None:
                            kw = dict(zip(x.a[3].a[::2], x.a[3].a[1::2])) if len(x.a) > 3 else {}
                            how = next((v for q, v in kw.items() if str(getattr(q, "a", [q])[0]) == "resample"), NONE)
                        near = how.op == "ext" and how.a[0] in NEAR or how is num(0)
                        if how.op in UNKNOWN_OPS:
                            raise Lost("resampling filter not understood")
                        c.require(near, f"{tag}: {f} is resized without blending", *where(c, k),
                                  "values are never blended", f"`{f}` is resized with {pretty(how)}")
                        c.compare(f"{tag}: size of {f}", rounding(size), want,
                                  "image size times scale, rounded to nearest", where(c, k))

                def leaf(x, f=f):
                    if x.op == "method" and x.a[0] == "resize" and is_open(x.a[1]):
                        return S("resized " + ("map" if f != "pred" else "pred"), "any")
                    return None
                parts[f] = t = X.subst(t, leaf)
                left = [x for x in X.subterms(t) if is_open(x)]
                if left:
                    why = not_understood(t, vocab(want) | {left[0].a[0].a[0]})
                    whole = not X.contains(t, lambda x: x.op in ("call", "method") and not is_open(x)
                                           and any(y in left for y in X.subterms(x)))
                    if k != "half" and whole and not any(o in str(why) for o in ("opq", "lost")):
                        c.violate(f"{tag}: {f} is brought to the common grid", *where(c, k),
                                  "every image is resized to the common grid", f"`{f}` uses {pretty(left[0])} unresized")
                    else:
                        raise Lost(f"`{f}` is not resized in a recognised way")
            if not n:
                raise Lost("no resizing recognised")
            c.require(len(raw) == 1, f"{tag}: one grid for all images", *where(c, k),
                      "all images share one pixel grid", f"{len(raw)} different sizes: {', '.join(map(pretty, raw))}")
            sym = S("resized pred", "any")
            want = ref(c, "bordered", [sym, num(5)]) if k in ("sbd", "reanno") else ref(c, "strengths", [sym])
            N = norms.chain(norms.frames, plainfloat)
            c.compare(f"{tag}: strength scaled once", N(parts["pred"]), N(want),
                      "predictions are scaled from 0..255 to 0..1 exactly once", where(c, k))

    def binary(k):
        strength(k, bsds_job(c), TITLE[k], where(c, k))

    def generic(k):
        strength(k, generic_job(c), "generic binary", at(c, GENERIC_AT))

    def strength(k, J, title, wh):
        p = got(J, "pred")
        fs = [x for x in X.subterms(p) if is_open(x)]
        if len(fs) != 1:
            raise Lost("prediction file not recognised")
        want = mk("call", mk("ext", "skimage.util.img_as_float"), mk("tuple", fs[0]), mk("kw"))
        alt = ref(c, "strengths", [fs[0]])

        def N(t):
            t = plainfloat(t)
            return X.subst(t, lambda x: X.subst(plainfloat(alt), lambda y: None)
                           if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in (
                               "skimage.util.img_as_float", "skimage.img_as_float", "skimage.util.img_as_float64")
                           else mk("asarray", x) if x is fs[0] else None)
        c.compare(f"{title}: strength scaled once", bare(N(p)), bare(N(want)),
                  "predictions are scaled from 0..255 to 0..1 exactly once", wh,
                  allowed=("skimage.io.imread", "skimage.util.img_as_float"))

    each(c, MULTI, grids)
    each(c, ("bsds",), binary)
    each(c, ("bsds",), generic)
    return "sizes, filters and scaling of every image reaching the scorer"


def bare(t):
    return norms.bottom_up(lambda x: x.a[0] if x.op == "asarray" else None)(t)


# ------------------------------------------------------------------ C24
def exists_false(t, p):
    """Condition t when the file or directory p is missing."""
    def leaf(x):
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in (
                "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.lexists") and x.a[1].a and \
                x.a[1].a[0] is p:
            return FALSE
        return None
    return X.subst(t, leaf)


def vectors(t):
    """Arrays of known length element by element; roundings to two or more digits left out."""
    def items(x):
        return x.a if x.op in ("list", "tuple") and not any(y.op == "star" for y in x.a) else None

    def ext(x):
        return x.a[0].a[0] if x.op == "call" and x.a[0].op == "ext" else None

    def f(x):
        n = ext(x)
        if n in ("numpy.round", "numpy.around", "numpy.round_", "builtins.round") and len(x.a[1].a) == 2 and \
                x.a[1].a[1].op == "num" and x.a[1].a[1].a[0] >= 2:
            return x.a[1].a[0]
        if n in ("numpy.array", "numpy.asarray") and len(x.a[1].a) == 1 and items(x.a[1].a[0]) is not None:
            return mk("list", *x.a[1].a[0].a)
        if x.op == "asarray" and items(x.a[0]) is not None:
            return mk("list", *x.a[0].a)
        if x.op in ("poly", "mono"):
            vs = [y for y in X.subterms(x) if y.op == "list"]
            p = X.poly_of(x)
            if len(p) == 1:
                (m, q), = p.items()
                ls = [(y, e) for y, e in m if y.op == "list"]
                if len(ls) == 1 and ls[0][1] == 1 and len(m) == 1:
                    return mk("list", *[X.mul(num(q), y) for y in ls[0][0].a])
        if n == "numpy.nanmean" and len(x.a[1].a) == 1 and items(x.a[1].a[0]):
            qs = set()
            for y in x.a[1].a[0].a:
                p = X.poly_of(y)
                if len(p) != 1:
                    return None
                qs |= set(p.values())
            if len(qs) == 1 and qs != {1}:
                q, = qs
                return X.mul(num(q), mk("call", x.a[0], mk("tuple", mk("list", *[
                    X.mul(num(1 / q), y) for y in x.a[1].a[0].a])), *x.a[2:]))
        return None
    return norms.bottom_up(f)(t)


def C28(c):
    spec(c)
    TAB = S("table", "any")
    PCT = ("ODS_recall", "ODS_precision", "ODS_f1")

    def run(k, cats, save=SAVE, mode="post-seal", IS=True):
        I = Interp(c.ix, opaque=[c.q("spec.jobs.probe"), c.q("spec.jobs.drawn")])
        I.stand_ins["prettytable.PrettyTable"] = c.q("spec.jobs.Table")
        I.stand_ins["prettytable.prettytable.PrettyTable"] = c.q("spec.jobs.Table")
        p = dict(SET, eval_mode=const(mode), instance_sensitive=B[IS])
        r = c.run("spec.jobs.several", [mk("cls", c.q("spec.jobs." + PROBE[k])), ROOT, PRED, NAMES, TAB, cats,
                                        T_, NP, save, kwd(p)], interp=I)
        r.calls = [e for e in r.events if e.kind == "call" and str(e.name).endswith("probe")]
        return r

    def tables(r, t):
        """Tables drawn into a text, in order: ({column name: values}, ...)."""
        out = []
        for x in X.subterms(t):
            if x.op == "call" and x.a[0].op == "fn" and str(x.a[0].a[0]).endswith("drawn"):
                kw = dict(zip([y for y in x.a[2].a[::2]], x.a[2].a[1::2]))
                names, cols, rows = [r.I.deep(r.st, kw[y]) for y in ("names", "columns", "rows")]
                if cols.op != "list" or names.op not in ("list", "tuple") or rows.op != "list":
                    raise Lost("table of unknown columns")
                if rows.a and not cols.a:
                    if any(y.op not in ("list", "tuple") or len(y.a) != len(names.a) for y in rows.a):
                        raise Lost("table of unknown rows")
                    cols = mk("list", *[mk("list", *[y.a[i] for y in rows.a]) for i in range(len(names.a))])
                elif rows.a or len(names.a) != len(cols.a):
                    raise Lost("table of unknown rows")
                out.append({n.a[0] if n.op == "str" else pretty(n): vectors(v)
                            for n, v in zip(names.a, cols.a)})
        return out

    def asked(k):
        """[what is asked for], categories that have to be evaluated"""
        n = N_of(k)
        return [(mk("list", num(3), num(1)), [3, 1]), (num(5), [5]), (NONE, list(range(1, n + 1))),
                (mk("list", num(2)), [2]), (mk("list", num(n)), [n]),
                (mk("list", *[num(v) for v in (7, 2, 15, 4)]), [7, 2, 15, 4])]

    def evaluated(k):
        for cats, want in asked(k):
            r = run(k, cats)
            tag = f"{TITLE[k]}: categories {pretty(cats)}"
            if r.raises:
                c.violate(tag, *where(c, k), "every requested category is evaluated", "evaluation is refused")
                continue
            gs = [e for e in r.calls if e.loops]
            if gs:
                raise Lost("categories evaluated in a loop that is not unfolded")
            c.compare(f"{tag}: evaluated once each, in order",
                      mk("list", *[r.I.deep(r.st, e.args["category"]) for e in r.calls]),
                      mk("list", *[num(v) for v in want]), "each requested category is evaluated exactly once",
                      where(c, k))
            for e in r.calls:
                for p, v in (("thresholds", T_), ("nproc", NP), ("save_dir", SAVE)):
                    c.compare(f"{tag}: {p} of category {pretty(e.args['category'])}", r.I.deep(r.st, e.args[p]), v,
                              "every category is evaluated with the given settings and saved under the given directory",
                              where(c, k), norm=NORM)

    def reported(k):
        names = [w.replace("*", " ") for w in (CITY if N_of(k) == 19 else VOC)]
        for cats, want in asked(k):
            r = run(k, cats)
            tag = f"{TITLE[k]}: categories {pretty(cats)}"
            cl = mk("list", *[num(v) for v in want])
            fs = {stem(p): (r.I.deep(r.st, f, keep_files=False), p) for f, (p, m, g) in r.I.files.items()
                  if X.contains(p, lambda x: x is SAVE)}
            if "overall_eval_bdry.txt" not in fs:
                raise Lost("no overall metrics are written")
            c.compare(f"{tag}: overall metrics", vectors(fs["overall_eval_bdry.txt"][0]),
                      vectors(ref(c, "overall", [TAB, cl])), "overall metrics are NaN-ignoring means over the "
                      "evaluated categories", where(c, k))
            if "results.txt" not in fs:
                raise Lost("no result tables are written")
            ts = tables(r, fs["results.txt"][0])
            per = [t for t in ts if "Class" in t]
            tot = [t for t in ts if "Class" not in t]
            if per and not tot:
                c.violate(f"{tag}: summary table", *where(c, k), "the results hold a per-class table and a summary",
                          "the per-class table is written twice, the summary is not")
                continue
            if len(per) != 1 or len(tot) != 1:
                raise Lost(f"{len(ts)} tables in the results")
            per, tot = per[0], tot[0]
            c.compare(f"{tag}: class names", per["Class"], mk("list", *[const(names[v - 1]) for v in want]),
                      "values are listed under the name of their own category", where(c, k))
            for m in sorted(set(per) | {"ODS_threshold"} | set(PCT)):
                if m == "Class":
                    continue
                tg = f"{tag}: per-class {m}"
                if m not in KEYS_ or m not in per:
                    c.violate(tg, *where(c, k), "every per-class metric is listed once under its own name",
                              f"columns are {sorted(per)}")
                    continue
                c.compare(tg, per[m], vectors(ref(c, "column", [TAB, cl, const(m), num(1 if m == "ODS_threshold"
                                                                                       else 100)])),
                          "thresholds are unscaled, other scores in percent, in category order", where(c, k))
            for m in sorted(set(tot) | set(PCT) | {"AUC"}):
                tg = f"{tag}: mean {m}"
                if m not in KEYS_ or m not in tot:
                    c.violate(tg, *where(c, k), "every metric of the summary is listed once under its own name",
                              f"columns are {sorted(tot)}")
                    continue
                want_ = ref(c, "mean_of", [TAB, cl, const(m), num(1 if m == "ODS_threshold" else 100)])
                c.compare(tg, tot[m], mk("list", vectors(want_)), "the summary is the NaN-ignoring mean over the "
                          "evaluated categories", where(c, k))

    def saved(k):
        J = job(c, k, save=SAVE) if k != "bsds" else bsds_job(c, save=SAVE)
        m = J.e.value
        if m is None:
            raise Lost("metrics of the category not recognised")
        g = J.r
        home = ref(c, "class_dir", [SAVE, CAT]).a if k != "bsds" else (SAVE,)
        for i, (what, f) in enumerate((("img", "eval_bdry_img.txt"), ("thr", "eval_bdry_thr.txt"),
                                       ("all", "eval_bdry.txt"))):
            written(c, g, X.join(*home, const(f)), what, X.index(m, num(i)), where(c, k),
                    f"{TITLE[k]}: the results of a category are saved as its own ({f})")
        if k != "bsds":
            c.compare(f"{TITLE[k]}: a category reports its own overall metrics", g.I.deep(g.st, g.value),
                      X.index(m, num(2)), "the summary averages the overall metrics of each category", where(c, k))

    each(c, MULTI, evaluated)
    each(c, MULTI, reported)
    each(c, MULTI + ("bsds",), saved)
    return "calls of the category evaluation and contents of the result files for each way to ask for categories"


KEYS_ = ("ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1",
         "AUC", "AP")
PROBE = {"cityscapes": "ProbeCityscapes", "half": "ProbeHalf", "otf": "ProbeOTF", "sbd": "ProbeSBD",
         "reanno": "ProbeReanno"}


def closed(g):
    """A part of a condition that has no free input but was not decided."""
    for x in X.subterms(g):
        if x.op in ("cmp", "truth", "not", "call", "method") and x.op not in UNKNOWN_OPS and not X.contains(
                x, lambda y: y.op in ("sym", "file", "bv", "iv", "exc")) and not (
                x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].startswith(("time.", "os.", "logging."))):
            return x
        if x.op in UNKNOWN_OPS and x.op != "exc":
            return x
    return None


def C24(c):
    spec(c)

    def refused(k, tag, J, want=True):
        on = J is None or J.guard is FALSE
        if on != want and not on and closed(J.guard):
            c.undecided(f"{TITLE[k]}: {tag}", "condition not understood: " + pretty(closed(J.guard)))
            return
        c.require(on == want, f"{TITLE[k]}: {tag}", *where(c, k),
                  "invalid configurations are refused" if want else "valid configurations are accepted",
                  f"{tag} is {'accepted' if want else 'refused'}")

    def run(k, **kw):
        return bsds_job(c, **kw) if k == "bsds" else job(c, k, **kw)

    def ranges(k):
        if k != "bsds":
            N = N_of(k)
            for v in (0, -1, N + 1, N + 2, 255):
                refused(k, f"category {v}", run(k, category=num(v)))
            for v in (1, N):
                refused(k, f"category {v}", run(k, category=num(v)), False)
        if k != "half":
            for v in (0, -0.5, 1.0001, 2, 1.5):
                refused(k, f"scale {v}", run(k, scale=num(v)))
            for v in (0.001, 0.25, 0.5, 1):
                refused(k, f"scale {v}", run(k, scale=num(v)), False)
        for v, t in ((mk("list"), "an empty sample list"), (const("a"), "a text as sample list"),
                     (mk("tuple", const("a")), "a tuple as sample list"), (num(3), "a number as sample list")):
            refused(k, t, run(k, names=v))
        for v in ("train", "trainval", "", "foo"):
            refused(k, f"split `{v}`", run(k, split=v))
        for v in ("val", "test"):
            refused(k, f"split `{v}`", run(k, split=v), False)
        if k in ("cityscapes", "half", "otf"):
            for thin in (False, True):
                refused(k, f"instance-sensitive pre-SEAL (thin={thin})", run(k, mode="pre-seal", IS=True, thin=thin))
                refused(k, f"pre-SEAL (thin={thin})", run(k, mode="pre-seal", IS=False, thin=thin), False)

    def missing(k):
        sub = {"cityscapes": ["gtEval/val", "gtFine/val"], "half": ["gtEval/val", "gtFine/val"],
               "otf": ["gtFine/val"], "sbd": ["gtEval"], "reanno": ["gtEval"], "bsds": ["groundTruth"]}[k]
        two = mk("list", S("first", "str"), S("second", "str"))
        for cfg in ([dict(thin=t, IS=s) for t in (False, True) for s in (False, True)] if k != "bsds" else [{}]):
            kw = dict(cfg)
            if k != "bsds":
                kw.update(mode=None, kill_internal=TRUE)
            kw["save"] = SAVE
            J = run(k, names=two, **kw)
            tag = "".join(f" {a}={b}" for a, b in cfg.items())
            if J is None:
                c.violate(f"{TITLE[k]}: existing files{tag}", *where(c, k), "valid configurations are accepted",
                          "evaluation is refused")
                continue
            G = J.guard
            need = [(ROOT, "dataset directory"), (PRED, "prediction directory")]
            for s in sub:
                need.append((X.join(ROOT, *[const(x) for x in s.split("/")]), f"directory {s}"))
            for n in (0, 1):
                J = run(k, names=two, at=num(n), **kw)
                for f in ("gt", "gt_seg", "gts"):
                    if J.sc.get(f, NONE) is NONE:
                        continue
                    for p in opened(J.sc[f]):
                        if X.contains(p, lambda x: x is ROOT) and (p, f) not in need:
                            need.append((p, f"ground-truth file {stem(p)} of sample {n + 1}"))
            done = set()
            for p, t in need:
                if p in done:
                    continue
                done.add(p)
                g = exists_false(G, p)
                if g is FALSE:
                    c.ok(f"{TITLE[k]}: missing {t}{tag}")
                    continue
                why = not_understood(g, BASE_VOCAB)
                if why and "exc(" not in why:
                    c.undecided(f"{TITLE[k]}: missing {t}{tag}", why)
                else:
                    c.violate(f"{TITLE[k]}: missing {t}{tag}", *where(c, k), "missing inputs are refused before scoring",
                              f"evaluation starts although {pretty(p)} does not exist")

    def earlier(k):
        """What is refused is refused before the scorer runs: the guard of the metrics call carries it."""
        J = run(k)
        lo = [e for e in J.r.events if e.kind == "call" and "evaluate_boundaries" in str(e.name)
              and J.r.events.index(e) < J.r.events.index(J.e)]
        c.require(not lo, f"{TITLE[k]}: nothing is scored before the checks", *where(c, k),
                  "checks come before scoring", "a sample is scored while jobs are collected")

    fn = "pyEdgeEval.helpers.convert_cityscapes.convert_label_to_semantic_edges"
    q = c.ix.need(fn)
    wh = (c.ix.modules[q[3]].rel, q[2].lineno)
    for inst in (TRUE, FALSE):
        for seal in (TRUE, FALSE):
            for v in (0, 1, 2, 3, 5):
                I = Interp(c.ix, opaque=[c.q("pyEdgeEval.edge_tools." + f) for f in
                                         ("loop_mask2edge", "loop_instance_mask2edge")])
                r = c.run(fn, [X.join(S("root", "word"), const("gtFine"), X.cat(S("base", "word"),
                                      const("_gtFine_labelIds.png")))],
                          dict(inst_sensitive=inst, radius=num(v), thin=TRUE, seal=seal), interp=I)
                c.require(r.raises == (v != 1), f"edge conversion: thin with radius {v} (instances={inst is TRUE}, "
                          f"seal={seal is TRUE})", *wh, "thin ground truth is only made with radius 1",
                          f"radius {v} is {'accepted' if v != 1 else 'refused'}")

    each(c, MULTI + ("bsds",), ranges)
    each(c, MULTI + ("bsds",), missing)
    each(c, MULTI + ("bsds",), earlier)
    return "configurations evaluated to the condition under which scoring starts"
