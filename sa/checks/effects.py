"""C23: calls leave their arguments alone and keep no state."""
from ..core import *
from .. import terms as X
from ..terms import T, mk, const, num, NONE, TRUE, FALSE, and_, not_
from . import jobs
from .jobs import EVS, TITLE, MULTI, Lost, each, follow_event, got

P = "pyEdgeEval."
VIEWS = {"asarray", "ravel", "reshape", "squeeze", "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims",
         "atleast_1d", "atleast_2d", "atleast_3d", "ascontiguousarray", "asfortranarray", "flip", "flipud", "fliplr",
         "rot90", "diagonal", "broadcast_to", "array_split", "split", "vsplit", "hsplit", "require", "real", "imag",
         "view", "flatten_view", "nan_to_num_inplace"}
INTO = {"random.shuffle": 0, "numpy.random.shuffle": 0, "numpy.put": 0, "numpy.place": 0, "numpy.copyto": 0,
        "numpy.putmask": 0, "numpy.fill_diagonal": 0, "numpy.put_along_axis": 0, "heapq.heapify": 0,
        "heapq.heappush": 0, "heapq.heappop": 0, "bisect.insort": 0, "numpy.add.at": 0, "numpy.subtract.at": 0,
        "numpy.maximum.at": 0, "numpy.minimum.at": 0, "cv2.drawContours": 0, "cv2.line": 0, "cv2.circle": 0,
        "cv2.rectangle": 0, "cv2.floodFill": 0, "cv2.fillPoly": 0}
DRAWS = ("numpy.random.", "random.", "secrets.", "uuid.", "os.urandom", "numpy.random")
CHDIR = ("os.chdir", "os.environ.update", "os.putenv", "numpy.random.seed", "random.seed", "os.umask",
         "sys.setrecursionlimit", "locale.setlocale", "numpy.set_printoptions")


def A(name, depth=2):
    return ("sym", name, "array", depth)


def L(name, depth=1, kind="list"):
    return ("sym", name, kind, depth)


def V(name, kind="any"):
    return ("sym", name, kind, 0)


def D(name, **items):
    return ("dict", name, items)


# public function -> argument sets; the number is how many index steps still lead to something that can be changed
NMS = D("nms_kwargs", r=V("nms_r", "int"), s=V("nms_s", "int"), m=V("nms_m", "float"), half_prec=V("nms_half", "bool"))
FLAGS = dict(max_dist=V("max_dist", "float"), apply_thinning=V("thin", "bool"), apply_nms=V("nms", "bool"))
SCORE = dict(FLAGS, thresholds=A("thresholds", 1), pred=A("pred"))
MASKS = dict(mask=A("mask", 3), ignore_indices=L("ign"), radius=V("radius", "int"), use_cv2=V("cv2", "bool"),
             quality=V("q", "int"))
INST = dict(inst_mask=A("inst"), inst_labelIds=L("ids"))
ROW = ("threshold", "recall", "precision", "f1")
OVER = tuple(a + b for a in ("ODS_", "OIS_") for b in ("threshold", "recall", "precision", "f1")) + ("AUC", "AP")
CALC = dict(eval_single=V("eval_single"), thresholds=A("thresholds", 1), samples=L("samples", 2), nproc=V("nproc", "int"))
KERNELS = [P + "_lib.correspond_pixels", P + "preprocess.binary_thin", P + "preprocess.fast_nms"]
SUPPRESS = [P + "_lib.nms"]
TABLE = [
    ("common.binary_label.evaluate_boundaries_threshold", dict(SCORE, gt=A("gt"), nms_kwargs=NMS), KERNELS),
    ("common.binary_label.evaluate_boundaries_threshold", dict(SCORE, gt=A("gt")), KERNELS),
    ("common.binary_label.evaluate_boundaries_threshold_multiple_gts",
     dict(SCORE, gts=L("gts", 3), nms_kwargs=NMS), KERNELS),
    ("common.binary_label.evaluate_boundaries_threshold_multiple_gts", dict(SCORE, gts=L("gts", 3)), KERNELS),
    ("common.multi_label.evaluate_boundaries_threshold",
     dict(SCORE, gt=A("gt"), gt_seg=A("gt_seg"), kill_internal=V("kill", "bool"), skip_if_nonexistent=V("skip", "bool"),
          nms_kwargs=NMS), KERNELS),
    ("common.multi_label.evaluate_boundaries_threshold",
     dict(SCORE, gt=A("gt"), gt_seg=A("gt_seg"), kill_internal=V("kill", "bool"),
          skip_if_nonexistent=V("skip", "bool")), KERNELS),
    ("common.multi_label.options.kill_internal_prediction",
     dict(pred=A("pred"), gt=A("gt"), seg=A("seg"), max_dist=V("max_dist", "float")), []),
    ("common.binary_label.calculate_metrics", CALC, []),
    ("common.multi_label.calculate_metrics", CALC, []),
    ("common.utils.check_thresholds", dict(thresholds=A("thresholds", 1)), []),
    ("common.utils.check_thresholds", dict(thresholds=L("thresholds", 1)), []),
    ("common.metrics.recall", dict(count_r=A("count_r", 1), sum_r=A("sum_r", 1)), []),
    ("common.metrics.precision", dict(count_p=A("count_p", 1), sum_p=A("sum_p", 1)), []),
    ("common.metrics.f1", dict(prec=A("prec", 1), rec=A("rec", 1)), []),
    ("common.metrics.compute_rec_prec_f1", dict(count_r=A("count_r", 1), sum_r=A("sum_r", 1), count_p=A("count_p", 1),
                                                sum_p=A("sum_p", 1)), []),
    ("common.metrics.interpolated_max_scores", dict(thresholds=A("thresholds", 1), rec=A("rec", 1), prec=A("prec", 1)),
     []),
    ("common.multi_label.default_multilabel_encoding", dict(edges=A("edges", 3)), []),
    ("common.multi_label.rgb_multilabel_encoding", dict(edges=A("edges", 3)), []),
    ("common.multi_label.convert_inst_seg", dict(inst_seg=A("inst_seg"), inst_cats=A("inst_cats", 1),
                                                 present_cats=A("present", 1)), []),
    ("common.multi_label.save_sample_metrics", dict(root_dir=V("root", "str"), sample_metrics=L("samples", 2)), []),
    ("common.multi_label.save_threshold_metrics", dict(root_dir=V("root", "str"), threshold_metrics=L("rows", 2)), []),
    ("common.multi_label.save_overall_metric",
     dict(root_dir=V("root", "str"), overall_metric=D("overall", **{k: V(k, "float") for k in OVER})), []),
    ("common.multi_label.save_category_results",
     dict(root=V("root", "str"), category=V("category", "int"), sample_metrics=L("samples", 2),
          threshold_metrics=L("rows", 2), overall_metric=D("overall", **{k: V(k, "float") for k in OVER})), []),
    ("common.binary_label.save_results",
     dict(root=V("root", "str"), sample_metrics=L("samples", 2), threshold_metrics=L("rows", 2),
          overall_metric=D("overall", **{k: V(k, "float") for k in OVER})), []),
    ("preprocess.binary_thin", dict(x=A("x")), []),
    ("preprocess.binary_thin", dict(x=A("x"), max_iter=V("n", "int")), []),
    ("preprocess.bwmorph_thin", dict(image=A("image")), []),
    ("preprocess.bwmorph_thin", dict(image=A("image"), n_iter=V("n", "int")), []),
    ("preprocess.fast_nms", dict(img=A("img")), SUPPRESS),
    ("preprocess.fast_nms", dict(img=A("img"), r=num(1), s=num(3), m=V("m", "float"), half_prec=FALSE,
                                 return_as_uint8=FALSE), SUPPRESS),
    ("preprocess.fast_nms", dict(img=A("img"), r=num(4), s=num(1), m=V("m", "float"), half_prec=FALSE,
                                 return_as_uint8=TRUE), SUPPRESS),
    ("preprocess.fast_nms", dict(img=A("img"), r=num(4), s=num(1), m=V("m", "float"), half_prec=TRUE,
                                 return_as_uint8=FALSE), SUPPRESS),
    ("preprocess.fast_nms", dict(img=A("img"), r=num(0), s=num(1), m=V("m", "float"), half_prec=TRUE,
                                 return_as_uint8=TRUE), SUPPRESS),
    ("preprocess.nms.toolbox.conv_tri", dict(image=A("image"), r=num(0)), []),
    ("preprocess.nms.toolbox.conv_tri", dict(image=A("image"), r=num(1), s=num(2)), []),
    ("preprocess.nms.toolbox.conv_tri", dict(image=A("image"), r=num(4)), []),
    ("preprocess.nms.toolbox.grad2", dict(image=A("image")), []),
    ("utils.mask2onehot", dict(mask=A("mask"), labels=L("labels")), []),
    ("utils.edge_multilabel2binary", dict(edges=A("edges", 3)), []),
    ("utils.edge_onehot2multilabel", dict(edges=A("edges", 3)), []),
    ("utils.mask_label2trainId", dict(mask=A("mask"), label2trainId=L("table", 1, "dict")), []),
    ("utils.edge_label2trainId", dict(edge=A("edge", 3), label2trainId=L("table", 1, "dict")), []),
    ("utils.mask2bdry", dict(mask=A("mask"), ignore_mask=A("ignored"), radius=V("radius", "int"),
                             internal_only=V("internal", "bool"), use_cv2=V("cv2", "bool"), quality=V("q", "int")), []),
    ("utils.distance_transforms.scipy_mask2bdry", dict(m=A("mask"), ignore_mask=A("ignored"), radius=V("radius", "int")),
     []),
    ("utils.distance_transforms.cv2_mask2bdry", dict(m=A("mask"), ignore_mask=A("ignored"), radius=V("radius", "int"),
                                                     quality=V("q", "int")), []),
    ("edge_tools.loop_mask2edge", dict(MASKS, thin=V("thin", "bool"), internal_only=V("internal", "bool")), []),
    ("edge_tools.loop_instance_mask2edge", dict(MASKS, **INST, thin=V("thin", "bool"),
                                                internal_only=V("internal", "bool")), []),
    ("edge_tools.mp_mask2edge", dict(MASKS, nproc=V("nproc", "int"), thin=FALSE), []),
    ("edge_tools.mp_instance_mask2edge", dict(MASKS, **INST, nproc=V("nproc", "int"), thin=FALSE), []),
    ("datasets.otf_cityscapes.one_label_mask2edge",
     dict(label=V("label", "int"), mask=A("mask", 3), ignore_indices=L("ign"), radius=V("radius", "int")), []),
    ("datasets.otf_cityscapes.one_label_instance_mask2edge",
     dict(label=V("label", "int"), mask=A("mask", 3), inst_mask=A("inst"), inst_labelIds=L("ids"),
          ignore_indices=L("ign"), radius=V("radius", "int")), []),
    ("_lib.correspond_pixels", dict(img0=A("a"), img1=A("b"), max_dist=V("d", "float"), outlier_cost=V("oc", "float")),
     []),
    ("_lib.nms", dict(edge=A("a"), ori=A("b"), r=V("r", "int"), s=V("s", "int"), m=V("m", "float")), []),
    ("utils.track_progress", dict(func=V("func"), tasks=L("tasks", 2)), []),
    ("utils.track_parallel_progress", dict(func=V("func"), tasks=L("tasks", 2), nproc=V("nproc", "int")), []),
    ("utils.track_iter_progress", dict(tasks=L("tasks", 2)), []),
    ("utils.sparse2numpy", dict(data=A("data")), []),
]


class Args:
    """Arguments of a call: terms, how deep each can be changed, and the references the caller keeps."""
    def __init__(self, I, st, spec, tag=""):
        self.depth, self.owned, self.kw = {}, {}, {}
        for k, v in spec.items():
            self.kw[k] = self.make(I, st, v, tag)

    def make(self, I, st, v, tag):
        if isinstance(v, T):
            return v
        if v[0] == "sym":
            s = S(v[1] + tag, v[2])
            if v[3]:
                self.depth[s] = v[3]
            return s
        r = I.new_ref(st, X.mk_dict([(const(k), self.make(I, st, x, tag)) for k, x in v[2].items()]), "dict")
        self.owned[r] = v[1]
        return r


def scalar_index(i):
    """How many scalar steps an index takes; None for a selection that copies."""
    n = 0
    for x in i.a if i.op == "tuple" else (i,):
        if x.op in ("slice", "none", "ellipsis") or x.op == "ext" and x.a[0].endswith(("newaxis", "Ellipsis")):
            continue
        if x.op in ("cmp", "and", "or", "not", "list", "maplist", "tab", "nonzero") or X.boolish(x) or (
                x.op == "sym" and x.a[1] in ("array", "barray", "list")) or x.op == "call" and x.a[0].op == "ext":
            return None
        n += 1
    return n


def origins(I, t, A_, cond=TRUE, depth=0, seen=()):
    """(what of the caller's, or what lasting state, a written value may be; under which condition)"""
    if t in seen or cond is FALSE:
        return
    seen = seen + (t,)

    def go(x, c=cond, d=depth):
        return origins(I, x, A_, c, d, seen)
    if t.op == "sym":
        if depth < A_.depth.get(t, 0):
            yield t.a[0], cond
        return
    if t.op == "ref":
        if t in A_.owned:
            yield A_.owned[t], cond
        elif t in I.initial or t in I.lasting:
            yield "a table or default value that outlives the call", cond
        elif t.a[1] == "view":
            for c in [I.initial.get(t)] if t in I.initial else [A_.cell(t)]:
                if c is not None and c.a:
                    yield from go(c.a[0])
        return
    if t.op == "index":
        n = scalar_index(t.a[1])
        if n is not None:
            yield from go(t.a[0], cond, depth + n)
        return
    if t.op == "attr" and t.a[1] in ("T", "real", "imag", "flat", "data"):
        yield from go(t.a[0])
        return
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].startswith("numpy.") and (
            t.a[0].a[0].split(".")[-1] in VIEWS) and t.a[1].a:
        yield from go(t.a[1].a[0])
        return
    if t.op == "method" and t.a[0] in VIEWS | {"get", "values", "items"}:
        yield from go(t.a[1], cond, depth + (t.a[0] not in VIEWS))
        return
    if t.op in ("astype", "asarray", "reshape", "transpose", "ditems", "dvalues", "enumerate", "zip", "reversed", "ravel",
                "squeeze"):
        for x in t.a:
            if isinstance(x, T):
                yield from go(x)
        return
    if t.op == "ite":
        yield from go(t.a[1], and_(cond, t.a[0]))
        yield from go(t.a[2], and_(cond, not_(t.a[0])))
        return
    if t.op == "mu":
        for x in I.mu_init.get(t, ()):
            yield from go(x)


def writes(I, n0):
    """(written value, how, event) of a run."""
    for e in I.events[n0:]:
        if e.guard is FALSE:
            continue
        if e.kind in ("setitem", "inplace", "mutate"):
            yield e.args["target"], {"setitem": "assigned into", "inplace": "changed in place"}.get(
                e.kind, f"`{e.name}` on it"), e
        elif e.kind == "ext" and str(e.name) in INTO and len(e.args["args"].a) > INTO[str(e.name)]:
            yield e.args["args"].a[INTO[str(e.name)]], f"changed by {e.name}", e
        elif e.kind in ("globalwrite", "classwrite"):
            yield None, f"`{e.name}` of its module or class is set", e
        elif e.kind == "setattr" and e.args["obj"].op in ("mod", "cls", "fn"):
            yield None, f"attribute `{e.name}` of {X.pretty(e.args['obj'])} is set", e


def C23(c):
    jobs.spec(c)
    rule = "the caller's data are not modified"
    keep = "no state is kept between calls"
    for path, spec, opq in TABLE:
        q = c.ix.lookup(P + path)
        name = path.split(".", 1)[1] if path.startswith("common") else path
        tag = f"{name}({', '.join(spec)})"
        if q is None or q[0] not in ("fn", "def"):
            c.undecided(tag, f"{path} is not a function")
            continue
        wh = (c.ix.modules[q[3]].rel, q[2].lineno)
        try:
            one(c, P + path, spec, opq, tag, wh, rule, keep)
        except (Lost, AnalysisError) as e:
            c.undecided(tag, str(e))

    c.driver("spec.twice", TWICE)
    transforms(c, rule, keep)

    def after_others(k):
        again(c, k, keep)

    each(c, MULTI, after_others)
    return ("writes of every public function traced to the argument, default value or module table they change; "
            "second calls compared with first calls")


def one(c, path, spec, opq, tag, wh, rule, keep):
    opaque = [c.q(o) for o in opq if c.q(o) != c.ix.need(path)[1]]
    I = Interp(c.ix, opaque=opaque)
    st = State()
    I.frames.append(Frame("root", "root"))
    a = Args(I, st, spec)
    a.cell = lambda r: st.heap.get(r)
    r = c.run(path, [], a.kw, interp=I, state=st)
    a.cell = lambda x: r.st.heap.get(x) if r.st else None
    report(c, tag, path, I, a, rule, keep)

    # a second call on other data, after a first one, against the second alone
    st2 = State()
    J = Interp(c.ix, opaque=opaque)
    J.frames.append(Frame("root", "root"))
    b = Args(J, st2, spec, "_2")
    alone = c.run(path, [], b.kw, interp=J, state=st2)
    if r.st is None or r.raises:
        c.ok(f"{tag}: second call")
        return
    I.events.clear()
    b2 = Args(I, r.st, spec, "_2")
    try:
        after = c.run(path, [], b2.kw, interp=I, state=r.st)
    except AnalysisError as e:
        c.undecided(f"{tag}: second call", str(e))
        return
    if alone.value is not None and after.value is not None:
        same(c, f"{tag}: second call", after.value, alone.value, keep, wh)


def report(c, tag, path, I, a, rule, keep, say=True):
    """Reports what a run changed that is not its own."""
    bad = {}
    n = 0
    for t, how, e in writes(I, 0):
        n += 1
        if t is None:
            if e.kind != "globalwrite":
                bad.setdefault(("state", e.file, e.line), (how, e))
            continue
        for who, g in origins(I, t, a):
            if and_(e.guard, g) is FALSE or id(e) in I.started and "outlives" in who:
                continue
            bad.setdefault((who, e.file, e.line), (how, e))
    drawn = [e for e in I.events if e.kind == "ext" and e.guard is not FALSE and (
        str(e.name).startswith(DRAWS) and not (
            str(e.name).endswith(("default_rng", "RandomState", "Random")) and e.args["args"].a) or str(e.name) in CHDIR)]
    for e in drawn:
        bad.setdefault(("process", e.file, e.line), (f"{e.name} is called", e))
    if not say:
        return
    if not bad:
        c.ok(f"{tag}: arguments", f"{n} writes")
    for (who, f, l), (how, e) in bad.items():
        if who in ("state", "process") or "outlives" in who:
            c.violate(f"{tag}: state", f, l, keep, f"{e.fn}: {how}" + (f" ({who})" if "outlives" in who else ""))
        else:
            c.violate(f"{tag}: argument {who}", f, l, rule, f"{e.fn}: `{who}` of the caller of {path} is {how}")


def same(c, name, got, want, rule, wh):
    try:
        c.compare(name, got, want, rule, wh)
    except AnalysisError as e:
        if got is want:
            c.ok(name)
        else:
            c.undecided(name, str(e))


TWICE = """
def first(make, use, a, b):
    return use(make(a), b)


def cat_after(cls, root, pred, split, thin, names, category, thresholds, nproc, save, params, cls0, thin0, names0,
              category0, params0, same):
    ev0 = cls0(root, pred, split=split, thin=thin0)
    ev0.set_sample_names(names0)
    ev0.set_eval_params(**params0)
    ev0.evaluate_category(category0, thresholds, nproc, save)
    if same:
        ev = ev0
        ev.set_sample_names(names)
    else:
        ev = cls(root, pred, split=split, thin=thin)
        ev.set_sample_names(names)
    ev.set_eval_params(**params)
    return ev.evaluate_category(category, thresholds, nproc, save)


def transform(cls, labels, ignored, table, masks, last):
    t = cls(labels, *ignored, label2trainId=table)
    if not last:
        t(*masks[0])
    return t(*masks[1])
"""


def again(c, k, keep):
    """An evaluation after other evaluations starts the same job as on its own."""
    wh = jobs.where(c, k)
    other = {"cityscapes": "half", "half": "cityscapes", "otf": "cityscapes", "sbd": "reanno", "reanno": "sbd"}[k]
    names0 = mk("list", const("a_0"), const("b_0"))

    def params(mode, IS, **kw):
        p = dict(jobs.SET, eval_mode=const(mode) if mode else NONE, instance_sensitive=jobs.B[IS])
        p.update(kw)
        return jobs.kwd(p)
    runs = [("its own evaluation of another category", k, False, None, True),
            ("its own pre-SEAL evaluation", k, False, "pre-seal", True),
            ("its own post-SEAL evaluation", k, False, "post-seal", True),
            ("a thin evaluation", k, True, None, False),
            ("an evaluation of another evaluator", other, False, "post-seal", False)]
    for mode, IS in ((None, False), (None, True), ("post-seal", True), ("pre-seal", False)):
        J = jobs.job(c, k, mode=mode, IS=IS, save=jobs.SAVE)
        for what, k0, thin0, mode0, own in runs:
            I = jobs.interp(c)
            r = c.run("spec.twice.cat_after", [
                jobs.cls(c, k), jobs.ROOT, jobs.PRED, const("val"), FALSE, jobs.NAMES, jobs.CAT, jobs.T_, jobs.NP,
                jobs.SAVE, params(mode, IS), jobs.cls(c, k0), jobs.B[thin0], names0, num(3),
                params(mode0, mode0 != "pre-seal" and not IS, max_dist=S("max_dist_0", "float")), jobs.B[own]], interp=I)
            tag = f"{TITLE[k]} ({mode or 'custom'}, instances={IS}) after {what}"
            evs = [e for e in r.events if e.kind == "call" and str(e.name).endswith("calculate_metrics")]
            if r.raises or len(evs) != 2 or J is None:
                c.undecided(tag, "not followed to the second evaluation")
                continue
            K = follow_event(c, r, evs[1])
            for f in J.sc:
                same(c, f"{tag}: {f}", K.sc.get(f, NONE), J.sc[f], keep, wh)
            for f in ("samples", "thresholds", "nproc"):
                same(c, f"{tag}: {f}", K.args.get(f, NONE), J.args.get(f, NONE), keep, wh)


def transforms(c, rule, keep):
    """The transform objects: constructor tables and masks stay as they are, calls do not depend on earlier calls."""
    for cls, inst in (("Mask2Edge", False), ("InstanceMask2Edge", True)):
        for ign in (False, True):
            for table in (False, True):
                q = c.ix.lookup(P + "edge_tools." + cls)
                tag = f"{cls}(ignored labels={ign}, table={table})"
                if q is None or q[0] != "cls":
                    c.undecided(tag, "not a class")
                    continue
                wh = (c.ix.modules[q[3]].rel, q[2].lineno)
                out = []
                try:
                    for last in (FALSE, TRUE):
                        I = Interp(c.ix, opaque=[])
                        I.frames.append(Frame("root", "root"))
                        st = State()
                        a = Args(I, st, dict(labels=L("labels"), ign=L("ign"), ids=L("ids"),
                                             table=L("table", 1, "dict"), m=A("m"), i=A("i"), m0=A("m0"), i0=A("i0")))
                        g = a.kw
                        more = ([g["ids"]] if inst else []) + ([g["ign"]] if ign else [])
                        masks = mk("tuple", *[mk("tuple", *([g[m]] + ([g[x]] if inst else [])))
                                              for m, x in (("m0", "i0"), ("m", "i"))])
                        r = c.run("spec.twice.transform", [mk("cls", q[1]), g["labels"], mk("tuple", *more),
                                  g["table"] if table else NONE, masks, last], interp=I, state=st)
                        if r.st is None:
                            raise Lost("not followed")
                        a.cell = lambda x: r.st.heap.get(x)
                        report(c, tag, P + "edge_tools." + cls, I, a, rule, keep, last is FALSE)
                        out.append(r.value)
                    same(c, f"{tag}: second call", out[0], out[1], keep, wh)
                except (Lost, AnalysisError) as e:
                    c.undecided(tag, str(e))
