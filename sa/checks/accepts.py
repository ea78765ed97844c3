"""C42: operations accept every valid input, up to the ends of its range, and refuse the invalid ones they document."""
import ast
from ..core import *
from .. import terms as X
from ..linear import Prover
from ..terms import mk, const, num, NONE, TRUE, FALSE
from .edges import spec as edge_spec
from .small import exists, where

P = "pyEdgeEval."
H, W, N, D = S("h", "int"), S("w", "int"), S("n", "int"), S("d", "int")
MASK, INST, IMG, EDGE, A, B = (S(x, "array") for x in ("mask", "inst", "img", "edge", "img0", "img1"))
TABLE, IDS, LABELS, LABEL = S("table", "dict"), S("ids", "list"), S("labels", "list"), S("label", "int")
DTYPES = {"float64": "builtins.float", "float32": "numpy.float32", "uint8": "numpy.uint8", "int64": "builtins.int",
          "int32": "numpy.int32", "bool": "builtins.bool", "uint16": "numpy.uint16"}
DTYPES = {k: mk("ext", v) for k, v in DTYPES.items()}
NAMES = set(DTYPES.values())
POSITIVE = [X.cmp_("<=", X.ONE, x) for x in (H, W, N, D)]
DERIVED = {"call", "lost", "lastval", "unknown", "index", "zeros", "update", "method", "mcall", "array", "stack"}
RULE = "valid input is accepted, up to the ends of its range"
KINDS = {"numpy.floating": "float", "numpy.integer": ("int", "uint"), "numpy.signedinteger": "int",
         "numpy.unsignedinteger": "uint", "numpy.number": ("int", "uint", "float"), "numpy.inexact": "float"}
REFUSED = "input outside the documented domain is refused"


def tup(*x):
    return mk("tuple", *[num(v) if isinstance(v, int) else v for v in x])


def lst(*x):
    return mk("list", *[num(v) if isinstance(v, int) else v for v in x])


def conjuncts(t):
    return [y for x in t.a for y in conjuncts(x)] if t.op == "and" else [t]


def called(x):
    return str(x.a[0].a[0]) if x.op == "call" and isinstance(x.a[0], T) and x.a[0].op == "ext" else None


def files(x):
    return called(x.a[0] if x.op == "truth" else x) in (
        "os.path.exists", "os.path.isdir", "os.path.isfile", "os.path.lexists")


def atoms(t):
    """The conditions a boolean term is built of."""
    if t.op in ("and", "or", "not", "truth"):
        return [y for x in t.a for y in atoms(x)]
    return [t]


def settler(types, facts):
    known = dict(facts)
    known.update({mk("attr", k, "dtype"): DTYPES[v] for k, v in types.items()})
    for x, sh in X.SHAPES.items():
        n = X.ONE
        for d in sh.a:
            n = X.mul(n, d)
        known.setdefault(mk("attr", x, "size"), n)

    def fact(x):
        if files(x) and not X.contains(x, lambda y: y.op == "iv"):
            return TRUE
        if x.op == "cmp" and x.a[0] == "==":
            a, b = (known.get(y, y) for y in x.a[1:3])
            if a in NAMES and b in NAMES:
                return const(a is b)
        if called(x) == "numpy.issubdtype" and len(x.a[1].a) == 2:
            a, b = (known.get(y, y) for y in x.a[1].a)
            n = [k for k, v in DTYPES.items() if v is a]
            if n and b.op == "ext" and b.a[0] in KINDS:
                return const(n[0].startswith(KINDS[b.a[0]]))
        return known.get(x)

    def settle(t):
        for _ in range(6):
            u = X.subst(t, fact)
            if u is t:
                break
            t = u
        return t
    return settle


def guarded_by_handler(c, e):
    """Whether the statement of the event stands in a try block that has handlers."""
    for m in c.ix.modules.values():
        if m.rel == e.file:
            for t in ast.walk(m.tree):
                if isinstance(t, ast.Try) and t.handlers and any(
                        s.lineno <= e.line <= (s.end_lineno or s.lineno) for s in t.body):
                    return True
    return False


def element(guard):
    """Whether it depends on the loops' elements only that a place is reached."""
    return all(X.contains(y, lambda x: x.op == "iv") for y in conjuncts(guard) if y is not TRUE)


def constant(c, e):
    """Whether the event's assertion is a constant in the source."""
    for m in c.ix.modules.values():
        if m.rel == e.file:
            return any(isinstance(t, ast.Assert) and t.lineno <= e.line <= (t.end_lineno or t.lineno) and isinstance(
                t.test, ast.Constant) for t in ast.walk(m.tree))
    return True


def outcome(c, r, types, facts, valid):
    """(verdict, condition): accepted, refused, or None with the condition that is left."""
    settle = settler(types, dict(facts))
    passed = {y for e in r.events if e.kind == "assert" for y in conjuncts(e.args["cond"])}

    def reached(g):
        return settle(X.and_(*[y for y in conjuncts(g) if y not in passed]))

    pc = settle(r.st.pc)
    if pc is FALSE or r.raises:
        return False, r.st.pc, None
    for e in r.events:
        if e.kind == "assert" and not e.loops and reached(e.guard) is TRUE and settle(e.args["cond"]) is FALSE:
            return False, e.args["cond"], e
        if e.kind == "raise" and not e.loops and reached(e.guard) is TRUE and not guarded_by_handler(c, e):
            return False, e.guard, e
        if e.kind in ("indexerror", "keyerror") and not guarded_by_handler(c, e) and (
                reached(e.guard) is TRUE or e.loops and element(reached(e.guard))):
            return False, mk("call", mk("ext", e.kind), tup(), mk("kw")), e
        if e.kind == "assert" and e.loops and settle(e.args["cond"]) is FALSE and not constant(c, e) and element(
                reached(e.guard)):
            return False, e.args["cond"], e
    left = []
    for y in conjuncts(pc):
        if y is TRUE:
            continue
        if X.contains(y, lambda x: x.op in DERIVED):
            # conditions on computed values are not conditions on the input
            if not valid and any(x.op == "call" for x in atoms(y)):
                left.append(y)
            continue
        if not Prover(lambda x: x.op == "sym" and x.a[1] == "int").proves(POSITIVE, y):
            left.append(y)
    if left:
        return None, left[0], None
    return True, TRUE, None


def cases(c):
    """(what, path, keywords, shapes, element types, facts, valid)"""
    ok, bad = True, False
    hw, nhw = tup(H, W), tup(N, H, W)
    # label maps
    for p in ("utils.mask_label2trainId",):
        for sh, v in ((hw, ok), (tup(H, W, 1), ok), (tup(H, W, 3), bad), (tup(H), bad), (tup(1, 1), ok), (tup(1, H, W, 1), bad)):
            yield f"label map of shape {X.pretty(sh)}", p, dict(mask=MASK, label2trainId=TABLE), {MASK: sh}, {}, {}, v
    for sh, v in ((nhw, ok), (tup(1, H, W), ok), (tup(19, 1, 1), ok), (hw, bad), (tup(H), bad)):
        yield f"edge stack of shape {X.pretty(sh)}", "utils.edge_label2trainId", dict(edge=EDGE, label2trainId=TABLE), \
            {EDGE: sh}, {}, {}, v
    for L, t, v in ((lst(7), "one label", ok), (lst(0), "label 0", ok), (lst(255, 0), "two labels", ok),
                    (tup(3, 4), "a tuple of labels", ok), (lst(), "no label", bad)):
        yield t, "utils.mask2onehot", dict(mask=MASK, labels=L), {MASK: hw}, {}, {}, v
    # generators
    plain = dict(mask=MASK, ignore_indices=lst(), radius=num(1), use_cv2=TRUE, quality=num(0))
    inst = dict(inst_mask=INST, inst_labelIds=lst(24, 25))
    for fn, kw in (("loop_mask2edge", {}), ("loop_instance_mask2edge", inst), ("mp_mask2edge", dict(nproc=num(1))),
                   ("mp_instance_mask2edge", dict(inst, nproc=num(1)))):
        for sh, v in ((nhw, ok), (tup(1, H, W), ok), (tup(19, 1, 1), ok), (hw, bad)):
            yield f"stack of shape {X.pretty(sh)}", "edge_tools." + fn, dict(plain, **kw), {MASK: sh, INST: hw}, {}, {}, v
        for t, o in (("ignored channels", dict(ignore_indices=lst(0, 2))), ("a large radius", dict(radius=num(255))),
                     ("the exact distance", dict(use_cv2=FALSE)), ("a worker more", dict(nproc=num(9)) if "nproc" in kw else {}),
                     ("one instance label", dict(inst_labelIds=lst(33)) if "inst_mask" in kw else {}),
                     ("instance labels in a tuple", dict(inst_labelIds=tup(24)) if "inst_mask" in kw else {})):
            yield t, "edge_tools." + fn, dict(plain, **dict(kw, **o)), {MASK: nhw, INST: hw}, {}, {}, ok
    for fn, kw in (("one_label_mask2edge", {}), ("one_label_instance_mask2edge", inst)):
        for k, v in ((0, ok), (1, ok), (18, ok), (19, bad), (25, bad)):
            yield f"channel {k} of 19", "datasets.otf_cityscapes." + fn, dict(plain, label=num(k), **kw), \
                {MASK: tup(19, H, W), INST: hw}, {}, {}, v
        yield "channel 0 of 1", "datasets.otf_cityscapes." + fn, dict(plain, label=num(0), **kw), \
            {MASK: tup(1, H, W), INST: hw}, {}, {}, ok
    # transforms
    for IS in (False, True):
        d = "spec.accepts." + ("instance" if IS else "plain")
        kw = dict(plain, labelIds=lst(7, 8), label2trainId=NONE, **(inst if IS else {}))
        n = "instance transform: " if IS else "transform: "
        for t, o, sh, v in (
                ("two labels", {}, hw, ok), ("one label", dict(labelIds=lst(7)), hw, ok), ("label 0", dict(labelIds=lst(0)), hw, ok),
                ("labels in a tuple", dict(labelIds=tup(7, 8)), hw, ok), ("radius 2", dict(radius=num(2)), hw, ok),
                ("a large radius", dict(radius=num(255)), hw, ok), ("ignored channels", dict(ignore_indices=lst(0)), hw, ok),
                ("the exact distance", dict(use_cv2=FALSE), hw, ok), ("a renumbering", dict(label2trainId=TABLE), hw, ok),
                ("a map of one pixel", {}, tup(1, 1), ok), ("quality 1", dict(quality=num(1)), hw, ok),
                ("no label", dict(labelIds=lst()), hw, bad), ("radius 0", dict(radius=num(0)), hw, bad),
                ("a negative radius", dict(radius=num(-1)), hw, bad), ("a stack instead of a map", {}, tup(3, H, W), bad),
                ("a colour map", {}, tup(H, W, 3), bad)):
            yield n + t, d, dict(kw, **o), {MASK: sh, INST: sh}, {}, {}, v
        if IS:
            yield n + "instances of another size", d, kw, {MASK: tup(4, 6), INST: tup(4, 7)}, {}, {}, bad
            yield n + "instances transposed", d, kw, {MASK: tup(4, 6), INST: tup(6, 4)}, {}, {}, bad
            for t, L in (("instance labels in a tuple", tup(24, 25)), ("one instance label", lst(33))):
                yield n + t, d, dict(kw, inst_labelIds=L), {MASK: hw, INST: hw}, {}, {}, ok
    for run, v in (("loop", ok), ("mp", ok), ("pool", bad), ("", bad)):
        for IS in (FALSE, TRUE):
            kw = dict(plain, **(inst if IS is TRUE else {}), **({"nproc": num(2)} if run == "mp" else {}))
            yield f"mask2edge({run!r}, instance_sensitive={IS is TRUE})", "edge_tools.mask2edge", dict(
                kw, run_type=const(run), instance_sensitive=IS), {MASK: nhw, INST: hw}, {}, {}, v
    # predictions
    nms = dict(img=IMG, r=num(1), s=num(5), m=num(1.01))
    for half in (FALSE, TRUE):
        for t, v in (("float64", ok), ("float32", ok), ("uint8", ok)):
            yield f"{t} map (half precision {half is TRUE})", "preprocess.fast_nms", dict(nms, half_prec=half), {IMG: hw}, \
                {IMG: t}, {}, v
    yield "16-bit integer map", "preprocess.fast_nms", dict(nms, half_prec=FALSE), {IMG: hw}, {IMG: "uint16"}, {}, bad
    for k in (NONE, num(1), num(50)):
        yield f"{X.pretty(k)} iterations", "preprocess.bwmorph_thin", dict(image=IMG, n_iter=k), {IMG: hw}, {}, {BINARY: FALSE}, ok
    for k in (num(0), num(-1)):
        yield f"{X.pretty(k)} iterations", "preprocess.bwmorph_thin", dict(image=IMG, n_iter=k), {IMG: hw}, {}, {BINARY: FALSE}, bad
    for sh in (tup(H), tup(H, W, 3)):
        yield f"map of shape {X.pretty(sh)}", "preprocess.bwmorph_thin", dict(image=IMG, n_iter=NONE), {IMG: sh}, {}, \
            {BINARY: FALSE}, bad
    # matcher and suppression
    for sh in (hw, tup(1, W), tup(H, 1), tup(1, 1)):
        for d, o in ((num(0.0075), num(100)), (num(1), num(1.5)), (num(1e-6), num(1000))):
            yield f"maps of shape {X.pretty(sh)}, tolerance {X.pretty(d)}, outliers {X.pretty(o)}", "_lib.correspond_pixels", dict(
                img0=A, img1=B, max_dist=d, outlier_cost=o), {A: sh, B: sh}, {}, {}, ok
        yield f"maps of shape {X.pretty(sh)}", "_lib.nms", dict(edge=A, ori=B), {A: sh, B: sh}, {}, {}, ok
    for t, d, o in (("tolerance 0", num(0), num(100)), ("a negative tolerance", num(-0.1), num(100)),
                    ("outlier cost 1", num(0.01), num(1)), ("outlier cost 0", num(0.01), num(0))):
        yield t, "_lib.correspond_pixels", dict(img0=A, img1=B, max_dist=d, outlier_cost=o), {A: hw, B: hw}, {}, {}, bad
    # thresholds
    for t, x, v in (("one threshold", num(1), ok), ("99 thresholds", num(99), ok), ("a list", lst(0.5), ok),
                    ("a list of two", lst(0.25, 0.75), ok), ("a text", const("99"), bad), ("nothing", NONE, bad),
                    ("a tuple", tup(0.5), None)):
        if v is not None:
            yield t, "common.utils.check_thresholds", dict(thresholds=x), {}, {}, {}, v
    Y = S("thr", "array")
    for sh, v in ((tup(N), ok), (tup(1), ok), (tup(N, N), bad), (tup(1, 1), bad)):
        yield f"array of shape {X.pretty(sh)}", "common.utils.check_thresholds", dict(thresholds=Y), {Y: sh}, {}, {}, v
    # conversion
    CL = "helpers.convert_cityscapes.convert_label_to_semantic_edges"
    f = const("data/gtFine/val/city/base_gtFine_labelIds.png")
    for IS in (FALSE, TRUE):
        one = dict(label_file=f, inst_sensitive=IS)
        for ext, v in ((".png", ok), (".tif", ok), (".bin", ok), (".jpg", bad), (".npy", bad)):
            yield f"edges stored as {ext} (instances {IS is TRUE})", CL, dict(one, edge_suffix=const("_edge" + ext)), {}, {}, {}, v
        for thin, radius, v in ((TRUE, 1, ok), (FALSE, 1, ok), (FALSE, 2, ok), (FALSE, 10, ok), (TRUE, 2, bad)):
            for scale, seal in ((1, TRUE), (0.5, TRUE), (0.5, FALSE)):
                yield f"{'thin' if thin is TRUE else 'raw'}, radius {radius}, scale {scale}, SEAL {seal is TRUE}, " \
                    f"instances {IS is TRUE}", CL, dict(one, thin=thin, radius=num(radius), scale=num(scale), seal=seal), \
                    {}, {}, {}, v
        for ext, v in (("png", ok), ("tif", ok), ("bin", ok), ("jpg", bad), (".png", bad), ("", bad)):
            for half in (FALSE, TRUE):
                yield f"data set stored as {ext!r} (instances {IS is TRUE}, half {half is TRUE})", \
                    "helpers.convert_cityscapes.convert_cityscapes", dict(
                        proc_dirname=const("gtEval"), inst_sensitive=IS, ext=const(ext), save_half_val=half,
                        nproc=num(1)), {}, {}, {}, v
    # directory scans
    for d in (S("root", "str"),):
        for t, x, v in (("every file", NONE, ok), ("one suffix", const(".png"), ok), ("several suffixes", mk(
                "tuple", const(".png"), const(".tif")), ok), ("a number as suffix", num(3), bad)):
            for rec in (FALSE, TRUE):
                yield f"{t} (recursive {rec is TRUE})", "utils.scandir", dict(dir_path=d, suffix=x, recursive=rec), {}, {}, {}, v
    yield "a number as directory", "utils.scandir", dict(dir_path=num(3)), {}, {}, {}, bad
    # curves
    algs = lst(S("alg0", "obj"), S("alg1", "obj"))
    names = lst(const("a"), const("b"))
    V = "common.binary_label.visualize.plot_pr_curve"
    colors = S("colors", "list")
    for t, kw, facts, v in (
            ("one algorithm", dict(algs=lst(S("alg0", "obj"))), {}, ok), ("two algorithms", dict(algs=algs), {}, ok),
            ("no human curve", dict(algs=algs, plot_human=FALSE), {}, ok), ("names", dict(algs=algs, names=names), {}, ok),
            ("names, no human curve", dict(algs=algs, names=names, plot_human=FALSE), {}, ok),
            ("a colour per curve", dict(algs=algs, colors=colors, plot_human=FALSE), {mk("len", colors): num(2)}, ok),
            ("a colour per curve and the human's", dict(algs=algs, colors=colors), {mk("len", colors): num(3)}, ok),
            ("no algorithm", dict(algs=lst()), {}, bad), ("fewer names than algorithms", dict(
                algs=algs, names=lst(const("a"))), {}, bad),
            ("more names than algorithms", dict(algs=algs, names=lst(*[const(x) for x in "abc"])), {}, bad)):
        yield t, V, kw, {}, {}, facts, v
    # predictions of the single-boundary protocols
    for m in ("bsds", "generic_binary"):
        for t, v in (("uint8", ok), ("uint16", bad), ("float64", bad)):
            yield f"{t} prediction", f"datasets.{m}.load_predictions", dict(path=S("path", "str")), {}, {READ: t}, {}, v
    # whole directories
    rest = dict(result_dir=S("results", "str"), save_dir=S("out", "str"))
    for what, m in (("a list", S("models", "list")), ("one model", S("model", "str"))):
        for t, o, v in ((".mat files", dict(key=const("edge"), file_format=const(".mat")), ok),
                        (".npy files", dict(file_format=const(".npy")), ok),
                        (".npy files and a key", dict(key=const("edge"), file_format=const(".npy")), ok),
                        ("another format", dict(key=const("edge"), file_format=const(".txt")), bad)):
            yield f"{t}, {what}", "preprocess.nms.fast_nms.nms_all_results", dict(rest, model_name_list=m, **o), {}, {}, {}, v
    # work lists
    f, xs, it = S("func", "fn"), S("tasks", "list"), S("iterator", "list")
    for fn, kw in (("track_progress", {}), ("track_parallel_progress", dict(nproc=num(1))),
                   ("track_parallel_progress", dict(nproc=num(4), skip_first=TRUE)),
                   ("track_parallel_progress", dict(nproc=num(4), keep_order=FALSE))):
        for t, o, v in (("a list", dict(tasks=xs), ok), ("a list, no bar", dict(tasks=xs, no_bar=TRUE), ok),
                        ("an iterator and its length", dict(tasks=tup(it, num(5))), ok), ("no task list", dict(tasks=num(5)), bad)):
            yield f"{t}{' ' if kw else ''}{', '.join(f'{k}={X.pretty(x)}' for k, x in kw.items())}", \
                "utils." + fn, dict(kw, func=f, **o), {}, {}, {}, v
    for t, o in (("the default pool", {}), ("an initializer", dict(initializer=f)),
                 ("an initializer and its arguments", dict(initializer=f, initargs=tup(num(1))))):
        yield t, "utils.progressbar.init_pool", dict(process_num=num(1), **o), {}, {}, {}, ok
        yield t, "utils.track_parallel_progress", dict(func=f, tasks=xs, nproc=num(2), **o), {}, {}, {}, ok


READ = mk("call", mk("ext", "skimage.io.imread"), tup(S("path", "str")), mk("kw"))
BINARY = mk("any", X.not_(mk("call", mk("ext", "numpy.isin"), tup(mk("attr", IMG, "flat"), tup(0, 1)), mk("kw"))))

DRIVER = """
from pyEdgeEval.edge_tools import Mask2Edge, InstanceMask2Edge


def plain(mask, labelIds, ignore_indices, label2trainId, radius, use_cv2, quality):
    r = Mask2Edge(labelIds=labelIds, ignore_indices=ignore_indices, label2trainId=label2trainId, radius=radius,
                  use_cv2=use_cv2, quality=quality)
    return r(mask)


def instance(mask, inst_mask, labelIds, inst_labelIds, ignore_indices, label2trainId, radius, use_cv2, quality):
    r = InstanceMask2Edge(inst_labelIds=inst_labelIds, labelIds=labelIds, ignore_indices=ignore_indices,
                          label2trainId=label2trainId, radius=radius, use_cv2=use_cv2, quality=quality)
    return r(mask, inst_mask)
"""
TRANSFORMS = ("edge_tools.Mask2Edge", "edge_tools.InstanceMask2Edge")


def C42(c):
    edge_spec(c)
    c.driver("spec.accepts", DRIVER)
    for what, path, kw, shapes, types, facts, valid in cases(c):
        real = P + (TRANSFORMS["instance" in path] if path.startswith("spec.") else path)
        wh = where(c, real)
        name = f"{real.rsplit('.', 1)[1]}: {what}"
        X.SHAPES.clear()
        X.SHAPES.update(shapes)
        try:
            r = c.run(path if path.startswith("spec.") else P + path, [], kw,
                      opaque=[P + "utils.scandir"] if path.startswith("helpers.") else [])
            verdict, cond, e = outcome(c, r, types, facts, valid)
        finally:
            X.SHAPES.clear()
        if verdict is None:
            c.undecided(name, "condition left: " + X.pretty(cond)[:300])
            continue
        loc = (e.file, e.line) if e is not None and getattr(e, "file", None) else wh
        c.require(verdict == valid, name, *loc, RULE if valid else REFUSED,
                  f"{what} is {'accepted' if verdict else 'refused'}" + (
                      f": {X.pretty(cond)[:200]}" if valid else ""))
    return "the condition under which each operation returns, for inputs at and beyond the ends of its domain"
