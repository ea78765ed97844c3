"""C11, C30, C33: dataset conversion."""
import ast
import os
from ..core import *
from .. import terms as X
from .. import norms
from .. import strings
from .. import layout
from ..terms import mk, const, num, NONE, TRUE, FALSE, join, cat
from . import jobs as J
from . import small

U = "pyEdgeEval.utils."
ENC = ["pyEdgeEval.common.multi_label.default_multilabel_encoding",
       "pyEdgeEval.common.multi_label.rgb_multilabel_encoding"]
KEEP = [U + "track_parallel_progress", U + "track_progress", U + "scandir", U + "mkdir_or_exist",
        "pyEdgeEval.preprocess.binary_thin"] + ENC
CITY_MAIN, SBD_MAIN = "scripts.convert_datasets.cityscapes", "scripts.convert_datasets.sbd"
ROOT = S("root", "word")
CITY, BASE = S("city", "word"), S("base", "word")
SAMPLE = S("sample", "word")
FINE = ("_gtFine_color.png", "_gtFine_instanceIds.png", "_gtFine_labelIds.png", "_gtFine_polygons.json")
B = {True: TRUE, False: FALSE}


class Lost(Exception):
    """The conversion could not be followed to a stored file."""


def spec(c):
    J.spec(c)
    c.driver("spec.convert", open(os.path.join(VERIF, "sa", "specs", "convert.py")).read())


def script(c, name):
    """The body a script runs, as a function."""
    m = c.ix.modules.get(name)
    if m is None:
        raise AnalysisError(f"script {name} is missing")
    body = []
    for n in m.tree.body:
        if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(n.test)):
            body += n.body
    if not body:
        raise AnalysisError(f"script {name} runs nothing")
    fd = ast.FunctionDef(name="__script__", args=ast.arguments(
        posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[])
    ast.copy_location(fd, body[0])
    fd._sa_file = body[0]._sa_file
    m.defs["__script__"] = ("def", fd)
    c.ix._res_cache = {}
    return name + ".__script__", (m.rel, body[0].lineno)


def is_scan(t):
    return t.op == "call" and t.a[0].op == "fn" and str(t.a[0].a[0]).endswith(".scandir")


def arg(t, name):
    kw = t.a[2].a
    for i in range(0, len(kw), 2):
        if kw[i] == name:
            return kw[i + 1]
    return None


def found(t):
    """The file an element of a scan stands for: any file of the scanned kind."""
    s = arg(t, "suffix")
    if s is None or s.op != "str":
        raise Lost("the scanned suffix is not known")
    full = [f for f in FINE if f.endswith(s.a[0])]
    if len(full) != 1:
        raise Lost(f"files scanned by suffix {s.a[0]}")
    return join(CITY, cat(BASE, const(full[0])))


def concrete(I, t):
    """Elements of scans and sample lists as a named file or sample."""
    def leaf(x):
        if x.op == "index" and is_scan(bare(x.a[0])):
            return found(bare(x.a[0]))
        return None
    return named_parts(X.subst(t, leaf))


@norms.bottom_up
def named_parts(x):
    """Functions of a path or text whose pieces are known."""
    if x.op == "method" and isinstance(x.a[0], str):
        return strings.str_fn(x.a[0], x.a[1], x.a[2].a)
    if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].startswith("os.path.") and len(x.a[1].a) == 1:
        return strings.path_fn(x.a[0].a[0][8:], x.a[1].a[0])
    return None


class Stored:
    """A file written by the conversion: path, content, where, and the list it came from."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


def parts(t):
    if t.op == "concat":
        return [y for x in t.a for y in parts(x)]
    if t.op in ("tolist", "copied") and len(t.a) == 1:
        return parts(t.a[0])
    return [t]


def writes(r, n0=0):
    """(path, content, event) of the images and raw arrays written by a run."""
    out = []
    for e in r.I.events[n0:]:
        if e.guard is FALSE:
            continue
        if e.kind == "method" and e.name in ("save", "tofile"):
            a = e.args["args"].a if isinstance(e.args["args"], T) else e.args["args"]
            a = [r.I.deep(r.st, x) for x in a]
            if not a:
                raise Lost(f"target of {e.name}")
            out.append((a[0], r.I.deep(r.st, e.args["recv"]), e))
        elif e.kind == "ext" and str(e.name).endswith(("json2labelImg", "imsave", "imwrite", "numpy.save")):
            a = [r.I.deep(r.st, x) for x in e.args["args"].a]
            if str(e.name).endswith("json2labelImg"):
                out.append((a[1] if len(a) > 1 else NONE, mk("labels_of", *[x for k, x in enumerate(a) if k != 1]), e))
            else:
                raise Lost(f"written by {e.name}")
    return out


def convert(c, main, **opts):
    """Runs a conversion script; the files it stores for one element of each of its work lists."""
    fn, wh = script(c, main)
    I = Interp(c.ix, opaque=[c.q(o) for o in KEEP])
    I.cli = {"--root": ROOT}
    I.cli.update({"--" + k: v for k, v in opts.items()})
    r = c.run(fn, [], interp=I)
    if r.raises:
        raise Lost("the script fails")
    for k in I.cli:
        if k not in I.cli_opts:
            raise Lost(f"option {k}")
    R = Stored(r=r, where=wh, stored=[], lists=[], broken=[])
    for e in r.events:
        if e.kind == "call" and str(e.name).endswith(("track_parallel_progress", "track_progress")) and e.guard is not FALSE:
            tasks = r.I.deep(r.st, e.args["tasks"])
            for p in parts(tasks):
                if p.op == "index" and p.a[1].op == "slice" or p.op in ("slice", "getslice"):
                    R.broken.append(Stored(file=e.file, line=e.line, text=f"works on {pretty(p)[:200]}"))
                    continue
                if p.op == "loopgen" and p.a[3].a[0].a and any(is_scan(x) for x in X.subterms(p.a[0])):
                    R.broken.append(Stored(file=e.file, line=e.line, text="stops before the end of the scan"))
                    continue
                if p.op in ("fn", "closure", "func", "partial", "bound"):
                    R.broken.append(Stored(file=e.file, line=e.line, text=f"works on the function {pretty(p)[:100]}"))
                    continue
                if p.op != "maplist":
                    raise Lost("a work list is not built element by element")
                el = X.index(p, S("i", "int"))
                scans = [x for x in X.subterms(el) if is_scan(x)]
                item = concrete(r.I, el) if scans else SAMPLE
                R.lists.append(Stored(list=p, elem=el, scans=scans, event=e, func=r.I.deep(r.st, e.args["func"])))
                I2 = Interp(c.ix, opaque=[c.q(o) for o in KEEP])
                r2 = c.run("spec.convert.one", [R.lists[-1].func, item], interp=I2)
                for path, content, ev in writes(r2):
                    R.stored.append(Stored(path=path, content=content, event=ev, src=R.lists[-1], r=r2,
                                           guard=e.guard))
    for path, content, ev in writes(r):
        if any(is_scan(x) for x in X.subterms(path)):
            R.stored.append(Stored(path=concrete(r.I, path), content=concrete(r.I, content), event=ev, src=None,
                                   r=r, guard=ev.guard))
        else:
            raise Lost("a file written outside the work lists")
    R.files = {concrete(r.I, p): (r.I.deep(r.st, f, keep_files=False), m, g)
               for f, (p, m, g) in r.I.files.items() if isinstance(m, str) and "w" in m or not isinstance(m, str)}
    return R


# ------------------------------------------------------------------ runs shared by the checks
def city_runs(c, **over):
    """IS -> conversion of Cityscapes with default names."""
    out = {}
    for IS in (True, False):
        o = {"nonIS": B[not IS], "nproc": num(4), "test_mode": FALSE, "out-dir": const("gtEval"),
             "ext": const("png"), "only-full-scale": FALSE}
        o.update(over)
        out[IS] = convert(c, CITY_MAIN, **o)
    return out


def sbd_run(c, reanno=True, nproc=4):
    return convert(c, SBD_MAIN, reanno=B[reanno], nproc=num(nproc), **{"out-dir": const("gtEval")})


def each(c, fs):
    for f in fs:
        try:
            f()
        except (Lost, J.Lost) as e:
            c.undecided(f.__name__.replace("_", " "), str(e))


def named(name):
    """Evaluator path with the generic dataset root and sample."""
    return lambda t: X.subst(t, lambda x: ROOT if x is J.ROOT else name if x is J.NM else None)


def edge_path(c, key, thin, IS, name):
    Jb = J.job(c, key, thin=thin, mode="post-seal" if not IS else None, IS=IS)
    ps = J.opened(J.got(Jb, "gt"))
    if len(ps) != 1:
        raise Lost("ground truth read from several files")
    return named(name)(ps[0]), J.where(c, key)


def text(t):
    """A path as one text with holes."""
    if t.op == "join":
        ps = [p for k, x in enumerate(t.a) for p in ((const("/"),) if k else ()) + text(x)]
    elif t.op == "cat":
        ps = [p for x in t.a for p in text(x)]
    elif t.op == "tostr":
        return text(t.a[0])
    else:
        return (t,)
    out = []
    for p in ps:
        if p.op == "str" and out and out[-1].op == "str":
            out[-1] = const(out[-1].a[0] + p.a[0])
        else:
            out.append(p)
    return tuple(out)


def at(R, path):
    return [s for s in R.stored if text(s.path) == text(path)]


def show(R):
    return ", ".join(sorted({pretty(s.path) for s in R.stored})) or "nothing"


EVAL = [("cityscapes", "full", True), ("half", "half", True)]


def C11(c):
    spec(c)
    rule = "evaluators read the files the converters write"

    def check(R, path, name, wh, kind=None):
        ss = at(R, path)
        c.require(bool(ss), name, *wh, rule, f"{name}: reads {pretty(path)}, the conversion stores {show(R)}")
        for s in ss if kind else ():
            got = made(s)
            for what in kind:
                c.require(got[what] == kind[what], f"{name}: {what}", *wh, rule,
                          f"{name}: reads {pretty(path)}, which is stored {'with' if got[what] else 'without'} {what}")

    def made(s):
        """What the stored edges are made with."""
        subs = list(X.subterms(s.content))
        return {"instances": any(x.op == "str" and isinstance(x.a[0], str) and ("instanceIds" in x.a[0] or x.a[0] == "GTinst")
                                 for x in subs),
                "thinning": any(x.op == "call" and x.a[0].op == "fn" and str(x.a[0].a[0]).endswith("binary_thin") for x in subs)
                or any(x.op == "str" and x.a[0] == "gt_reanno_thin" for x in subs),
                "re-annotations": any(x.op == "str" and isinstance(x.a[0], str) and "gt_reanno" in x.a[0] for x in subs),
                "halving": any(x.op == "method" and x.a[0] == "resize" or is_call(x, "cv2.resize") for x in subs)}

    def Cityscapes_files():
        for IS, R in city_runs(c).items():
            for key in ("cityscapes", "half"):
                for thin in (False, True):
                    p, wh = edge_path(c, key, thin, IS, join(CITY, BASE))
                    check(R, p, f"{J.TITLE[key]}: edges (instances={IS}, thin={thin})", wh,
                          {"instances": IS, "thinning": thin, "halving": key == "half"})
                Jb = J.job(c, key, mode=None, IS=False, kill_internal=TRUE)
                for p in J.opened(J.got(Jb, "gt_seg")):
                    if p not in J.opened(J.got(Jb, "gt")):
                        check(R, named(join(CITY, BASE))(p), f"{J.TITLE[key]}: segmentation", J.where(c, key))
            R2 = convert(c, CITY_MAIN, nonIS=B[not IS], nproc=num(1), test_mode=FALSE,
                         **{"out-dir": const("gtEval"), "ext": const("png"), "only-full-scale": TRUE})
            for thin in (False, True):
                p, wh = edge_path(c, "cityscapes", thin, IS, join(CITY, BASE))
                check(R2, p, f"Cityscapes, full scale only: edges (instances={IS}, thin={thin})", wh)

    def Cityscapes_label_files():
        R = city_runs(c)[True]
        used = {p: text(p) for s in R.stored for p in J.opened(s.content)}
        Jb = J.job(c, "otf", IS=True, category=num(12))
        for p in J.opened(J.got(Jb, "gt")):
            q = named(join(CITY, BASE))(p)
            c.require(text(q) in used.values(), "on-the-fly Cityscapes: label and instance files", *J.where(c, "otf"), rule,
                      f"reads {pretty(q)}, the conversion reads " + ", ".join(sorted(pretty(u) for u in used)))

    def SBD_files():
        R = sbd_run(c)
        for key in ("sbd", "reanno"):
            for IS in (False, True):
                for thin in (False, True):
                    p, wh = edge_path(c, key, thin, IS, SAMPLE)
                    check(R, p, f"{J.TITLE[key]}: edges (instances={IS}, thin={thin})", wh,
                          {"instances": IS, "thinning": thin, "re-annotations": key == "reanno"})
            Jb = J.job(c, key, mode=None, IS=False, kill_internal=TRUE)
            for p in J.opened(J.got(Jb, "gt_seg")):
                if p not in J.opened(J.got(Jb, "gt")):
                    check(R, named(SAMPLE)(p), f"{J.TITLE[key]}: segmentation", J.where(c, key))

    def lists():
        runs = {"cityscapes": city_runs(c)[True], "sbd": sbd_run(c)}
        for key in J.MULTI:
            for split in ("val",):
                I = J.interp(c)
                r = c.run("spec.jobs.listed", [J.cls(c, key), J.ROOT, J.PRED, const(split), FALSE, J.CAT, J.T_, J.NP,
                                               J.kwd(dict(J.SET, eval_mode=NONE, instance_sensitive=FALSE))], interp=I)
                Jb = J.follow(c, r)
                if Jb is None:
                    raise Lost("evaluation of listed samples")
                read = [x for x in X.subterms(Jb.samples) if x.op == "file"]
                paths = {named(SAMPLE)(x.a[0]) for x in read}
                if len(paths) != 1:
                    raise Lost("the sample list")
                p, = paths
                R = runs["cityscapes" if key in ("cityscapes", "half", "otf") else "sbd"]
                src = {X.subst(x, lambda y: None).a[0] for L in R.lists for x in X.subterms(L.list) if x.op == "file"}
                have = set(R.files) | src
                c.require(text(p) in {text(x) for x in have}, f"{J.TITLE[key]}: list of samples ({split})", *J.where(c, key), rule,
                          f"reads {pretty(p)}; the conversion writes " + ", ".join(sorted(pretty(x) for x in have)))

    each(c, (Cityscapes_files, Cityscapes_label_files, SBD_files, lists))
    return "file paths opened by every evaluator configuration against the paths stored by the conversion scripts"


# ------------------------------------------------------------------ C30
INST = S("inst_image", "any")


def blank(t):
    """A plane that is empty under a condition."""
    def f(x):
        if x.op == "ite" and any(y.op == "zeros" for y in x.a[1:]):
            return X.ite(x.a[0], *[num(0) if y.op == "zeros" else y for y in x.a[1:]])
        return None
    return norms.bottom_up(f)(t)


H_, W_ = S("height", "int"), S("width", "int")


def shape(x):
    return x.op == "attr" and x.a[1] == "shape" or x.op == "ite" and shape(x.a[1]) and shape(x.a[2])


def plane(x):
    if x.op == "ite" and all(y.op == "len" for y in x.a[1:]):
        return H_
    if x.op == "len":
        return H_
    if x.op == "index" and x.a[1].op == "num" and x.a[1].a[0] in (0, 1) and shape(x.a[0]):
        return (H_, W_)[x.a[1].a[0]]
    return None


def sizes(t):
    """All images of a sample share one size; so do the planes made from them."""
    def leaf(x):
        if x.op == "index" and x.a[1].op == "num" and x.a[1].a[0] in (0, 1) and x.a[0].op == "attr" and \
                x.a[0].a[1] == "size" and J.is_open(x.a[0].a[0]):
            return (W_, H_)[x.a[1].a[0]]
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "cv2.resize" and len(x.a[1].a) > 1:
            d = X.subst(x.a[1].a[1], plane)
            if d is not x.a[1].a[1]:
                return X.subst(mk("call", x.a[0], mk("args", x.a[1].a[0], d, *x.a[1].a[2:]) if x.a[1].op == "args"
                                  else X.rebuild(x.a[1].op, [x.a[1].a[0], d] + list(x.a[1].a[2:])), *x.a[2:]), leaf)
        return None
    return X.subst(t, leaf)


@norms.bottom_up
def frames(x):
    """Slices of an image in one form."""
    if x.op not in ("store", "index") or not (x.a[1].op in ("slice", "tuple")):
        return None
    ix = list(x.a[1].a) if x.a[1].op == "tuple" else [x.a[1]]
    if len(ix) > 2 or not any(i.op == "slice" for i in ix) or not all(i.op == "slice" for i in ix):
        return None
    ix += [mk("slice", NONE, NONE, NONE)] * (2 - len(ix))
    out = []
    for i, size in zip(ix, (H_, W_)):
        a, b, st = [X.subst(y, plane) for y in i.a]
        if st not in (NONE, num(1)):
            return None
        if a is num(0):
            a = NONE
        if a.op == "num" and a.a[0] < 0:
            a = X.add(size, a)
        if b is size:
            b = NONE
        if b.op == "num" and b.a[0] < 0:
            b = X.add(size, b)
        out.append(mk("slice", a, b, NONE))
    y = mk("tuple", *out)
    return None if y is x.a[1] else mk(x.op, x.a[0], y, *x.a[2:])


EDGES = norms.chain(norms.five_digit_ids, sizes, frames, norms.label_stacks, J.stacked, norms.no_zeros, norms.five_digit_ids, blank)


def stored_edges(s):
    """The class planes handed to the encoder of a stored edge image, and what is done to its result."""
    x, done = s.content, []
    while True:
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].endswith("fromarray"):
            if len(x.a[1].a) > 1 or x.a[2].a:
                done.append("a mode")
            x = x.a[1].a[0]
        elif x.op == "astype":
            done.append(x.a[1].a[0] if x.a[1].op in ("ext", "str") else pretty(x.a[1]))
            x = x.a[0]
        elif x.op == "method" and x.a[0] in ("view", "astype") and x.a[2].a:
            done.append(pretty(x.a[2].a[0]))
            x = x.a[1]
        else:
            break
    if not (x.op == "call" and x.a[0].op == "fn" and str(x.a[0].a[0]).endswith("multilabel_encoding")):
        raise Lost("stored edges are not encoded class planes")
    return str(x.a[0].a[0]).rsplit(".", 1)[1], arg(x, "edges"), done


KINDS = {"png": ("rgb_multilabel_encoding", {"numpy.uint8"}),
         "tif": ("default_multilabel_encoding", {"numpy.int32", "numpy.uint32"}),
         "bin": ("default_multilabel_encoding", {"numpy.int32", "numpy.uint32"})}


def conjuncts(g):
    return [y for x in g.a for y in conjuncts(x)] if g.op == "and" else [] if g is TRUE else [g]


def skipped(s):
    """Conditions under which the file is not written although its inputs are there."""
    out = []
    for g in (s.event.guard, s.guard):
        for k in conjuncts(g):
            subs = list(X.subterms(k))
            if any(x.op in ("join", "cat") and text(x) == text(s.path) for x in subs):
                out.append(k)
            elif any(x.op in ("any", "all", "count", "sum", "exists") or
                     x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in COUNTS for x in subs):
                out.append(k)
    return out


COUNTS = {"numpy.count_nonzero", "numpy.sum", "numpy.max", "numpy.any", "numpy.all", "numpy.unique", "numpy.mean"}


def alone(t):
    """A single value, or a list of one: the categories of a file."""
    def base(x):
        if x.op == "ite":
            b = {base(y) for y in x.a[1:]}
            return b.pop() if len(b) == 1 else None
        if x.op == "index" and x.a[1] is NONE:
            return base(x.a[0])
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("numpy.array", "numpy.asarray", "numpy.atleast_1d",
                                                                     "numpy.squeeze"):
            y = x.a[1].a[0] if x.a[1].a else None
            if y is not None and y.op in ("list", "tuple") and len(y.a) == 1:
                y = y.a[0]
            return base(y) if isinstance(y, T) else None
        if x.op in ("asarray", "list", "squeeze") and len(x.a) == 1:
            return base(x.a[0])
        if x.op == "index" and x.a[1].op == "str" and x.a[1].a[0] in ("CategoriesPresent", "Categories"):
            return x
        if x.op == "index" and x.a[1] is num(2) and x.a[0].op == "index" and x.a[0].a[1].op == "tuple":
            return x  # the third field of a record that was read without names
        return None

    def f(x):
        if x.op in ("ite", "call", "index"):
            b = base(x)
            if b is not None and b is not x:
                return b
        if x.op == "ite" and x.a[1].op == "len" and x.a[2].op in ("len", "ite"):
            ls = [y for y in X.subterms(mk("pair", x.a[1], x.a[2])) if y.op == "len"]
            b = {base(y.a[0]) for y in ls}
            if len(b) == 1 and None not in b:
                return mk("len", *b)
        return None
    return X.subst(t, f)


def C30(c):
    spec(c)
    rule = "stored edges have the radius, thinning, resolution and ignored pixels their name announces"
    keep = KEEP + ["pyEdgeEval.common.multi_label.convert_inst_seg"]

    def ref(name, args):
        return c.run("spec.convert." + name, args, interp=Interp(c.ix, opaque=[c.q(o) for o in KEEP])).value

    def whole(tag, s, ext="png"):
        wh = (s.event.file, s.event.line)
        enc, e, done = stored_edges(s)
        fn, ok = KINDS[ext]
        c.require(enc == fn and set(done) <= ok, f"{tag}: encoded for .{ext}", *wh, rule,
                  f"{tag} stored as {ext} with {enc}" + "".join(", as " + d for d in done))
        return e, wh

    def always(tag, s):
        ks = skipped(s)
        for k in ks:
            c.require(False, f"{tag}: written whenever its inputs exist", s.event.file, s.event.line, rule,
                      f"{tag}: written only if {pretty(k)[:200]}")
        if not ks:
            c.ok(f"{tag}: written whenever its inputs exist")

    def planes(tag, s, n, want, norm=EDGES, ext="png"):
        e, wh = whole(tag, s, ext)
        always(tag, s)
        for k in range(n):
            c.compare(f"{tag}: class {k + 1}", X.index(e, num(k)), want(k), rule, wh, norm=norm, allowed=words())

    known = set()

    def words():
        """What conversions are made of, for any combination."""
        if not known:
            a, b = [orig("val", x) for x in ("_gtFine_labelIds.png", "_gtFine_instanceIds.png")]
            for IS in (False, True):
                for thin in (False, True):
                    for half in (False, True):
                        known.update(vocab(EDGES(ref("city", [a, b, B[IS], num(7), num(1), B[thin], B[half]]))))
        return known

    def one_at(R, path, tag, wh):
        ss = at(R, path)
        if not ss:
            raise Lost(f"{tag}: nothing is stored as {pretty(path)}")
        return ss

    def city(split, suffix):
        return join(ROOT, const("gtEval"), const(split), CITY, cat(BASE, const(suffix)))

    def orig(split, suffix):
        return join(ROOT, const("gtFine"), const(split), CITY, cat(BASE, const(suffix)))

    def cityscapes(runs, ext, few=False):
        for IS, R in runs.items():
            kind = "isedge" if IS else "edge"
            files = [("train", f"_gtProc_{kind}", 2, False, False)] + [
                ("val", f"_gtProc_{'half_' if half else ''}{'thin' if thin else 'raw'}_{kind}", 1 if thin else 2, thin, half)
                for thin in (False, True) for half in (False, True)]
            for split, suffix, radius, thin, half in files:
                tag = f"Cityscapes {split} {suffix}.{ext}"
                for s in one_at(R, city(split, f"{suffix}.{ext}"), tag, R.where):
                    planes(tag, s, 1 if few else 19, lambda k: ref(
                        "city", [orig(split, "_gtFine_labelIds.png"), orig(split, "_gtFine_instanceIds.png"), B[IS],
                                 num(J.LABELS[k]), num(radius), B[thin], B[half]]), ext=ext)
            for split in ("train", "val"):
                tag = f"Cityscapes {split} training labels"
                for s in one_at(R, city(split, "_gtFine_labelTrainIds.png"), tag, R.where):
                    c.compare(tag, s.content, mk("labels_of", orig(split, "_gtFine_polygons.json"), const("trainIds")), rule,
                              (s.event.file, s.event.line))
                    always(tag, s)

    def Cityscapes():
        cityscapes(city_runs(c), "png")

    def Cityscapes_other_formats():
        for ext in ("tif", "bin"):
            cityscapes(city_runs(c, ext=const(ext)), ext, few=True)

    def Cityscapes_one_process():
        cityscapes(city_runs(c, nproc=num(1)), "png", few=True)

    def mat(d, s=SAMPLE, *more):
        return join(ROOT, *more, const(d), cat(s, const(".mat")))

    def instances(tag, wh):
        """The converted instances as one image; checks what they are converted from."""
        seen = set()

        def f(x):
            if x.op == "call" and x.a[0].op == "fn" and str(x.a[0].a[0]).endswith("convert_inst_seg"):
                if x in seen:
                    return INST
                seen.add(x)
                for name, n, i in (("inst_seg", "instances", 0), ("inst_cats", "instance classes", 2),
                                   ("present_cats", "present classes", 2)):
                    a = arg(x, name)
                    want = ref("field", [mat("cls_orig" if name == "present_cats" else "inst_orig"),
                                         const("GTcls" if name == "present_cats" else "GTinst"), num(i)])
                    got = a if name == "inst_seg" else squeezed(a, name == "inst_cats")
                    c.compare(f"{tag}: {n}", got, want, rule, wh)
                return INST
            return None
        return lambda t: X.subst(t, f)

    def pixel(image, v):
        """The value of a pixel that has value v in the image."""
        def one(x):
            if x.op == "call" and x.a[0].op == "ext" and x.a[1].a:
                f = x.a[0].a[0]
                if f in ("numpy.ones_like", "numpy.zeros_like") and x.a[1].a[0].op == "num":
                    return num(int(f == "numpy.ones_like"))
                if f == "numpy.full_like" and len(x.a[1].a) > 1 and x.a[1].a[0].op == "num":
                    return x.a[1].a[1]
            if x.op == "mono" and any(y is TRUE or y is FALSE for y in x.a):
                return X.rebuild("mono", [num(int(y is TRUE)) if y in (TRUE, FALSE) else y for y in x.a])
            if x.op in ("zeros", "full"):
                return num(0) if x.op == "zeros" else x.a[1]
            if x.op == "astype" and x.a[0].op == "num" and 0 <= x.a[0].a[0] <= 255:
                return x.a[0]
            return None
        return lambda t: norms.bottom_up(one)(X.subst(t, lambda x: v if x is image else None))

    def squeezed(t, ordered=True):
        other = lambda x: mk("in another order", base(x) or x) if ordered else base(x)

        def base(x):
            if x.op == "sorted" or is_call(x, "numpy.sort", "builtins.sorted", "numpy.unique"):
                return other(x.a[0] if x.op == "sorted" else x.a[1].a[0])
            if is_call(x, "numpy.flip", "numpy.flipud", "builtins.reversed"):
                return other(x.a[1].a[0])
            if x.op == "slice" or x.op == "index" and x.a[1].op == "slice" and x.a[1].a[0] is NONE and x.a[1].a[1] is NONE \
                    and len(x.a[1].a) > 2 and x.a[1].a[2] == num(-1):
                return other(x.a[0])
            if x.op == "ite":
                b = {base(y) for y in x.a[1:]}
                return b.pop() if len(b) == 1 else None
            if x.op == "index" and x.a[1] is NONE:
                return base(x.a[0])
            if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("numpy.squeeze", "numpy.atleast_1d", "numpy.ravel"):
                return base(x.a[1].a[0])
            if x.op in ("squeeze", "flat", "ravel", "asarray"):
                return base(x.a[0])
            return x
        return base(t) or t

    def sixteen(x, s):
        """The instance ids without the casts on their way to the file, which must hold 16 bits: a PNG file
        has no wider samples, and 8 bits are too few."""
        made = None
        while x.op == "astype" or x.op == "method" and x.a[0] == "astype" and x.a[2].a:
            d = layout.dtype_name(x.a[1] if x.op == "astype" else x.a[2].a[0])
            made = made or d
            if layout.WIDTH.get(d, 0) < 15:
                made = d
            x = x.a[0] if x.op == "astype" else x.a[1]
        name, why = "SBD instances: stored type", "instance ids up to 20999 are stored as 16-bit samples"
        if made is None:
            fn, _ = c.ix.cls(c.q("pyEdgeEval.common.multi_label.convert_inst_seg"))
            got = {layout.WIDTH.get(n.attr) for n in ast.walk(fn) if isinstance(n, ast.Attribute)} - {None} if fn else set()
            if len(got) != 1:
                c.undecided(name, "the type of the ids is not known")
                return x
            made = {8: "uint8", 16: "uint16", 32: "int32", 64: "int64"}[got.pop()]
        c.require(made in ("uint16", "int16"), name, s.event.file, s.event.line, why,
                  f"{made} samples in a PNG file", "inst dtype")
        return x

    def SBD_sparse():
        g = c.run(U + "sparse2numpy", [S("boundary", "sparse")])
        kinds = {x.a[0] for e in g.events if e.kind == "assert" for v in list(e.args.values()) + [e.guard]
                 if isinstance(v, T) for x in X.subterms(v) if x.op == "ext" and str(x.a[0]).startswith("scipy.sparse")}
        types = {k for k in kinds if k.rsplit(".", 1)[-1] in ("csc_matrix", "csc_array", "spmatrix", "sparray",
                                                              "csr_matrix", "csr_array", "coo_matrix", "coo_array")}
        c.require(not types or any(k.endswith("_array") or k.endswith("sparray") for k in types),
                  "SBD boundaries: sparse type", *small.where(c, U + "sparse2numpy"),
                  "the sparse arrays scipy loads are accepted", f"only {sorted(types)} accepted", "sparse type")

    def sbd(nproc, few):
        KEEP.append("pyEdgeEval.common.multi_label.convert_inst_seg")
        try:
            R = sbd_run(c, nproc=nproc)
        finally:
            KEEP.pop()
        out = lambda suffix: join(ROOT, const("gtEval"), cat(SAMPLE, const(suffix)))
        for IS in (False, True):
            for thin in (False, True):
                suffix = f"_{'thin' if thin else 'raw'}_{'isedge' if IS else 'edge'}.png"
                tag = f"SBD {suffix}"
                for s in one_at(R, out(suffix), tag, R.where)[:1 if few else None]:
                    planes(tag, s, 1 if few else 20, lambda k: ref(
                        "sbd", [mat("cls_orig"), INST, B[IS], num(k + 1), num(1 if thin else 2), B[thin]]),
                        norm=norms.chain(instances(tag, R.where), EDGES))
        for suffix, want, what in (("_labelIds.png", ref("sbd_seg", [mat("cls_orig")]), "segmentation"),
                                   ("_trainIds.png", None, "training labels"),
                                   ("_instanceIds.png", INST, "instances")):
            for s in one_at(R, out(suffix), what, R.where)[:1 if few else None]:
                x = s.content
                while x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].endswith("fromarray"):
                    x = x.a[1].a[0]
                if what == "instances":
                    x = sixteen(x, s)
                if want is None:
                    seg = frames(sizes(ref("sbd_seg", [mat("cls_orig")])))
                    for v in range(22):
                        c.compare(f"SBD {what}: label {v}", x, num(v - 1 if 1 <= v <= 20 else 255), rule,
                                  (s.event.file, s.event.line), norm=norms.chain(sizes, frames, pixel(seg, num(v))))
                    always(f"SBD {what}", s)
                    continue
                c.compare(f"SBD {what}", x, want, rule, (s.event.file, s.event.line), norm=norms.chain(instances("SBD", R.where), sizes, frames))
                always(f"SBD {what}", s)
        return R, out

    def SBD():
        sbd(4, False)

    def SBD_one_process():
        sbd(1, True)

    def SBD_reannotation():
        R = sbd_run(c)
        for thin in (False, True):
            d = const("gt_reanno_thin" if thin else "gt_reanno_raw")
            for IS in (False, True):
                suffix = f"_reanno_{'thin' if thin else 'raw'}_{'isedge' if IS else 'edge'}.png"
                tag = f"SBD {suffix}"
                for s in one_at(R, join(ROOT, const("gtEval"), cat(SAMPLE, const(suffix))), tag, R.where):
                    e, wh = whole(tag, s)
                    always(tag, s)
                    args = [mat("cls", SAMPLE, d), mat("inst", SAMPLE, d)]
                    if IS:
                        c.compare(tag, e, ref("reanno", args), rule, wh, norm=alone)
                    else:
                        c.compare(tag, X.index(e, num(3)), ref("reanno_cls", args[:1] + [num(3)]), rule, wh, norm=alone)

    each(c, (Cityscapes, Cityscapes_other_formats, Cityscapes_one_process, SBD_sparse, SBD, SBD_one_process, SBD_reannotation))
    return "planes handed to the encoder for every stored file, class by class, and the label and instance images stored"


# ------------------------------------------------------------------ C33
def is_call(t, *names):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in names


def bare(t):
    """A list up to its order."""
    while True:
        if is_call(t, "builtins.sorted", "builtins.list", "builtins.reversed") and t.a[1].a:
            t = t.a[1].a[0]
        elif t.op in ("sorted", "tolist", "copied", "list_of", "reversed") and t.a and isinstance(t.a[0], T):
            t = t.a[0]
        else:
            return t


class Walk:
    """What a directory scan yields for one entry of a directory, case by case."""
    def __init__(self, c, r, root, suffix, recursive, fold, tag, where):
        self.c, self.r, self.root, self.suffix, self.tag, self.where = c, r, root, suffix, tag, where
        self.recursive, self.fold = recursive, fold
        self.rule = "every matching file once, relative to the scanned directory"
        self.n = 0

    def listing(self, t, d):
        """(entry, yielded items as a function of the facts about the entry) of a pass over directory d"""
        t = bare(t)
        if t.op == "maplist":
            n, body, cond, kind = t.a[0], t.a[1], t.a[2], "map"
        elif t.op == "loopgen":
            if len(t.a[1].a) != 1 or t.a[3].a[0].a:
                raise Lost("the scan loop carries more than its result or stops early")
            n, body, cond, kind = t.a[0], t.a[2].a[0].a[0], TRUE, "loop"
        else:
            raise Lost("the scan is not one pass over the directory")
        x = bare(n.a[0]) if n.op == "len" else None
        if x is None or not is_call(x, "os.scandir") or x.a[1].a[:1] != (d,):
            raise Lost("the scan does not list its directory entry by entry")
        self.n += 1
        i = S(f"entry {self.n}", "int")
        body, cond = X.instantiate(body, i), X.instantiate(cond, i)
        entry = mk("index", x, i)
        unb = lambda t: X.subst(t, lambda y: entry if y.op == "index" and y.a[1] is i and bare(y.a[0]) is x else None)
        if kind == "map":
            body = mk("ite", cond, mk("list", body), mk("list"))
        return entry, unb(body)

    def facts(self, entry, hidden, kind, match):
        path, name = X.attr(entry, "path"), X.attr(entry, "name")

        def names(t):
            """The text the suffix is looked for in; whether it is folded to lower case"""
            low = False
            if t.op == "method" and t.a[0] in ("lower", "casefold"):
                low, t = True, t.a[1]
            while t.op in ("join", "cat") and t.a and isinstance(t.a[-1], T) and t not in (path, name):
                t = t.a[-1]
            ok = t in (path, name) or is_call(t, "os.path.relpath", "os.path.basename") and t.a[1].a[0] is path
            return low if ok else None

        def f(x):
            if x.op == "method" and x.a[0] == "startswith" and x.a[1] is name and x.a[2].a == (const("."),):
                return B[hidden]
            if x.op == "cmp" and x.a[0] == "==" and const(".") in x.a and any(
                    y.op == "index" and y.a[0] is name for y in x.a[1:]):
                return B[hidden]
            if x.op == "method" and x.a[0] in ("is_file", "is_dir") and x.a[1] is entry:
                return B[kind == x.a[0][3:]]
            if is_call(x, "os.path.isfile", "os.path.isdir") and x.a[1].a[0] is path:
                return B[kind == x.a[0].a[0][10:]]
            if x.op == "truth":
                y = f(x.a[0])
                return y
            if x.op == "method" and x.a[0] == "endswith":
                low = names(x.a[1])
                if low is None:
                    return None
                s = x.a[2].a[0]
                if s not in self.suffix:
                    return None
                if low != self.fold:
                    self.bad("the case of the suffix", f"compares {pretty(x)}")
                return B[match]
            return None
        return f

    def below(self, entries):
        """Entries lie below the scanned directory."""
        paths = [X.attr(e, "path") for e in entries]

        def f(x):
            if x.op == "cmp" and x.a[0] in ("==", "!=") and self.root in x.a[1:] and any(y in paths for y in x.a[1:]):
                return B[x.a[0] == "!="]
            return None
        return f

    def bad(self, what, text):
        self.c.require(False, f"{self.tag}: {what}", *self.where, self.rule, f"{self.tag}: {what}: {text}")

    def items(self, t):
        if t.op in ("list", "tuple"):
            return list(t.a)
        if t.op == "mv":
            return []
        if t.op == "concat":
            return [y for x in t.a for y in self.items(x)]
        if t.op == "ite":
            if t.a[0] not in (TRUE, FALSE):
                raise Lost(f"an entry is taken depending on {pretty(t.a[0])[:120]}")
            return self.items(t.a[1] if t.a[0] is TRUE else t.a[2])
        if t.op in ("tolist", "copied"):
            return self.items(t.a[0])
        if t.op in ("loopgen", "maplist"):
            return [mk("scan of", t)]
        if t.op == "call" and t.a[0].op == "fn":
            return [mk("scan again", t)]
        raise Lost("what the scan yields for an entry")

    def example(self, t, entries):
        """The text of a name for example names of the entries on the way down."""
        if t is self.root:
            return "R/S"
        if t.op == "str":
            return t.a[0]
        if t.op == "attr" and t.a[0] in entries:
            i = entries.index(t.a[0])
            if t.a[1] == "name":
                return f"n{i}"
            if t.a[1] == "path":
                return "/".join(["R/S"] + [f"n{j}" for j in range(i + 1)])
            return None
        if t.op == "ext" and t.a[0] in ("os.sep", "os.path.sep"):
            return "/"
        xs = None
        if t.op in ("join", "cat") and all(isinstance(x, T) for x in t.a):
            xs = [self.example(x, entries) for x in t.a]
        elif t.op == "call" and t.a[0].op == "ext" and not t.a[2].a:
            xs = [self.example(x, entries) for x in t.a[1].a]
        if not xs or None in xs:
            return None
        if t.op == "cat":
            return "".join(xs)
        if t.op == "join":
            return os.path.join(*xs)
        f = t.a[0].a[0].rsplit(".", 1)[-1]
        if t.a[0].a[0].startswith("os.path.") and f in ("basename", "dirname", "relpath", "join", "normpath"):
            return getattr(os.path, f)(*xs)
        return None

    def check(self, t, d, depth=0, above=()):
        entry, body = self.listing(t, d)
        entries = list(above) + [entry]
        path = X.attr(entry, "path")
        for hidden in (False, True):
            for kind in ("file", "dir", "other"):
                for match in (False, True):
                    ys = self.items(X.subst(X.subst(body, self.below(entries)), self.facts(entry, hidden, kind, match)))
                    who = f"{'hidden ' if hidden else ''}{kind}{' matching the suffix' if match else ''}, level {depth + 1}"
                    rel = [y for y in ys if y.op not in ("scan of", "scan again")]
                    sub = [y for y in ys if y.op in ("scan of", "scan again")]
                    for y in rel:
                        ok = is_call(y, "os.path.relpath") and y.a[1].a == (path, self.root) or depth == 0 and y is X.attr(
                            entry, "name")
                        if not ok and not (y in (path, X.attr(entry, "name")) or is_call(y, "os.path.relpath")):
                            text = self.example(y, entries)
                            if text is None:
                                raise Lost(f"the name yielded: {pretty(y)[:120]}")
                            ok = text == "/".join(f"n{j}" for j in range(depth + 1))
                        self.c.require(ok, f"{self.tag}: relative path ({who})", *self.where, self.rule,
                                       f"{self.tag}: yields {pretty(y)} for a file below {pretty(self.root)}")
                    want = int(kind == "file" and not hidden and (match or not self.suffix))
                    self.c.require(len(rel) == want, f"{self.tag}: {who}", *self.where, self.rule,
                                   f"{self.tag}: {who} is yielded {len(rel)} times instead of {want}")
                    if hidden and kind == "dir":
                        continue
                    want = int(kind == "dir" and self.recursive)
                    self.c.require(len(sub) == want, f"{self.tag}: entering ({who})", *self.where, self.rule,
                                   f"{self.tag}: {who} is entered {len(sub)} times instead of {want}")
                    for y in sub if kind == "dir" and not hidden and not match else ():
                        if y.op == "scan of":
                            self.check(y.a[0], path, depth + 1, entries)
                        else:
                            self.c.require(path in y.a[0].a[2].a, f"{self.tag}: deeper levels", *self.where, self.rule,
                                           f"{self.tag}: a directory is scanned as {pretty(y.a[0])[:200]}")
                            if depth == 1:
                                # one level more, scanned the way this one was
                                self.check(X.subst(t, lambda x: path if x is d else None), path, depth + 1, entries)


def C33(c):
    spec(c)
    rule = "every file found is converted and listed once"

    def scanning():
        d, s, s2 = S("dir", "str"), S("suffix", "str"), S("other suffix", "str")
        fn = c.q("pyEdgeEval.utils.scandir")
        wh = small.where(c, "pyEdgeEval.utils.scandir")
        for tag, suf, fold in (("suffix", s, False), ("two suffixes", mk("tuple", s, s2), False), ("any file", NONE, False),
                               ("suffix in any case", s, True), ("suffixes in any case", mk("tuple", s, s2), True)):
            for rec in (False, True):
                r = c.run(fn, [d, suf, B[rec], B[not fold]])
                texts = () if suf is NONE else (lowered(r, suf),) if fold else (suf,)
                w = Walk(c, r, d, texts, rec, fold, f"scan by {tag}{', recursive' if rec else ''}", wh)
                w.check(r.value, d)

    def lowered(r, suf):
        """The suffix in lower case, as the program computes it"""
        for x in X.subterms(r.value):
            if x.op == "method" and x.a[0] == "endswith" and x.a[2].a:
                y = x.a[2].a[0]
                one = lambda t, s: t.op == "method" and t.a[0] in ("lower", "casefold") and t.a[1] is s
                if suf.op == "tuple" and y.op in ("tuple", "list") and len(y.a) == len(suf.a) and all(
                        one(p, q) for p, q in zip(y.a, suf.a)) or suf.op != "tuple" and one(y, suf):
                    return y
        return suf

    def directories():
        fn = c.q("pyEdgeEval.utils.mkdir_or_exist")
        d = S("dir", "word")
        r = c.run(fn, [d])
        made = []
        for e in r.events:
            if e.kind == "ext" and e.name in ("os.makedirs", "os.mkdir"):
                a = [r.I.deep(r.st, x) for x in e.args["args"].a]
                kw = r.I.deep(r.st, e.args["kw"])
                made.append((e, a, dict(zip(kw.a[::2], kw.a[1::2])), e.name == "os.makedirs"))
            elif e.kind == "method" and e.name == "mkdir":
                kw = e.args.get("kw")
                kw = dict(zip(kw.a[::2], kw.a[1::2])) if isinstance(kw, T) else {}
                made.append((e, [r.I.deep(r.st, e.args["recv"])], kw, kw.get("parents") is TRUE))
        if not made:
            raise Lost("how the directory is made")
        for e, a, kw, parents in made:
            w = (e.file, e.line)
            rl = "a result directory is created with its parents, whether or not it exists"
            c.require(parents, "parents are created", *w, rl, f"{e.name} without parents")
            ok = kw.get("exist_ok", a[2] if len(a) > 2 else FALSE)
            c.require(ok is TRUE, "an existing directory is accepted", *w, rl, f"{e.name} fails on an existing directory")
            def itself(x):
                while is_call(x, "os.path.expanduser", "os.path.abspath", "os.path.normpath", "builtins.str", "os.fspath"):
                    x = x.a[1].a[0]
                return x is d or x.op == "tostr" and itself(x.a[0])
            odd = [k for k in conjuncts(e.guard) if k is not X.truth(d) and not any(x is const("") for x in X.subterms(k)) and not any(
                is_call(x, "os.path.exists", "os.path.isdir") and itself(x.a[1].a[0]) for x in X.subterms(k))]
            if odd and all(X.contains(k, lambda x: x.op in UNKNOWN_OPS) for k in odd):
                c.undecided("made for every name", "condition not understood: " + pretty(odd[0])[:200])
                continue
            c.require(not odd, "made for every name", *w, rl, f"{e.name} only if " + ", ".join(pretty(k)[:100] for k in odd))

    def complete(tag, L, kind):
        """The list holds every element of its source once."""
        p, wh = L.list, (L.event.file, L.event.line)
        c.require(p.a[2] is TRUE, f"{tag}: no file is left out", *wh, rule, f"{tag}: only files with {pretty(p.a[2])[:200]}")
        n = p.a[0]
        x = bare(n.a[0]) if n.op == "len" else None
        if x is None or x.op not in ("call", "file", "index"):
            c.require(not (x is not None and x.op in ("slice", "getslice")) and n.op != "poly", f"{tag}: the whole list",
                      *wh, rule, f"{tag}: works on {pretty(n)[:200]} elements")
            raise Lost(f"{tag}: the number of elements {pretty(n)[:100]}")
        if x.op == "index" and any(y.op == "slice" for y in x.a[1:]):
            c.require(False, f"{tag}: the whole list", *wh, rule, f"{tag}: works on {pretty(x)[:200]}")
        el = [y for y in X.subterms(p.a[1]) if y.op == "index" and y.a[1].op == "bv" and bare(y.a[0]) is x]
        if not el:
            raise Lost(f"{tag}: elements of the list")
        if kind == "scan":
            rec, cs, dr = arg(x, "recursive"), arg(x, "case_sensitive"), arg(x, "dir_path")
            c.require(rec is TRUE, f"{tag}: subdirectories", *wh, rule, f"{tag}: scan of {pretty(dr)} without its subdirectories")
            got = X.subst(p.a[1], lambda y: S("file", "word") if y in el else None)
            c.require(text(got) == text(join(dr, S("file", "word"))), f"{tag}: path of the file", *wh, rule,
                      f"{tag}: converts {pretty(got)} for a file of {pretty(dr)}")
            return text(dr), arg(x, "suffix")
        return x

    def Cityscapes():
        for nproc in (4, 1):
            for IS, R in city_runs(c, nproc=num(nproc)).items():
                kind = "isedge" if IS else "edge"
                tag = f"Cityscapes ({nproc} processes, instances={IS})"
                for L in R.lists:
                    complete(tag, L, "scan")
                for b in R.broken:
                    c.require(False, f"{tag}: the whole list", b.file, b.line, rule, f"{tag}: {b.text}")
                want = [("train", "_gtFine_labelTrainIds.png"), ("val", "_gtFine_labelTrainIds.png"),
                        ("train", f"_gtProc_{kind}.png")] + [("val", f"_gtProc_{h}{t}_{kind}.png") for h in ("", "half_")
                                                             for t in ("raw", "thin")]
                for split, suffix in want:
                    p = join(ROOT, const("gtEval"), const(split), CITY, cat(BASE, const(suffix)))
                    c.require(len(at(R, p)) == 1, f"{tag}: {split} {suffix}", *R.where, rule,
                              f"{tag}: {pretty(p)} is stored {len(at(R, p))} times; stored: {show(R)}")
                for split in ("train", "val", "test"):
                    p = join(ROOT, const("splits"), const(split + ".txt"))
                    listed(f"{tag}: list of {split} samples", R, p, join(CITY, BASE), join(ROOT, const("gtFine"), const(split)))

    def lines(t):
        """(list term) of a text written line by line"""
        if t.op == "strjoin" and t.a[0].op == "str" and t.a[1].op == "maplist":
            el = X.index(t.a[1], S("i", "int"))
            if t.a[0].a[0] == "":
                x = text(el)
                if x[-1:] and x[-1].op == "str" and x[-1].a[0].endswith("\n"):
                    return t.a[1], x[:-1] + ((const(x[-1].a[0][:-1]),) if x[-1].a[0] != "\n" else ())
                return t.a[1], None
            if t.a[0].a[0] == "\n":
                return t.a[1], text(el)
        if t.op == "cat" and t.a[-1] is const("\n"):
            return lines(X.cat(*t.a[:-1]))
        raise Lost("a list of samples is not written line by line")

    def listed(tag, R, p, name, d):
        fs = [v for q, v in R.files.items() if text(q) == text(p)]
        c.require(bool(fs), tag, *R.where, rule, f"{tag}: {pretty(p)} is not written")
        for t, mode, g in fs:
            lst, el = lines(t)
            c.require(el is not None, f"{tag}: one name per line", *R.where, rule, f"{tag}: names are not written on lines of their own")
            if el is None:
                continue
            whole = text(concrete(R.r.I, X.index(lst, S("i", "int"))))
            if any(x.op in ("method", "index", "call") for y in whole for x in X.subterms(y)):
                raise Lost(f"{tag}: the names listed")
            c.require(whole in (text(name), text(cat(name, const("\n")))), f"{tag}: name of a sample", *R.where, rule,
                      f"{tag}: lists {pretty(lst.a[1])[:200]}")
            c.require(lst.a[2] is TRUE, f"{tag}: no sample is left out", *R.where, rule, f"{tag}: only {pretty(lst.a[2])[:200]}")
            x = bare(lst.a[0].a[0]) if lst.a[0].op == "len" else None
            if x is None or not is_scan(x):
                raise Lost(f"{tag}: where the samples come from")
            c.require(text(arg(x, "dir_path")) == text(d) and arg(x, "recursive") is TRUE, f"{tag}: all files of the split",
                      *R.where, rule, f"{tag}: scans {pretty(arg(x, 'dir_path'))}, recursive {pretty(arg(x, 'recursive'))}")

    def SBD():
        for nproc in (4, 1):
            R = sbd_run(c, nproc=nproc)
            tag = f"SBD ({nproc} processes)"
            src = {}
            for L in R.lists:
                x = complete(tag, L, "lines")
                el = X.subst(L.list.a[1], lambda y: S("line", "str") if y.op == "index" and y.a[1].op == "bv" and bare(
                    y.a[0]) is x else None)
                for s in R.stored:
                    if s.src is L:
                        src.setdefault(text(s.path), []).append((x, el))
            for b in R.broken:
                c.require(False, f"{tag}: the whole list", b.file, b.line, rule, f"{tag}: {b.text}")

            def files(suffix, wants, what):
                p = join(ROOT, const("gtEval"), cat(SAMPLE, const(suffix)))
                got = src.get(text(p), [])
                for w in wants:
                    n = sum(1 for x, el in got if w(x, el))
                    c.require(n == 1, f"{tag}: {suffix} for every sample of {what[wants.index(w)]}", *R.where, rule,
                              f"{tag}: {pretty(p)} is stored {n} times for the samples of {what[wants.index(w)]}")

            def lines_of(name):
                p = join(ROOT, const(name))

                def w(x, el):
                    return x.op == "file" and text(x.a[0]) == text(p) and el.op == "method" and el.a[0] in (
                        "rstrip", "strip") and el.a[1] is S("line", "str") or x.op == "method" and any(
                        y.op == "file" and text(y.a[0]) == text(p) for y in X.subterms(x)) and el is S("line", "str")
                return w

            def test_list(d):
                p = join(ROOT, const(d), const("test.mat"))

                def w(x, el):
                    return any(is_call(y, "scipy.io.loadmat") and text(y.a[1].a[0]) == text(p) for y in X.subterms(x)) and \
                        any(y is const("listTest") for y in X.subterms(x))
                return w
            two = [lines_of("train.txt"), lines_of("val.txt")]
            for suffix in ("_raw_edge.png", "_raw_isedge.png", "_thin_edge.png", "_thin_isedge.png", "_labelIds.png",
                           "_trainIds.png", "_instanceIds.png"):
                files(suffix, two, ["train.txt", "val.txt"])
            for t in ("raw", "thin"):
                for k in ("edge", "isedge"):
                    files(f"_reanno_{t}_{k}.png", [test_list(f"gt_reanno_{t}")], ["test.mat"])
            p = join(ROOT, const("reanno_val.txt"))
            fs = [v for q, v in R.files.items() if text(q) == text(p)]
            name = f"{tag}: list of re-annotated samples"
            c.require(bool(fs), name, *R.where, rule, f"{name}: not written")
            raw = [L.list for L in R.lists if test_list("gt_reanno_raw")(L.list, None)]
            for t, mode, g in fs:
                lst, el = lines(t)
                c.require(el is not None and bool(raw) and el == text(X.index(raw[0], S("i", "int"))) and
                          lst.a[0] is raw[0].a[0] and lst.a[2] is raw[0].a[2], name, *R.where, rule,
                          f"{name}: {pretty(lst)[:200]}")

    def BSDS_samples():
        """Without a list, every annotation of the split is a sample, case by case of what a directory may hold."""
        c.driver("bsds_listing", """
from pyEdgeEval.evaluators.bsds import BSDS500Evaluator

def listed(root, pred, split):
    e = BSDS500Evaluator(root, pred, split=split)
    e.set_sample_names()
    return e.sample_names
""")
        wh = small.where(c, "pyEdgeEval.evaluators.bsds.BSDS500Evaluator")
        for split in ("val", "test"):
            v = c.run("bsds_listing.listed", [ROOT, J.PRED, const(split)]).value
            name = f"BSDS: samples of the {split} split"
            if v.op == "call" and is_call(v, "builtins.sorted") and v.a[1].a:
                v = v.a[1].a[0]
            here = join(ROOT, const("groundTruth"), const(split))
            src = bare(v.a[0].a[0]) if v.op == "maplist" and v.a[0].op == "len" else None
            if src is not None and is_call(src, "builtins.sorted") and src.a[1].a:
                src = src.a[1].a[0]
            if src is None or not is_call(src, "os.listdir"):
                c.undecided(name, pretty(v)[:300])
                continue
            c.require(text(src.a[1].a[0]) == text(here), f"{name}: directory", *wh, rule, f"{name}: lists {pretty(src)[:200]}")
            for fn, want in (("100007.mat", "100007"), ("a.b.mat", "a.b"), ("8049.MAT", "8049"), ("Thumbs.db", None),
                             ("100007.mat.txt", None), ("mat", None), ("2018.jpg", None)):
                el = lambda t: folded(X.subst(X.instantiate(t, S("entry", "int")), lambda y: const(fn) if y.op == "index"
                                              and bare(y.a[0]) in (src, v.a[0].a[0]) and y.a[1] is S("entry", "int") else None))
                k = el(v.a[2])
                tag = f"{name}: {fn}"
                if k not in (TRUE, FALSE):
                    c.undecided(tag, pretty(k)[:200])
                    continue
                if want is None:
                    c.require(k is FALSE, tag, *wh, rule, f"{name}: {fn} is taken for an annotation")
                    continue
                c.require(k is TRUE, tag, *wh, rule, f"{name}: the annotation {fn} is left out")
                got = el(v.a[1])
                if any(y.op in ("call", "method", "index") for y in X.subterms(got)):
                    c.undecided(f"{tag}: name", pretty(got)[:200])
                elif k is TRUE:
                    c.require("".join(str(y.a[0]) for y in text(got)) == f"{split}/{want}", f"{tag}: name", *wh, rule,
                              f"{name}: {fn} becomes the sample {pretty(got)}")

    each(c, (scanning, directories, Cityscapes, SBD, BSDS_samples))
    return "scan of one directory entry case by case; work lists and sample lists of every conversion"


def folded(t):
    """A term over known file names."""
    import os.path as osp
    text_ = lambda x: x.op == "str"

    def f(x):
        if x.op in ("call", "method", "cat", "index", "cmp", "not", "and", "or", "ite", "truth", "join", "tuple") and x.a:
            y = mk(x.op, *[folded(z) if isinstance(z, T) else z for z in x.a])
        else:
            return None
        if y.op == "call" and y.a[0].op == "ext" and len(y.a[1].a) == 1 and text_(y.a[1].a[0]) and not y.a[2].a:
            v, n = y.a[1].a[0].a[0], y.a[0].a[0]
            if n in ("os.path.split", "os.path.splitext"):
                return mk("tuple", *map(const, (osp.split if n.endswith("split") else osp.splitext)(v)))
            if n in ("os.path.basename", "os.path.dirname"):
                return const(getattr(osp, n[8:])(v))
        if y.op == "method" and text_(y.a[1]) and y.a[0] in ("lower", "casefold", "endswith", "removesuffix", "split", "rsplit",
                                                          "rpartition", "partition") and all(
                z.op in ("str", "num") for z in y.a[2].a) and not (len(y.a) > 3 and y.a[3].a):
            v = getattr(y.a[1].a[0], y.a[0])(*[z.a[0] for z in y.a[2].a])
            return B[v] if isinstance(v, bool) else const(v) if isinstance(v, str) else mk(
                "list", *map(const, v))
        if y.op == "index":
            return X.index(*y.a)
        if y.op == "cmp" and len(y.a) == 3 and all(isinstance(z, T) and text_(z) for z in y.a[1:]):
            a, b = y.a[1].a[0], y.a[2].a[0]
            if y.a[0] in ("==", "!="):
                return B[(a == b) == (y.a[0] == "==")]
        if y.op == "not" and y.a[0] in (TRUE, FALSE):
            return B[y.a[0] is FALSE]
        if y.op == "ite":
            return X.ite(*y.a)
        return y
    return X.subst(t, f)


# ------------------------------------------------------------------ C39
def C39(c):
    spec(c)
    H = "pyEdgeEval.helpers.convert_sbd."
    p, q = S("path", "str"), S("inst_path", "str")
    rule = "an annotation is returned as it is stored"

    def read(t):
        return X.contains(t, lambda x: x is p or x is q)

    def roots(t):
        """What was stored, without what was done to it since."""
        def f(x):
            if x.op == "index" and read(x.a[0]) and (
                    x.a[1].op == "str" or x.a[1].op == "num" and x.a[0].op == "index" and x.a[0].a[1].op == "tuple"):
                y = x.a[0]
                while y.op == "index":
                    if not (y.a[1].op in ("str", "num") or y.a[1].op == "tuple" and all(z.op == "num" for z in y.a[1].a)):
                        return False
                    y = y.a[0]
                return True
            return False
        out, todo, seen = set(), [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if f(x):
                out.add(x)
                continue
            todo += [y for y in x.a if isinstance(y, T)]
        return out

    def paired(t):
        """A record of instances has one boundary per category: either of them counts the instances."""
        def part(x):
            x = x.a[0] if x.op == "len" and x.a else None
            return (x.a[0], pretty(x.a[1])) if x is not None and x.op == "index" and read(x) else (None, None)

        def f(x):
            if x.op != "minlen":
                return None
            ps = [part(y) for y in x.a]
            if len({r for r, _ in ps}) == 1 and ps[0][0] is not None and {k for _, k in ps} in (
                    {"'Boundaries'", "'Categories'"}, {"1", "2"}):
                return next(y for y, (_, k) in zip(x.a, ps) if k in ("'Categories'", "2"))
            return None
        return alone(X.subst(alone(t), f))

    def same(name, g, w, wh):
        for k, what in ((0, "boundaries"), (1, "segmentation"), (2, "categories")):
            a, b = X.index(g, num(k)), X.index(w, num(k))
            if k == 2:
                ra, rb = roots(a), roots(b)
                if ra == rb:
                    c.ok(f"{name}: {what}")
                elif not ra or any(x.op in UNKNOWN_OPS for x in X.subterms(a)):
                    c.undecided(f"{name}: {what}", pretty(a)[:300])
                else:
                    c.violate(f"{name}: {what}", *wh, rule, f"the {what} returned come from "
                              + ", ".join(pretty(x) for x in ra)[:300])
                continue
            c.compare(f"{name}: {what}", a, b, rule, wh, norm=paired)

    for fn, ref_, args in (("load_sbd_gt_cls_mat", "read_cls", [p]), ("load_sbd_gt_inst_mat", "read_inst", [p]),
                           ("load_instance_insensitive_gt", "read_cls", [p]),
                           ("load_instance_sensitive_gt", "with_instances", [p, q])):
        for new in (TRUE, FALSE):
            g = c.run(H + fn, args + [new])
            w = c.run("spec.convert." + ref_, args + [new])
            same(f"{fn} ({'pymatreader' if new is TRUE else 'scipy'})", g.value, w.value, small.where(c, H + fn))
    g = c.run(H + "load_reanno_instance_insensitive_gt", [p])
    same("load_reanno_instance_insensitive_gt", g.value, c.run("spec.convert.read_cls", [p, TRUE]).value,
         small.where(c, H + "load_reanno_instance_insensitive_gt"))
    fn = H + "load_reanno_instance_sensitive_gt"
    g = c.run(fn, [p, q])
    w = c.run("spec.convert.read_cls", [p, TRUE]).value
    same("load_reanno_instance_sensitive_gt", g.value,
         mk("tuple", c.run("spec.convert.reanno", [p, q]).value, X.index(w, num(1)), X.index(w, num(2))), small.where(c, fn))
    stored_shapes(c, p)
    return "values returned by every reader of the stored annotations, per reader library, against the stored records"


def stored_shapes(c, p):
    """Categories are returned in one dimension however the reader library stores them."""
    H = "pyEdgeEval.helpers.convert_sbd."
    rule = "the categories are one row, and every annotation with a two-dimensional segmentation is accepted"

    def prod(sh):
        n = 1
        for k in sh:
            n *= k
        return n

    for kind in ("cls", "inst"):
        fn = f"{H}load_sbd_gt_{kind}_mat"
        wh = small.where(c, fn)
        for new in (TRUE, FALSE):
            lib = "pymatreader" if new is TRUE else "scipy"
            g = c.run(fn, [p, new])
            w = c.run(f"spec.convert.read_{kind}", [p, new]).value
            root, seg = X.index(w, num(2)), X.index(w, num(1))
            got = X.index(g.value, num(2))
            for sh in (["int", (), (1,), (3,)] if new is TRUE else [(1, 1), (3, 1), (1, 3)]):
                name = f"{fn.split('.')[-1]} ({lib}): categories stored as {'a number' if sh == 'int' else sh}"

                def settle(t):
                    return X.subst(t, known)

                def known(x):
                    if x.op == "isinst" and x.a[0] is root:
                        return B[sh == "int" and "int" in pretty(x.a[1])]
                    if x.op == "attr" and x.a[1] == "ndim":
                        if x.a[0] is seg:
                            return num(2)
                        d = dims(x.a[0])
                        return None if d is None else num(len(d))
                    if x.op == "attr" and x.a[1] == "size":
                        d = dims(x.a[0])
                        return None if d is None else num(prod(d))
                    return None

                def dims(x):
                    if x is root:
                        return None if sh == "int" else sh
                    if x.op == "ite":
                        k = settle(x.a[0])
                        return dims(x.a[1]) if k is TRUE else dims(x.a[2]) if k is FALSE else None
                    if x.op == "index" and x.a[1] is NONE:
                        d = dims(x.a[0])
                        return None if d is None else (1,) + d
                    if x.op in ("astype", "copied"):
                        return dims(x.a[0])
                    if x.op in ("list", "tuple") and x.a and all(z.op != "star" for z in x.a):
                        d = {() if z is root and sh == "int" else dims(z) for z in x.a}
                        return None if len(d) != 1 or None in d else (len(x.a),) + d.pop()
                    if x.op == "call" and x.a[0].op == "ext" and x.a[1].a and not x.a[2].a:
                        n, y = x.a[0].a[0], x.a[1].a[0]
                        if y.op in ("list", "tuple"):
                            d = dims(y)
                            return d if n == "numpy.array" and len(x.a[1].a) == 1 else None
                        d = (() if y is root and sh == "int" else dims(y))
                        if d is None:
                            return None
                        if n == "numpy.squeeze" and len(x.a[1].a) == 1:
                            return tuple(k for k in d if k != 1)
                        if n == "numpy.atleast_1d":
                            return d or (1,)
                        if n in ("numpy.array", "numpy.asarray") and len(x.a[1].a) == 1:
                            return d
                        if n == "numpy.ravel":
                            return (prod(d),)
                    if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "numpy.reshape" and len(x.a[1].a) == 2 \
                            and x.a[1].a[1] in (num(-1), mk("tuple", num(-1)), mk("list", num(-1))):
                        d = dims(x.a[1].a[0])
                        return None if d is None else (prod(d),)
                    return None

                pc = settle(g.st.pc)
                if pc is FALSE:
                    c.violate(name, *wh, rule, f"{name}: refused")
                    continue
                d = dims(got)
                want = (1,) if sh == "int" else (prod(sh),)
                if d is None:
                    c.undecided(name, pretty(settle(got))[:300])
                else:
                    c.require(d == want, name, *wh, rule, f"{name}: returned in the shape {d}")
