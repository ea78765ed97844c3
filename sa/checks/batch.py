"""C41: suppression of whole directories."""
from ..core import *
from .. import terms as X
from .. import norms
from ..terms import mk, const, NONE, TRUE, FALSE, join, cat
from . import jobs as J
from . import small
from .convert import Lost, bare, conjuncts, is_call, named_parts, parts
from .edges import has_unknown

P = "pyEdgeEval.preprocess.nms.fast_nms."
IN, OUT, STEM, KEY = S("results", "word"), S("output", "word"), S("stem", "word"), S("key", "word")
MODEL = S("model", "word")

WANTED = """
import os
import numpy as np
from scipy.io import loadmat
from pyEdgeEval.preprocess import fast_nms


def suppressed(image):
    return fast_nms(image, r=1, s=5, m=1.01, half_prec=False, return_as_uint8=True)


def by_loader(file, loader):
    return suppressed(loader(file))


def npy(file):
    return suppressed(np.load(file))


def mat(file, key):
    return suppressed(loadmat(file)[key])
"""


def plain(t):
    """Texts of names, whose pieces are known."""
    def f(x):
        if x.op == "tostr" and isinstance(x.a[0], T) and x.a[0].op in ("str", "sym", "cat", "join"):
            return x.a[0]
        return None
    return norms.bottom_up(f)(named_parts(t))


class Work:
    """The files a run writes for one file of the result directory."""
    def __init__(self, r, name, models=None):
        self.r, self.name, self.models = r, name, models
        self.lists, self.model_lists = {}, {}
        self.asserted = set()
        for e in r.events:
            if e.kind == "assert":
                self.asserted |= set(map(self.one, conjuncts(e.args["cond"])))
        self.out, self.made = [], []
        for k, e in enumerate(r.events):
            g = self.one(e.guard)
            if g is FALSE or e.kind not in ("ext", "method"):
                continue
            nm = str(e.name)
            a = e.args.get("args")
            a = [self.one(r.I.deep(r.st, x)) for x in (a.a if isinstance(a, T) else a or ())]
            if nm.endswith("imwrite"):
                kw = r.I.deep(r.st, e.args["kw"])
                if len(a) < 2:
                    raise Lost("what is written")
                self.out.append((k, e, g, a[0], a[1]))
            elif e.kind == "method" and nm in ("save", "tofile", "imsave") or nm.endswith(("imsave", "numpy.save", "savemat")):
                raise Lost(f"written by {nm}")
            elif nm in ("os.makedirs", "os.mkdir"):
                self.made.append((k, e, g, a[0] if a else None))
            elif nm == "mkdir":
                self.made.append((k, e, g, self.one(r.I.deep(r.st, e.args["recv"]))))

    def one(self, t):
        t = self.r.I.deep(self.r.st, t)

        def leaf(x):
            if x.op != "index" or x.a[1].op not in ("iv", "bv"):
                return None
            y = bare(x.a[0])
            while y.op in ("slice", "getslice") or y.op == "index" and y.a[1].op == "slice":
                y = bare(y.a[0])
            if is_call(y, "os.listdir"):
                return self.name
            if self.models is not None and y is self.models:
                return MODEL
            return None
        t = X.subst(t, leaf)
        while True:
            u = plain(t)
            if u is t:
                return t
            t = u


def there(t, path):
    """`t` says that the file exists"""
    return is_call(t, "os.path.isfile", "os.path.exists", "os.path.lexists") and t.a[1].a[0] is path


def strip(t):
    while t.op == "truth":
        t = t.a[0]
    return t


def C41(c):
    J.spec(c)
    c.driver("spec.batch", WANTED)
    rule = "every result is suppressed with the reference settings and written under its own name"
    LOADER = S("loader", "fn")

    def wanted(fn, *args):
        return c.run("spec.batch." + fn, list(args), opaque=[P + "fast_nms"]).value

    def run(fn, **kw):
        r = c.run(P + fn, [], kw, opaque=[P + "fast_nms"])
        return r

    def directory(tag, fn, r, folder, files, skipped, models=None, need=()):
        wh = small.where(c, P + fn)
        for file, content in files:
            W = Work(r, file, models)
            if not W.out:
                if has_unknown(r):
                    raise Lost(f"{tag}: what is written")
                c.require(False, f"{tag}: {pretty(file)} is suppressed", *wh, rule, f"{tag}: nothing is written for {pretty(file)}")
                continue
            path = join(folder, cat(STEM, const(".png")))
            for k, e, g, p, v in W.out:
                w = (e.file, e.line)
                c.compare(f"{tag}: output for {pretty(file)}", p, path, rule, w)
                c.compare(f"{tag}: content of the output for {pretty(file)}", v, content, rule, w, allowed=("os.listdir",))
                left = [x for x in conjuncts(g) if x not in W.asserted]
                odd = [x for x in left if not (x.op == "not" and there(strip(x.a[0]), p))]
                for x in odd:
                    if any(y.op in UNKNOWN_OPS or y.op == "method" for y in X.subterms(x)):
                        raise Lost(f"{tag}: when the output is written: {pretty(x)[:120]}")
                c.require(not odd, f"{tag}: {pretty(file)} is suppressed unless its output exists", *w, rule,
                          f"{tag}: written only if {', '.join(pretty(x)[:160] for x in odd)}")
                c.require(len(odd) < len(left), f"{tag}: existing outputs are kept", *w,
                          "an existing output is left alone", f"{tag}: {pretty(p)} is written whether or not it exists")
                whole(tag, r, e, w, models)
                ok = [m for m in W.made if m[0] < k and m[3] is folder and all(
                    x in W.asserted or x.op == "not" and is_call(strip(x.a[0]), "os.path.isdir", "os.path.exists")
                    and strip(x.a[0]).a[1].a[0] is folder for x in conjuncts(m[2]))]
                if not ok and [m for m in W.made if m[3] is not None and any(
                        y.op in UNKNOWN_OPS or y.op == "method" for y in X.subterms(m[3]))]:
                    raise Lost(f"{tag}: which directory is made")
                c.require(bool(ok), f"{tag}: the output directory is made first", *w,
                          "outputs go to a directory that exists", f"{tag}: {pretty(folder)} is not created before {pretty(p)} is written")
        for file in skipped:
            W = Work(r, file, models)
            c.require(not W.out, f"{tag}: {pretty(file)} is left out", *(wh if not W.out else (W.out[0][1].file, W.out[0][1].line)),
                      "only files of the requested format are read", f"{tag}: {pretty(file)} is read as a result")

    def whole(tag, r, e, w, models):
        """Every listed file, for every model."""
        got = []
        for i, n in e.loops:
            if i in r.I.stops:
                c.require(False, f"{tag}: the whole list", *w, rule,
                          f"{tag}: the rest is left out after {pretty(r.I.deep(r.st, r.I.stops[i]))[:160]}")
                return
            n = r.I.deep(r.st, n)
            x = bare(n.a[0]) if n.op == "len" else None
            if x is not None and (models is not None and x is models):
                got.append("models")
            elif x is not None and is_call(x, "os.listdir") and x.a[1].a and x.a[1].a[0] is IN:
                got.append("files")
            elif n.op == "num" and n.a[0] == 1 and models is None:
                pass
            else:
                if n.op != "poly" and not any(y.op in ("slice", "getslice") or is_call(y, "os.listdir") for y in X.subterms(n)):
                    raise Lost(f"{tag}: works on {pretty(n)[:120]} elements")
                c.require(False, f"{tag}: the whole list", *w, rule, f"{tag}: works on {pretty(n)[:160]} elements")
                return
        need = ["files"] + (["models"] if models is not None else [])
        if sorted(got) != sorted(need):
            raise Lost(f"{tag}: the loops around the output")
        c.require(True, f"{tag}: the whole list", *w, rule, "")

    def results():
        f = cat(STEM, const(".mat"))
        r = run("nms_results", result_dir=IN, save_dir=OUT, loader=LOADER)
        directory("nms_results", "nms_results", r, OUT,
                  [(cat(STEM, const(x)), wanted("by_loader", join(IN, cat(STEM, const(x))), LOADER)) for x in (".mat", ".png")], [])

    def models():
        L = S("models", "list")
        for tag, m, folder in (("several models", L, join(OUT, MODEL)), ("one model", MODEL, join(OUT, MODEL)),
                               ("one listed model", mk("list", MODEL), join(OUT, MODEL))):
            for fmt, fn, args in ((".mat", "mat", [KEY]), (".npy", "npy", [])):
                r = run("nms_all_results", model_name_list=m, result_dir=IN, save_dir=OUT, key=KEY, file_format=const(fmt))
                f = cat(STEM, const(fmt))
                directory(f"nms_all_results ({tag}, {fmt})", "nms_all_results", r, folder,
                          [(f, wanted(fn, join(IN, f), *args))],
                          [cat(STEM, const(x)) for x in (".mat", ".npy", ".png") if x != fmt], L if m is L else None)
        r = run("nms_all_results", model_name_list=L, result_dir=IN, save_dir=OUT, key=KEY, file_format=const(".png"))
        wh = small.where(c, P + "nms_all_results")
        c.require(r.raises, "nms_all_results: other formats are refused", *wh, "only the two formats are accepted",
                  "file_format='.png' is accepted")

    def single():
        img = S("img", "array")
        p = join(OUT, cat(STEM, const(".png")))
        wh = small.where(c, P + "nms_process_one_image")
        for tag, save, path in (("saved", TRUE, p), ("not saved", FALSE, p), ("not saved, no path", FALSE, NONE)):
            r = run("nms_process_one_image", img=img, save_path=path, save=save)
            if r.raises:
                c.require(False, f"nms_process_one_image ({tag})", *wh, rule, f"nms_process_one_image ({tag}) fails")
                continue
            c.compare(f"nms_process_one_image ({tag}): result", r.value, wanted("suppressed", img), rule, wh)
            W = Work(r, NONE)
            if save is FALSE:
                c.require(not W.out, f"nms_process_one_image ({tag}): nothing is written", *wh, rule,
                          "an image is written although saving is off")
                continue
            c.require(bool(W.out), f"nms_process_one_image ({tag}): written", *wh, rule, "the image is not written")
            for k, e, g, q, v in W.out:
                c.compare(f"nms_process_one_image ({tag}): path", q, p, rule, (e.file, e.line))
                c.compare(f"nms_process_one_image ({tag}): content", v, wanted("suppressed", img), rule, (e.file, e.line))
                odd = [x for x in conjuncts(g) if x not in W.asserted]
                c.require(not odd, f"nms_process_one_image ({tag}): always", e.file, e.line, rule,
                          f"written only if {', '.join(pretty(x)[:120] for x in odd)}")
        r = run("nms_process_one_image", img=img, save_path=join(OUT, cat(STEM, const(".jpg"))), save=TRUE)
        c.require(r.raises, "nms_process_one_image: lossy formats are refused", *wh, "results are stored without loss",
                  "a .jpg path is accepted")

    for f in (results, models, single):
        try:
            f()
        except Lost as e:
            c.undecided(f.__name__, str(e))
    return "files written per listed file, model and format"


def entries(c):
    """The batch functions with arbitrary arguments: name -> what to interpret."""
    for fmt in (".mat", ".npy"):
        yield f"nms_all_results({fmt})", lambda fmt=fmt: c.run(P + "nms_all_results", [], dict(
            model_name_list=S("models", "list"), result_dir=IN, save_dir=OUT, key=KEY, file_format=const(fmt)))
    yield "nms_results", lambda: c.run(P + "nms_results", [], dict(result_dir=IN, save_dir=OUT, loader=S("loader", "fn")))
    yield "nms_process_one_image", lambda: c.run(P + "nms_process_one_image", [], dict(
        img=S("img", "array"), save_path=join(OUT, cat(STEM, const(".png"))), save=TRUE))
