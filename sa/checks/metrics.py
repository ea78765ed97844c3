"""C03-C07: metric computation."""
import os
from ..core import *
from .. import terms as X
from ..terms import mk, const, num, NONE, TRUE, FALSE
from .. import norms

def _thr_len(y):
    return y.op == "len" and y.a[0].op == "call" and y.a[0].a[0].op == "fn" and \
        y.a[0].a[0].a[0].endswith("check_thresholds") or y.op == "len" and y.a[0] is S("samples", "list")


NORM = norms.chain(norms.ratio, norms.zip_len(_thr_len), norms.maxima)
MODS = ("binary_label", "multi_label")
CALC = "pyEdgeEval.common.{}.calculate_metrics"
OPQ = ["pyEdgeEval.common.utils.check_thresholds"]


def runs(c):
    X.SUM_ROWS = True
    try:
        return runs_(c)
    finally:
        X.SUM_ROWS = False


def runs_(c):
    c.driver("spec.metrics", open(os.path.join(VERIF, "sa", "specs", "metrics.py")).read())
    kw = dict(eval_single=S("eval_single"), thresholds=S("thresholds"),
              samples=S("samples", "list"), nproc=S("nproc", "int"))
    w = c.run("spec.metrics.metrics", [], kw, opaque=OPQ)
    out = []
    for m in MODS:
        g = c.run(CALC.format(m), [], kw, opaque=OPQ)
        v = g.value
        if v.op not in ("tuple", "list") or len(v.a) != 3:
            if v.op == "ite":
                v = mk("tuple", *[X.index(v, num(i)) for i in range(3)])
            else:
                raise AnalysisError(f"{CALC.format(m)} no longer returns three results")
        r = c.ix.need(CALC.format(m))
        out.append((m, g, list(v.a), list(w.value.a), (c.ix.modules[r[3]].rel, r[2].lineno)))
    return out


def cmpkey(c, m, G, W, k, rule, where):
    if G.op == "dict" and all(map(X.is_const, G.a[::2])) and const(k) not in G.a[::2]:
        c.require(False, f"{m} pipeline: {k}", *where, rule, f"the summary has no {k}")
        return
    c.compare(f"{m} pipeline: {k}", X.index(G, const(k)), X.index(W, const(k)), rule, where,
              norm=NORM)


def C03(c):
    for m, g, G, W, wh in runs(c):
        rule = "the dataset curve must come from counts summed over all samples"
        c.compare(f"{m} pipeline: per-threshold curve", G[1], W[1], rule, wh, norm=NORM)
        for k in ("ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1"):
            cmpkey(c, m, G[2], W[2], k,
                   "ODS values belong to the first best-F point of the interpolated dataset curve", wh)
    return "curve and ODS terms of both metric pipelines against the reference"


def C04(c):
    for m, g, G, W, wh in runs(c):
        c.compare(f"{m} pipeline: per-image rows", G[0], W[0],
                  "one row per sample, at its own first best-F threshold", wh, norm=NORM)
        for k in ("OIS_recall", "OIS_precision", "OIS_f1"):
            cmpkey(c, m, G[2], W[2], k, "OIS sums the counts of each image's own best threshold", wh)
    return "per-image rows and OIS terms of both metric pipelines against the reference"


def C05(c):
    for m, g, G, W, wh in runs(c):
        cmpkey(c, m, G[2], W[2], "AUC", "AUC integrates the interpolated curve in steps of 0.01", wh)
        cmpkey(c, m, G[2], W[2], "AP", "AP averages the best precision over 101 recall levels", wh)
    return "AUC and AP terms of both metric pipelines against the reference"


def C06(c):
    rule = "the result of a worker must be attributed to the sample it was computed from"
    U = "pyEdgeEval.utils."
    f, t = S("func"), S("tasks", "list")
    src = "def go(func, tasks):\n    return [func(t) for t in tasks]\n"
    c.driver("spec.progress", src)
    w = c.run("spec.progress.go", [f, t])

    def where(p):
        r = c.ix.need(p)
        return (c.ix.modules[r[3]].rel, r[2].lineno)
    for nb in (TRUE, FALSE):
        for name, kw in (("track_progress", {}),
                         ("track_parallel_progress", dict(nproc=S("nproc", "int"))),
                         ("track_parallel_progress", dict(nproc=S("nproc", "int"), keep_order=TRUE)),
                         ("track_parallel_progress", dict(nproc=S("nproc", "int"), skip_first=TRUE)),
                         ("track_parallel_progress", dict(nproc=S("nproc", "int"), chunksize=S("chunksize", "int"))),
                         ("track_progress", dict(pair=TRUE)),
                         ("track_parallel_progress", dict(nproc=S("nproc", "int"), pair=TRUE))):
            kw = dict(kw)
            tasks = mk("tuple", t, X.length(t)) if kw.pop("pair", None) else t
            g = c.run(U + name, [], dict(kw, func=f, tasks=tasks, no_bar=nb))
            order(c, f"{name}{'' if nb is TRUE else ' with bar'}{' (explicit order)' if 'keep_order' in kw else ''}"
                     f"{' (warm-up)' if 'skip_first' in kw else ' (chunks)' if 'chunksize' in kw else ''}"
                     f"{' (tasks and their number)' if tasks is not t else ''}", g.value, w.value, rule,
                  where(U + name))
    # the metric pipelines, sequential against parallel
    many = mk("cmp", "<", num(1), S("nproc", "int"))
    for m, g, G, W, wh in runs(c):
        for i, what in enumerate(("per-image rows", "curve", "overall result")):
            par = X.subst(G[i], lambda x: TRUE if x is many else None)
            seq = X.subst(G[i], lambda x: FALSE if x is many else None)
            order(c, f"{m} pipeline, several workers as one: {what}", par, seq, rule, wh, NORM)
    return ("values returned by the progress helpers and by both metric pipelines for a symbolic "
            "worker count (several against one), process pools modelled as order-preserving or not")


def order(c, name, got, want, rule, where, norm=None):
    un = [x for x in X.subterms(got) if x.op == "unordered"]
    if un:
        bad = [x for x in X.subterms(got) if x.op in ("index", "maplist") and any(
            y.op == "unordered" for y in x.a if isinstance(y, T))]
        if bad and not any("sorted" in v or "sort" in v for v in vocab(got)):
            f, l = term_loc(un[0]) or where
            c.violate(name, f, l, rule, f"results are consumed in completion order: {pretty(bad[0])[:300]}")
        else:
            c.undecided(name, "completion-order results are rearranged")
        return
    c.compare(name, got, want, rule, where, norm=norm)


def same_numbers(t):
    """Conversions that keep the value of a count."""
    def f(x):
        if x.op == "astype" and x.a[1].a and x.a[1].a[0] in ("builtins.float", "numpy.float64", "float64", "float"):
            return same_numbers(x.a[0])
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in (
                "numpy.array", "numpy.asarray", "builtins.float", "numpy.float64") and len(x.a[1].a) == 1 and not x.a[2].a:
            return same_numbers(x.a[1].a[0])
        return None
    return X.subst(t, f)


SAME_NUMBERS = norms.chain(same_numbers, NORM)


def C07(c):
    M = "pyEdgeEval.common.metrics."
    c.driver("spec.metrics", open(os.path.join(VERIF, "sa", "specs", "metrics.py")).read())
    rule = "exact ratio, 0 when the total is 0"
    for kind in ("float", "array"):
        a, b, d, e = (S(n, kind) for n in ("matched_r", "total_r", "matched_p", "total_p"))

        def where(p):
            r = c.ix.need(p)
            return (c.ix.modules[r[3]].rel, r[2].lineno)
        g = c.run(M + "recall", [a, b])
        w = c.run("spec.metrics.ratio", [a, b])
        c.compare(f"recall ({kind})", g.value, w.value, rule, where(M + "recall"), norm=SAME_NUMBERS)
        g = c.run(M + "precision", [a, b])
        c.compare(f"precision ({kind})", g.value, w.value, rule, where(M + "precision"), norm=SAME_NUMBERS)
        P, R = S("prec", kind), S("rec", kind)
        g = c.run(M + "f1", [P, R])
        w = c.run("spec.metrics.fscore", [P, R])
        c.compare(f"F ({kind})", g.value, w.value, "F is 2PR/(P+R), 0 when both are 0",
                  where(M + "f1"), norm=SAME_NUMBERS)
        g = c.run(M + "compute_rec_prec_f1", [a, b, d, e])
        w = c.run("spec.metrics.rpf", [a, b, d, e])
        for i, nm in enumerate(("recall", "precision", "F")):
            c.compare(f"compute_rec_prec_f1 ({kind}): {nm}", X.index(g.value, num(i)),
                      X.index(w.value, num(i)), "recall, precision and F of the given counts",
                      where(M + "compute_rec_prec_f1"), norm=SAME_NUMBERS)
    return "ratio terms (scalar and array) of the public ratio functions against the reference"
