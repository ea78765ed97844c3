"""C01, C02, C08, C26: the per-image scorers."""
from ..core import *
from .. import terms as X
from .. import norms
from ..terms import mk, const, num, NONE, TRUE, FALSE

BIN = "pyEdgeEval.common.binary_label.evaluate_boundaries_threshold"
MUL = "pyEdgeEval.common.multi_label.evaluate_boundaries_threshold"
GTS = "pyEdgeEval.common.binary_label.evaluate_boundaries_threshold_multiple_gts"
OPQ = ["pyEdgeEval._lib.correspond_pixels", "pyEdgeEval.preprocess.binary_thin",
       "pyEdgeEval.preprocess.fast_nms"]
NORM = norms.one_dim(S("thresholds", "array"))
OUT = ("matched ground-truth pixels", "total ground-truth pixels",
       "matched predicted pixels", "total predicted pixels")
B = {True: TRUE, False: FALSE}


def spec(c):
    import os
    p = os.path.join(VERIF, "sa", "specs", "scorer.py")
    c.driver("spec.scorer", open(p).read())
    X.NONNEG_FNS.add(c.q("pyEdgeEval._lib.correspond_pixels"))
    X.BOOL_FNS.add(c.q("pyEdgeEval.preprocess.binary_thin"))


def syms():
    return dict(T=S("thresholds", "array"), P=S("pred", "array"), G=S("gt", "array"),
                seg=S("gt_seg", "barray"), md=S("max_dist", "float"))


NMS = dict(r=S("nms_r", "int"), s=S("nms_s", "int"), m=S("nms_m", "float"),
           half_prec=S("nms_half", "bool"))


def nms_kw():
    return X.mk_dict([(const(k), v) for k, v in NMS.items()])


def kernels(c, thin=False, nms=False, kill=False, skip=False):
    """(name, public path, computed 4-tuple run, reference 4-tuple run)"""
    s = syms()
    base = dict(thresholds=s["T"], pred=s["P"], gt=s["G"], max_dist=s["md"],
                apply_thinning=B[thin], apply_nms=B[nms], nms_kwargs=nms_kw())
    ref = lambda k, sk: c.run("spec.scorer.single", [], dict(
        thresholds=s["T"], pred=s["P"], gt=s["G"], gt_seg=s["seg"], max_dist=s["md"],
        apply_thinning=B[thin], apply_nms=B[nms], nms_kwargs=nms_kw(),
        kill_internal=B[k], skip_if_nonexistent=B[sk]), opaque=OPQ)
    out = []
    if not kill and not skip:
        out.append(("single-ground-truth binary scorer", BIN, c.run(BIN, [], base, opaque=OPQ), ref(False, False)))
    kw = dict(base, gt_seg=s["seg"], kill_internal=B[kill], skip_if_nonexistent=B[skip])
    out.append(("semantic scorer", MUL, c.run(MUL, [], kw, opaque=OPQ), ref(kill, skip)))
    return out


def several(c, thin=False, nms=False):
    s = syms()
    kw = dict(thresholds=s["T"], pred=s["P"], gts=S("gts", "list"), max_dist=s["md"],
              apply_thinning=B[thin], apply_nms=B[nms], nms_kwargs=nms_kw())
    got = c.run(GTS, [], kw, opaque=OPQ)
    want = c.run("spec.scorer.several", [], kw, opaque=OPQ)
    return "several-ground-truths scorer", GTS, got, want


def four(c, name, path, run):
    v = run.value
    if v.op == "ite":  # early return: merged tuples
        parts = [X.index(v, num(i)) for i in range(4)]
        return parts
    if v.op not in ("tuple", "list") or len(v.a) != 4:
        raise AnalysisError(f"{path} no longer returns four count arrays")
    return list(v.a)


def nonempty(t, val=True):
    """Specialise to a (non-)empty ground truth."""
    g = X.mk_any(S("gt", "array"))
    return X.subst(t, lambda x: const(val) if x is g else None)


def where(c, path):
    r = c.ix.need(path)
    return (c.ix.modules[r[3]].rel, r[2].lineno)


def carried(c, name, G, wh):
    """No image is carried over from one threshold to the next."""
    P = S("pred", "array")
    for k in (2, 3):
        bad = [x for x in X.subterms(G[k]) if x.op == "loopgen" and any(
            isinstance(y, T) and (y is P or y.op == "call" and contains(y, lambda z: z is P))
            for y in x.a)]
        if bad:
            f, l = term_loc(G[k]) or wh
            c.violate(f"{name}: thresholds are independent", f, l,
                      "no entry may depend on another threshold",
                      f"the scored map is carried from one threshold to the next: {pretty(bad[0])[:400]}")
            return
    c.ok(f"{name}: thresholds are independent")


def C01(c):
    spec(c)
    n = 0
    for thin in (False, True):
        for name, path, got, want in kernels(c, thin=thin):
            G, W = four(c, name, path, got), four(c, name, path, want)
            for k in range(4):
                c.compare(f"{name} ({'thinned' if thin else 'raw'}), non-empty ground truth: {OUT[k]}",
                          nonempty(G[k]), nonempty(W[k]),
                          "per-threshold count must come from the documented side of the matching",
                          where(c, path), norm=NORM)
                n += 1
            carried(c, f"{name} ({'thinned' if thin else 'raw'})", G, where(c, path))
    name, path, got, want = several(c, True)
    carried(c, name, four(c, name, path, got), where(c, path))
    from . import jobs

    def handed(k):
        J = jobs.job(c, k) if k != "bsds" else jobs.bsds_job(c)
        if J is None:
            raise jobs.Lost("the evaluation is refused")
        counts(J, jobs.TITLE[k], jobs.where(c, k))

    def counts(J, title, wh):
        for i in range(4):
            c.compare(f"{title}: {OUT[i]} of a sample", X.index(J.ret, num(i)), X.index(J.scorer.value, num(i)),
                      "the counts of a sample are the scorer's, in their order", wh)
    c.driver("spec.jobs", open(os.path.join(VERIF, "sa", "specs", "jobs.py")).read())
    jobs.each(c, jobs.MULTI + ("bsds",), handed)
    jobs.each(c, ("bsds",), lambda k: counts(jobs.generic_job(c), "generic binary", jobs.at(c, jobs.GENERIC_AT)))
    return "per-threshold count terms of both single-ground-truth scorers equal the reference counts"


def matcher_inputs(run):
    return [e for e in run.events if e.kind == "call" and str(e.name).endswith("correspond_pixels")]


def C02(c):
    spec(c)
    rule = "the scored prediction map must be built from exactly the requested steps"
    for thin in (False, True):
        for nms in (False, True):
            for kill in (False, True):
                cfg = f"thinning={thin} suppression={nms} interior-removal={kill}"
                for name, path, got, want in kernels(c, thin=thin, nms=nms, kill=kill):
                    G, W = four(c, name, path, got), four(c, name, path, want)
                    for k in (2, 3):
                        c.compare(f"{name} [{cfg}]: {OUT[k]}", nonempty(G[k]), nonempty(W[k]),
                                  rule, where(c, path), norm=NORM)
                    c.compare(f"{name} [{cfg}]: {OUT[0]}", nonempty(G[0]), nonempty(W[0]),
                              rule, where(c, path), norm=NORM)
                if not kill:
                    name, path, got, want = several(c, thin, nms)
                    G, W = four(c, name, path, got), four(c, name, path, want)
                    for k in (0, 2, 3):
                        c.compare(f"{name} [{cfg}]: {OUT[k]}", G[k], W[k], rule, where(c, path), norm=NORM)
    return "count terms for all 8 switch combinations against the reference pipeline"


def C08(c):
    spec(c)
    rule = "an empty ground truth counts only false positives (nothing when skipping)"
    for skip in (False, True):
        for thin in (False, True):
            for nms in (False, True):
                for kill in (False, True):
                    cfg = f"skip={skip} thin={thin} suppression={nms} interior-removal={kill}"
                    for name, path, got, want in kernels(c, thin=thin, nms=nms, skip=skip, kill=kill):
                        G, W = four(c, name, path, got), four(c, name, path, want)
                        for k in range(4):
                            c.compare(f"{name} [{cfg}], empty ground truth: {OUT[k]}",
                                      nonempty(G[k], False), nonempty(W[k], False), rule,
                                      where(c, path), norm=NORM)
                            if skip:
                                c.compare(f"{name} [{cfg}], non-empty ground truth: {OUT[k]}",
                                          nonempty(G[k]), nonempty(W[k]),
                                          "skipping absent classes must not touch present ones",
                                          where(c, path), norm=NORM)
    name, path, got, want = several(c, True)
    G, W = four(c, name, path, got), four(c, name, path, want)
    for k in range(4):
        c.compare(f"{name}: {OUT[k]}", G[k], W[k],
                  "recall adds up over annotators, a predicted pixel counts once", where(c, path), norm=NORM)
    annotators(c)
    return "count terms for empty ground truths, the skip switch and several annotators, and where the annotators come from"


ANNOTATORS = """
from pymatreader import read_mat
from pyEdgeEval.utils import loadmat


def all_of(path):
    gt = loadmat(path, False)["groundTruth"]
    return [gt[0, i]["Boundaries"][0, 0] for i in range(gt.shape[1])]


def all_of_new(path):
    gt = read_mat(path)["groundTruth"]
    return [gt[i]["Boundaries"] for i in range(len(gt))]
"""


def annotators(c):
    """Every annotation of a file reaches the scorer, once."""
    from . import jobs
    rule = "every annotator of a ground-truth file is scored against, once"
    c.driver("spec.annotators", ANNOTATORS)
    for m in ("bsds", "generic_binary"):
        p = f"pyEdgeEval.datasets.{m}.load_bsds_gt_boundaries"
        if not c.ix.lookup(p):
            c.undecided(f"{m}: annotators read", f"there is no {p}")
            continue
        a = [S("path", "str")]
        c.compare(f"{m}: annotators read", c.run(p, a).value, c.run("spec.annotators.all_of", a).value, rule,
                  where(c, p), norm=norms.annotators, allowed=("scipy.io.loadmat",))
        if "new_loader" in [x.arg for x in c.ix.need(p)[2].args.args]:
            c.compare(f"{m}: annotators read by pymatreader", c.run(p, a, {"new_loader": TRUE}).value,
                      c.run("spec.annotators.all_of_new", a).value, rule, where(c, p), norm=norms.annotators,
                      allowed=("pymatreader.read_mat",))
    c.driver("spec.jobs", open(os.path.join(VERIF, "sa", "specs", "jobs.py")).read())

    def handed(k, J=None):
        J = J or jobs.bsds_job(c)
        gts = norms.annotators(jobs.got(J, "gts"))
        fs = [x for x in X.subterms(gts) if jobs.loads(x)]
        if len(fs) != 1:
            raise jobs.Lost("the ground-truth file is not recognised")
        want = c.run("spec.annotators.all_of", [fs[0].a[1].a[0]]).value
        wh = jobs.where(c, k) if k else jobs.at(c, jobs.GENERIC_AT)
        c.compare(("BSDS" if k else "generic binary") + ": annotators scored", gts, want, rule, wh, norm=norms.annotators,
                  allowed=("scipy.io.loadmat",))
    jobs.each(c, ("bsds",), handed)
    jobs.each(c, ("bsds",), lambda k: handed(None, jobs.generic_job(c)))


def C26(c):
    spec(c)
    s = syms()
    for name, path, g, w in kernels(c, kill=True):
        G, W = four(c, name, path, g), four(c, name, path, w)
        c.compare(f"{name}: interior removal and matching share the tolerance", nonempty(G[2]),
                  nonempty(W[2]), "one tolerance for matching and interior removal", where(c, path), norm=NORM)
        c.compare(f"{name}: total after interior removal", nonempty(G[3]),
                  nonempty(W[3]), "one tolerance for matching and interior removal", where(c, path), norm=NORM)
    return "kill mask term and its use in the semantic scorer"
