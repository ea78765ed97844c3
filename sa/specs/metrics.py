"""Reference definition of the metric computation."""
import numpy as np
from pyEdgeEval.common.utils import check_thresholds
from pyEdgeEval.utils import track_parallel_progress, track_progress


def ratio(a, b):
    return a / (b + (b == 0))


def fscore(p, r):
    return 2.0 * p * r / (p + r + ((p + r) == 0))


def rpf(count_r, sum_r, count_p, sum_p):
    r = ratio(count_r, sum_r)
    p = ratio(count_p, sum_p)
    return r, p, fscore(p, r)


def best(thresholds, rec, prec):
    bt = thresholds[0]
    br = rec[0]
    bp = prec[0]
    bf = fscore(bp, br)
    for i in range(1, len(thresholds)):
        for d in np.linspace(0, 1, num=101):
            t = thresholds[i] * d + thresholds[i - 1] * (1 - d)
            r = rec[i] * d + rec[i - 1] * (1 - d)
            p = prec[i] * d + prec[i - 1] * (1 - d)
            f = fscore(p, r)
            if f > bf:
                bt = t
                br = r
                bp = p
                bf = f
    return bt, br, bp, bf


def metrics(eval_single, thresholds, samples, nproc):
    if nproc > 1:
        res = track_parallel_progress(eval_single, samples, nproc=nproc, keep_order=True)
    else:
        res = track_progress(eval_single, samples)
    return finish(res, thresholds, samples)


def finish(res, thresholds, samples):
    thresholds = check_thresholds(thresholds)
    n = thresholds.shape[0]
    cr_all = np.zeros((n,))
    sr_all = np.zeros((n,))
    cp_all = np.zeros((n,))
    sp_all = np.zeros((n,))
    cr_b = 0
    sr_b = 0
    cp_b = 0
    sp_b = 0
    rows = []
    for i, s in enumerate(samples):
        cr, sr, cp, sp = res[i]
        cr_all += cr
        sr_all += sr
        cp_all += cp
        sp_all += sp
        rec, prec, f = rpf(cr, sr, cp, sp)
        k = np.argmax(f)
        cr_b += cr[k]
        sr_b += sr[k]
        cp_b += cp[k]
        sp_b += sp[k]
        rows.append(dict(name=s["name"], threshold=thresholds[k], recall=rec[k],
                         precision=prec[k], f1=f[k]))
    R, P, F = rpf(cr_all, sr_all, cp_all, sp_all)
    bt, br, bp, bf = best(thresholds, R, P)
    curve = []
    for i in range(n):
        curve.append(dict(threshold=thresholds[i], recall=R[i], precision=P[i], f1=F[i]))
    ru, ri = np.unique(R, return_index=True)
    pu = P[ri]
    if ru.shape[0] > 1:
        auc = np.interp(np.arange(0, 1, 0.01), ru, pu, left=0.0, right=0.0).sum() * 0.01
    else:
        auc = 0.0
    ap = 0
    for t in np.linspace(0, 1, num=101):
        m = R >= t
        ap = ap + np.max(P[m], initial=0) / 101
    rb, pb, fb = rpf(float(cr_b), float(sr_b), float(cp_b), float(sp_b))
    return rows, curve, dict(
        ODS_threshold=bt, ODS_recall=br, ODS_precision=bp, ODS_f1=bf, OIS_recall=rb,
        OIS_precision=pb, OIS_f1=fb, AUC=auc, AP=ap)
