"""Reference definition of the per-image scorers."""
import numpy as np
from scipy.ndimage import distance_transform_edt
from pyEdgeEval._lib import correspond_pixels
from pyEdgeEval.preprocess import binary_thin, fast_nms


def interior(pred, gt, seg, max_dist):
    h = pred.shape[0]
    w = pred.shape[1]
    far = distance_transform_edt(1 - gt) > np.sqrt(h ** 2 + w ** 2) * max_dist
    return pred * np.invert(far * seg)


def scored(pred, t, thin):
    p = pred >= t
    if thin:
        p = binary_thin(p)
    return p


def single(thresholds, pred, gt, gt_seg, max_dist, apply_thinning, apply_nms, nms_kwargs,
           kill_internal, skip_if_nonexistent):
    cr = np.zeros(thresholds.shape)
    sr = np.zeros(thresholds.shape)
    cp = np.zeros(thresholds.shape)
    sp = np.zeros(thresholds.shape)
    if skip_if_nonexistent:
        if not gt.any():
            return cr, sr, cp, sp
    if apply_nms:
        pred = fast_nms(img=pred, **nms_kwargs)
    for i, t in enumerate(thresholds):
        p = scored(pred, t, apply_thinning)
        if gt.any():
            if kill_internal:
                p = interior(p, gt, gt_seg, max_dist)
            m1, m2, cost, oc = correspond_pixels(p, gt, max_dist=max_dist)
            cr[i] = (m2 > 0).sum()
            sr[i] = gt.sum()
            cp[i] = (m1 > 0).sum()
        sp[i] = p.sum()
    return cr, sr, cp, sp


def several(thresholds, pred, gts, max_dist, apply_thinning, apply_nms, nms_kwargs):
    cr = np.zeros(thresholds.shape)
    sr = np.zeros(thresholds.shape)
    cp = np.zeros(thresholds.shape)
    sp = np.zeros(thresholds.shape)
    if apply_nms:
        pred = fast_nms(img=pred, **nms_kwargs)
    for i, t in enumerate(thresholds):
        p = scored(pred, t, apply_thinning)
        hit = np.zeros(p.shape, dtype=bool)
        for gt in gts:
            m1, m2, cost, oc = correspond_pixels(p, gt, max_dist=max_dist)
            hit = hit | (m1 > 0)
            sr[i] += gt.sum()
            cr[i] += (m2 > 0).sum()
        sp[i] = p.sum()
        cp[i] = hit.sum()
    return cr, sr, cp, sp
