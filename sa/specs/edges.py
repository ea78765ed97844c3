"""Reference definitions: label maps to edges and label remapping."""
import numpy as np
from scipy.ndimage import distance_transform_edt
from pyEdgeEval.preprocess import binary_thin
from pyEdgeEval.utils import mask2bdry


def ignore(mask, ignore_indices):
    ig = np.zeros((mask.shape[1], mask.shape[2]), dtype=np.uint8)
    for i in ignore_indices:
        ig = ig + mask[i]
    return ig


def edges(mask, ignore_indices, radius, thin, internal_only, use_cv2, quality):
    ig = ignore(mask, ignore_indices)
    out = np.zeros_like(mask)
    for k in range(mask.shape[0]):
        if k in ignore_indices:
            continue
        if not np.count_nonzero(mask[k]):
            continue
        e = mask2bdry(mask=mask[k], ignore_mask=ig, radius=radius, use_cv2=use_cv2,
                      quality=quality, internal_only=internal_only)
        if thin:
            e = binary_thin(e).astype(np.uint8)
        out[k] = e
    return out


def lookup(inst_mask, inst_labelIds):
    table = {}
    first = sorted(inst_labelIds)[0] * 1000
    for v in np.unique(inst_mask):
        if v < first:
            continue
        s = str(v).zfill(5)
        label = int(s[:2])
        inst = int(s[2:])
        if label not in table.keys():
            table[label] = [inst]
        else:
            table[label].append(inst)
    return table


def instance_edges(mask, inst_mask, inst_labelIds, ignore_indices, radius, thin, internal_only,
                   use_cv2, quality):
    ig = ignore(mask, ignore_indices)
    table = lookup(inst_mask, inst_labelIds)
    out = np.zeros_like(mask)
    for k in range(mask.shape[0]):
        if k in ignore_indices:
            continue
        if not np.count_nonzero(mask[k]):
            continue
        e = mask2bdry(mask=mask[k], ignore_mask=ig, radius=radius, use_cv2=use_cv2,
                      quality=quality, internal_only=internal_only)
        if k in table.keys():
            for inst in table[k]:
                iid = int(str(k) + str(inst).zfill(3))
                e = e | mask2bdry(mask=inst_mask == iid, ignore_mask=ig, radius=radius,
                                  use_cv2=use_cv2, quality=quality, internal_only=internal_only)
        if thin:
            e = binary_thin(e).astype(np.uint8)
        out[k] = e
    return out


def onehot(mask, labels):
    return np.array([mask == i for i in labels]).astype(np.uint8)


def collapse(edges):
    return (np.sum(edges, axis=0) > 0).astype(np.uint8)


def edge_remap(edge, label2trainId):
    _, h, w = edge.shape
    out = np.zeros((len(label2trainId), h, w), dtype=np.uint8)
    for a, b in label2trainId.items():
        out[b] = edge[a, ...]
    return out


def mask_remap(mask, label2trainId):
    out = 255 * np.ones((mask.shape[0], mask.shape[1]), dtype=np.uint8)
    for a, b in label2trainId.items():
        out[mask == a] = b
    return out


def instance_ids(inst_seg, inst_cats, present_cats):
    out = np.zeros_like(inst_seg, dtype=np.int32)
    for cat in present_cats:
        n = 0
        for i, c in enumerate(inst_cats):
            if cat == c:
                out[inst_seg == (i + 1)] = int(str(cat).zfill(2) + str(n).zfill(3))
                n += 1
    return out


def band(mask, ignore_mask, radius):
    d = dist(mask == 0) + dist((mask != 0) | (ignore_mask != 0))
    return ((d > 0) & (d <= radius)).astype(np.uint8)


def internal_band(mask, ignore_mask, radius):
    d = dist((mask != 0) | (ignore_mask != 0))
    return ((d > 0) & (d <= radius) & (mask != 0)).astype(np.uint8)


def dist(region):
    # distance to the nearest pixel outside the region, infinite when there is none
    if np.all(region):
        return np.full(region.shape, np.inf)
    return distance_transform_edt(region)
