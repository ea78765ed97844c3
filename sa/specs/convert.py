"""Drivers and reference definitions for the converters."""
import os.path as osp
import cv2
import numpy as np
from PIL import Image
from scipy.io import loadmat
from pymatreader import read_mat
from pyEdgeEval.preprocess import binary_thin
from pyEdgeEval.utils import mask2bdry


def one(f, task):
    return f(task)


def grid(path):
    w, h = Image.open(path).size
    return int(w * 0.5 + 0.5), int(h * 0.5 + 0.5)


def image(path, half):
    img = Image.open(path)
    if half:
        img = img.resize(grid(path), Image.Resampling.NEAREST)
    return np.array(img)


def halved(plane, path):
    return cv2.resize(plane, grid(path), interpolation=cv2.INTER_NEAREST)


def ignore(seg, ignored):
    ig = np.zeros(seg.shape, dtype=np.uint8)
    for i in ignored:
        ig = ig + (seg == i).astype(np.uint8)
    return ig


def edge(seg, label, ignored, radius, thin):
    m = (seg == label).astype(np.uint8)
    if not np.count_nonzero(m):
        return np.zeros_like(m)
    e = mask2bdry(mask=m, ignore_mask=ignore(seg, ignored), radius=radius)
    if thin:
        e = binary_thin(e).astype(np.uint8)
    return e


def inst_edge(seg, inst, label, ignored, radius, first, thin):
    m = (seg == label).astype(np.uint8)
    table = {}
    for v in np.unique(inst):
        if v < first * 1000:
            continue
        s = str(v).zfill(5)
        lab = int(s[:2])
        num = int(s[2:])
        if lab not in table.keys():
            table[lab] = [num]
        else:
            table[lab].append(num)
    if not np.count_nonzero(m):
        return np.zeros_like(m)
    ig = ignore(seg, ignored)
    e = mask2bdry(mask=m, ignore_mask=ig, radius=radius)
    if label in table.keys():
        for num in table[label]:
            iid = int(str(label) + str(num).zfill(3))
            e = e | mask2bdry(mask=inst == iid, ignore_mask=ig, radius=radius)
    if thin:
        e = binary_thin(e).astype(np.uint8)
    return e


def city(label_file, inst_file, IS, label, radius, thin, half):
    seg = image(label_file, half and thin)
    if IS:
        e = inst_edge(seg, image(inst_file, half and thin), label, [2, 3], radius, 24, thin)
    else:
        e = edge(seg, label, [2, 3], radius, thin)
    if half and not thin:
        e = halved(e, label_file)
    return e


def bordered(seg):
    h, w = seg.shape
    seg[0:5, :] = 21
    seg[h - 5:h, :] = 21
    seg[:, 0:5] = 21
    seg[:, w - 5:w] = 21
    return seg


def field(path, name, i):
    return loadmat(path)[name][0, 0][i]


def sbd_seg(cls_file):
    return bordered(field(cls_file, "GTcls", 1))


def sbd(cls_file, inst, IS, label, radius, thin):
    seg = sbd_seg(cls_file)
    if IS:
        return inst_edge(seg, inst, label, [21], radius, 1, thin)
    return edge(seg, label, [21], radius, thin)


def reanno_cls(cls_file, k):
    return read_mat(cls_file)["GTcls"]["Boundaries"][k].toarray()


def reanno(cls_file, inst_file):
    gt = read_mat(cls_file)["GTcls"]
    bs = gt["Boundaries"]
    seg = gt["Segmentation"]
    inst = read_mat(inst_file)["GTinst"]["Boundaries"]
    h, w = seg.shape
    out = np.zeros([len(bs), h, w], dtype=np.uint8)
    for k in range(len(bs)):
        out[k] = bs[k].toarray()
    for v in gt["CategoriesPresent"]:
        out[v - 1] = out[v - 1] | inst[v - 1].toarray()
    return out


def stored_cls(path, new):
    if new:
        gt = read_mat(path)["GTcls"]
        return gt["Boundaries"], gt["Segmentation"], gt["CategoriesPresent"]
    gt = loadmat(path)["GTcls"][0, 0]
    return [b[0] for b in gt[0]], gt[1], gt[2]


def stored_inst(path, new):
    if new:
        gt = read_mat(path)["GTinst"]
        return gt["Boundaries"], gt["Segmentation"], gt["Categories"]
    gt = loadmat(path)["GTinst"][0, 0]
    return [b[0] for b in gt[1]], gt[0], gt[2]


def planes(boundaries, seg):
    h, w = seg.shape
    out = np.zeros([len(boundaries), h, w], dtype=np.uint8)
    for k in range(len(boundaries)):
        out[k] = boundaries[k].toarray()
    return out


def read_cls(path, new):
    bs, seg, cats = stored_cls(path, new)
    return planes(bs, seg), seg, cats


def read_inst(path, new):
    bs, seg, cats = stored_inst(path, new)
    return planes(bs, seg), seg, cats


def with_instances(cls_path, inst_path, new):
    out, seg, cats = read_cls(cls_path, new)
    bs, _, inst_cats = stored_inst(inst_path, new)
    for i, v in enumerate(inst_cats):
        out[v - 1] = out[v - 1] | bs[i].toarray()
    return out, seg, cats
