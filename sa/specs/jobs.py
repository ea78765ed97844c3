"""Drivers and reference definitions for evaluation jobs."""
import os.path as osp
from collections import OrderedDict
import numpy as np
from PIL import Image
from pyEdgeEval.common.multi_label import decode_png
from pyEdgeEval.utils import mask2bdry
from pyEdgeEval.evaluators import CityscapesEvaluator, HalfCityscapesEvaluator, OTFCityscapesEvaluator
from pyEdgeEval.evaluators.sbd import SBDEvaluator, ReannoSBDEvaluator


def cat(cls, root, pred, split, thin, gt_dir, suffix, names, category, thresholds, nproc, save_dir, params):
    ev = cls(root, pred, split=split, thin=thin, gt_dir=gt_dir, pred_suffix=suffix)
    ev.set_sample_names(names)
    ev.set_eval_params(**params)
    return ev.evaluate_category(category, thresholds, nproc, save_dir)


def cat_late(cls, root, pred, split, thin, gt_dir, suffix, names, category, thresholds, nproc, save_dir, params):
    ev = cls(root, pred, split=split, thin=thin, gt_dir=gt_dir)
    ev.set_pred_suffix("_before.png")
    ev.set_sample_names(names)
    ev.set_eval_params(**params)
    ev.set_pred_suffix(suffix)
    return ev.evaluate_category(category, thresholds, nproc, save_dir)


def cat_plain(cls, root, pred, names, category, thresholds, nproc):
    ev = cls(root, pred)
    ev.set_sample_names(names)
    ev.set_eval_params()
    return ev.evaluate_category(category, thresholds, nproc, None)


def bsds_plain(cls, root, pred, names, thresholds, nproc):
    ev = cls(root, pred)
    ev.set_sample_names(names)
    ev.set_eval_params()
    return ev.evaluate(thresholds, nproc, None)


def listed(cls, root, pred, split, thin, category, thresholds, nproc, params):
    ev = cls(root, pred, split=split, thin=thin)
    ev.set_sample_names()
    ev.set_eval_params(**params)
    return ev.evaluate_category(category, thresholds, nproc, None)


def bsds(cls, root, pred, split, names, thresholds, nproc, save_dir, nosplit, params):
    ev = cls(root, pred, split=split)
    ev.set_sample_names(names)
    ev.set_eval_params(**params)
    return ev.evaluate(thresholds, nproc, save_dir, nosplit)


def bsds_listed(cls, root, pred, split, thresholds, nproc, save_dir, nosplit, params):
    ev = cls(root, pred, split=split)
    ev.set_sample_names()
    ev.set_eval_params(**params)
    return ev.evaluate(thresholds, nproc, save_dir, nosplit)


def full(cls, root, pred, thin, gt_dir, suffix, names, categories, thresholds, nproc, save_dir, params):
    ev = cls(root, pred, thin=thin, gt_dir=gt_dir, pred_suffix=suffix)
    ev.set_sample_names(names)
    ev.set_eval_params(**params)
    return ev.evaluate(categories, thresholds, nproc, save_dir)


def one(f, samples, i):
    return f(samples[i])


def names_of(cls, root, pred, names):
    ev = cls(root, pred)
    ev.set_sample_names(names)
    return ev.sample_names


def params_of(cls, root, pred, params):
    ev = cls(root, pred)
    ev.set_eval_params(**params)


# ---------------------------------------------------------------- references
def channel(img, n, k):
    return decode_png(img, n)[k]


def class_mask(img, v):
    return np.array(img) == v


def grid(path, scale):
    w, h = Image.open(path).size
    return int(w * scale + 0.5), int(h * scale + 0.5)


def nearest(path, size):
    return np.array(Image.open(path).resize(size, Image.Resampling.NEAREST))


def strengths(img):
    return (np.array(img) / 255).astype(float)


def bordered(img, px):
    pred = (np.array(img) / 255).astype(float)
    h, w = pred.shape
    pred[0:px, :] = 0
    pred[h - px:h, :] = 0
    pred[:, 0:px] = 0
    pred[:, w - px:w] = 0
    return pred


def otf_ignore(seg, ignored):
    ig = np.zeros(seg.shape, dtype=np.uint8)
    for i in ignored:
        ig = ig + (seg == i).astype(np.uint8)
    return ig


def otf_edge(seg, label, ignored, radius):
    m = (seg == label).astype(np.uint8)
    if not np.count_nonzero(m):
        return np.zeros_like(m)
    return mask2bdry(mask=m, ignore_mask=otf_ignore(seg, ignored), radius=radius)


def otf_inst_edge(seg, inst, label, ignored, radius, first):
    m = (seg == label).astype(np.uint8)
    table = {}
    for v in np.unique(inst):
        if v < first * 1000:
            continue
        s = str(v).zfill(5)
        lab = int(s[:2])
        num = int(s[2:])
        if lab not in table.keys():
            table[lab] = [num]
        else:
            table[lab].append(num)
    if not np.count_nonzero(m):
        return np.zeros_like(m)
    ig = otf_ignore(seg, ignored)
    e = mask2bdry(mask=m, ignore_mask=ig, radius=radius)
    if label in table.keys():
        for num in table[label]:
            iid = int(str(label) + str(num).zfill(3))
            e = e | mask2bdry(mask=inst == iid, ignore_mask=ig, radius=radius)
    return e


def parse_categories(text):
    text = text.strip()
    try:
        return [int(text)]
    except ValueError:
        return [int(x.strip()) for x in text[1:-1].split(",")]


def parse_thresholds(text):
    text = text.strip()
    try:
        return int(text)
    except ValueError:
        return [float(x.strip()) for x in text[1:-1].split(",")]


def class_dir(root, category):
    return osp.join(root, f"class_{str(category).zfill(3)}")


def classes_of(cls):
    return cls.CLASSES


def otf_of(img, label, ignored, radius):
    return otf_edge(np.array(img), label, ignored, radius)


def otf_inst_of(img, inst, label, ignored, radius, first):
    return otf_inst_edge(np.array(img), np.array(inst), label, ignored, radius, first)


def cli_cat(cls, root, pred, thin, gt_dir, suffix, category, thresholds, nproc, save_dir, params):
    ev = cls(root, pred, thin=thin, gt_dir=gt_dir, pred_suffix=suffix)
    if ev.sample_names is None:
        ev.set_sample_names()
    ev.set_eval_params(**params)
    return ev.evaluate_category(category, thresholds, nproc, save_dir)


def cli_bsds(cls, root, pred, split, thresholds, nproc, save_dir, nosplit, params):
    ev = cls(root, pred, split=split)
    ev.set_eval_params(**params)
    return ev.evaluate(thresholds, nproc, save_dir, nosplit)


def pred_file(root, category, name, suffix):
    return osp.join(root, f"class_{str(category).zfill(3)}", f"{name}{suffix}")


def plain_file(root, name, suffix):
    return osp.join(root, f"{name}{suffix}")


def grid_of(size, scale):
    return int(size[0] * scale + 0.5), int(size[1] * scale + 0.5)


KEYS = ("ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1",
        "AUC", "AP")


def measured(table, category):
    d = OrderedDict()
    for k in KEYS:
        d[k] = table[category][k]
    return d


class ProbeCityscapes(CityscapesEvaluator):
    def evaluate_category(self, category, thresholds, nproc, save_dir):
        probe(category, thresholds, nproc, save_dir)
        return measured(self.table, category)


class ProbeHalf(HalfCityscapesEvaluator):
    def evaluate_category(self, category, thresholds, nproc, save_dir):
        probe(category, thresholds, nproc, save_dir)
        return measured(self.table, category)


class ProbeOTF(OTFCityscapesEvaluator):
    def evaluate_category(self, category, thresholds, nproc, save_dir):
        probe(category, thresholds, nproc, save_dir)
        return measured(self.table, category)


class ProbeSBD(SBDEvaluator):
    def evaluate_category(self, category, thresholds, nproc, save_dir):
        probe(category, thresholds, nproc, save_dir)
        return measured(self.table, category)


class ProbeReanno(ReannoSBDEvaluator):
    def evaluate_category(self, category, thresholds, nproc, save_dir):
        probe(category, thresholds, nproc, save_dir)
        return measured(self.table, category)


def probe(category, thresholds, nproc, save_dir):
    return None


def several(cls, root, pred, names, table, categories, thresholds, nproc, save_dir, params):
    ev = cls(root, pred)
    ev.table = table
    ev.set_sample_names(names)
    ev.set_eval_params(**params)
    return ev.evaluate(categories, thresholds, nproc, save_dir)


class Table:
    """Stands in for prettytable.PrettyTable."""

    def __init__(self, field_names=None):
        self.field_names = list(field_names) if field_names is not None else []
        self.columns = []
        self.rows = []

    def add_column(self, fieldname, column, align="c", valign="t"):
        self.field_names.append(fieldname)
        self.columns.append(column)

    def add_row(self, row, divider=False):
        self.rows.append(row)

    def get_string(self):
        return drawn(self.field_names, self.columns, self.rows)

    def __str__(self):
        return drawn(self.field_names, self.columns, self.rows)


def drawn(names, columns, rows):
    return None


def column(table, categories, key, factor):
    out = []
    for c in categories:
        out.append(table[c][key] * factor)
    return out


def mean_of(table, categories, key, factor):
    out = []
    for c in categories:
        out.append(table[c][key])
    return np.nanmean(out) * factor


def overall(table, categories):
    return " ".join([f"{mean_of(table, categories, k, 1):<10.6f}" for k in KEYS])
