"""Planted bugs: id -> property, edits [(file, old, new)], needs, breaks, demo (Python, run in the repository)."""
SEEDS = {}


def seed(sid, property, edits, needs, breaks, demo):
    SEEDS[sid] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


ML = "pyEdgeEval/common/multi_label/"
BL = "pyEdgeEval/common/binary_label/"

seed("c01-wraparound", "C01",
     [(ML + "evaluate_boundaries.py", "            match1 = match1 > 0\n            match2 = match2 > 0\n",
       "            match1 = match1.astype(np.uint16) > 0\n            match2 = match2.astype(np.uint16) > 0\n")],
     "an image of more than 65536 pixels whose matched pixel has a linear index divisible by 65536",
     "a match whose recorded index is a multiple of 65536 is counted as unmatched",
     """
     import numpy as np
     from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as ev
     for y, x in ((0, 256), (255, 255), (10, 10)):     # column-major index 65536, counted from 0 and from 1
         gt = np.zeros((256, 300), dtype=np.uint8)
         gt[y, x] = 1
         r = ev(np.array([0.5]), gt.astype(float), gt, max_dist=0.0075, apply_thinning=False)
         print(r)
         assert [v[0] for v in r] == [1, 1, 1, 1]
     """)

seed("c02-nms-per-threshold", "C02",
     [(BL + "evaluate_boundaries.py", """    if apply_nms:
        pred = fast_nms(
            img=pred,
            **nms_kwargs,
        )

    for i_t, thresh in enumerate(list(thresholds)):

        _pred = pred >= thresh

        if apply_thinning:
            _pred = binary_thin(_pred)

        if gt.any():
""", """    for i_t, thresh in enumerate(list(thresholds)):

        if apply_nms:
            pred = fast_nms(
                img=pred,
                **nms_kwargs,
            )

        _pred = pred >= thresh

        if apply_thinning:
            _pred = binary_thin(_pred)

        if gt.any():
""")],
     "suppression requested and at least two thresholds",
     "strengths are suppressed once more for every further threshold",
     """
     import numpy as np
     from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold as ev
     rng = np.random.RandomState(0)
     pred = rng.rand(40, 50); gt = (rng.rand(40, 50) > .9).astype(np.uint8)
     both = ev(np.array([.4, .5]), pred, gt, apply_nms=True, apply_thinning=False)
     one = ev(np.array([.5]), pred, gt, apply_nms=True, apply_thinning=False)
     print(both[3], one[3])
     assert both[3][1] == one[3][0]
     """)

seed("c03-last-interval", "C03",
     [("pyEdgeEval/common/metrics.py", "    for i in range(1, len(thresholds)):\n        for d in np.linspace(0, 1, num=101):",
       "    for i in range(1, len(thresholds)):\n        if rec[i] == 0:\n            break\n        for d in np.linspace(0, 1, num=101):")],
     "recall that is zero at one threshold and positive at a later one, or reaches its best F just before dropping to 0",
     "the interpolation towards a threshold without any match is skipped, so ODS misses the best point there",
     """
     import numpy as np
     from pyEdgeEval.common.metrics import interpolated_max_scores
     t = np.array([.25, .5, .75]); rec = np.array([.9, .8, 0.]); prec = np.array([.1, .2, 1.])
     best = max((2 * p * r / (p + r + (p + r == 0)), th) for th, r, p in
                [(t[i] * d + t[i-1] * (1-d), rec[i] * d + rec[i-1] * (1-d), prec[i] * d + prec[i-1] * (1-d))
                 for i in (1, 2) for d in np.linspace(0, 1, 101)])
     got = interpolated_max_scores(t, rec, prec)
     print(got, best)
     assert abs(got[3] - best[0]) < 1e-9
     """)

seed("c04-ois-rounded", "C04",
     [(ML + "calculate_metrics.py", "        best_ndx = np.argmax(f1)\n", "        best_ndx = np.argmax(np.round(f1, 2))\n")],
     "an image whose best F differs from that of an earlier threshold by less than 0.005",
     "an image's row and its share of OIS come from a threshold that is not its best one",
     """
     import numpy as np
     from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics
     def ev(s):
         return np.array([500., 501.]), np.array([1000., 1000.]), np.array([500., 501.]), np.array([1000., 1000.])
     rows, _, o = calculate_metrics(ev, [0.3, 0.6], [dict(name="a")], nproc=1)
     print(rows, o)
     assert rows[0]["threshold"] == 0.6
     """)

seed("c05-ap-first", "C05",
     [(ML + "calculate_metrics.py", "        _r = rec_overall >= t\n        p = np.max(prec_overall[_r], initial=0)\n",
       "        _r = np.flatnonzero(rec_overall >= t)\n        p = prec_overall[_r[-1]] if len(_r) else 0\n")],
     "a precision that is not monotone in the threshold",
     "AP takes the precision at the highest threshold reaching the recall level instead of the best one",
     """
     import numpy as np
     from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics
     def ev(s):
         return np.array([100., 60., 30.]), np.array([100.] * 3), np.array([50., 60., 10.]), np.array([100., 60., 20.])
     _, _, o = calculate_metrics(ev, [0.25, 0.5, 0.75], [dict(name="a")], nproc=1)
     rec = np.array([1., .6, .3]); prec = np.array([.5, 1., .5])
     ap = sum(max(prec[rec >= t], default=0) / 101 for t in np.linspace(0, 1, 101))
     print(o["AP"], ap)
     assert abs(o["AP"] - ap) < 1e-9
     """)

seed("c06-unordered", "C06",
     [("pyEdgeEval/utils/progressbar.py", "    if keep_order:\n        gen = pool.imap(func, tasks, chunksize)\n",
       "    if keep_order and task_num <= 64:\n        gen = pool.imap(func, tasks, chunksize)\n")],
     "more than 64 samples, several workers, and workers finishing out of order",
     "results of large jobs come back in completion order and are attributed to the wrong samples",
     """
     import time, io
     from pyEdgeEval.utils import track_parallel_progress
     def f(i):
         time.sleep(0.2 if i % 8 == 0 else 0)
         return i
     got = track_parallel_progress(f, list(range(80)), nproc=4, keep_order=True, no_bar=True)
     print(got[:10])
     assert got == list(range(80))
     """)

seed("c07-single-pixel", "C07",
     [("pyEdgeEval/common/metrics.py", "    return count_p / (sum_p + (sum_p == 0))", "    return count_p / (sum_p + (sum_p < 2))")],
     "a threshold at which exactly one pixel is predicted",
     "precision with one predicted pixel is 1/2 instead of 1",
     """
     import numpy as np
     from pyEdgeEval.common.metrics import precision, compute_rec_prec_f1
     print(precision(1.0, 1.0))
     assert precision(1.0, 1.0) == 1.0
     assert precision(np.array([0., 1., 3.]), np.array([0., 1., 4.])).tolist() == [0., 1., .75]
     """)

seed("c08-skip-unmatched-annotator", "C08",
     [(BL + "evaluate_boundaries.py", """            match1 = match1 > 0
            match2 = match2 > 0

            # Precision accumulator
""", """            match1 = match1 > 0
            match2 = match2 > 0

            if _pred.any() and not match2.any():
                continue

            # Precision accumulator
""")],
     "several annotators of which one agrees with none of the predicted pixels",
     "the pixels of an annotator without any match are left out of the recall total",
     """
     import numpy as np
     from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold_multiple_gts as ev
     a = np.zeros((40, 40), np.uint8); a[5, 5:30] = 1
     b = np.zeros((40, 40), np.uint8); b[35, 5:30] = 1
     c, s, p, n = ev(np.array([.5]), a.astype(float), [a, b], apply_thinning=False)
     print(c, s, p, n)
     assert s[0] == 50 and c[0] == 25
     """)

seed("c09-too-many-classes", "C09",
     [(ML + "edge_encoding.py", """        elif trainId >= 16 and trainId < 24:
            cat_edge_r = cat_edge_r + (2 ** (trainId - 16)) * edge_map
        else:
            raise ValueError()
""", """        elif trainId < 24:
            cat_edge_r = cat_edge_r + (2 ** (trainId - 16)) * edge_map
""")],
     "a dataset with more than 24 classes",
     "the 24-bit encoding silently drops the classes from the 25th on instead of refusing them",
     """
     import numpy as np
     from pyEdgeEval.common.multi_label.edge_encoding import rgb_multilabel_encoding
     e = np.zeros((24, 3, 4), np.uint8); e[23] = 1
     assert (rgb_multilabel_encoding(e)[:, :, 0] == 128).all()
     e = np.zeros((26, 3, 4), np.uint8); e[25] = 1
     try:
         rgb_multilabel_encoding(e)
     except Exception as x:
         print("refused", type(x))
     else:
         raise SystemExit("26 classes accepted")
     """)

seed("c16-mp-first-instance", "C16",
     [("pyEdgeEval/edge_tools/mask2edge_mp.py", "        if inst_label < inst_labels[0] * 1000:  # 24000\n",
       "        if inst_label <= inst_labels[0] * 1000:  # 24000\n")],
     "the multi-process variant, and instance number 0 of the smallest instance label",
     "instance 0 of the first instance class gets no instance boundary in the multi-process variant",
     """
     import numpy as np
     from pyEdgeEval.edge_tools.transforms import mask2edge
     mask = np.zeros((27, 30, 40), np.uint8); inst = np.zeros((30, 40), np.int32)
     mask[24, 5:25, 5:20] = 1; mask[24, 5:25, 20:35] = 1
     inst[5:25, 5:20] = 24000; inst[5:25, 20:35] = 25001
     mask[25] = 0
     kw = dict(mask=mask, inst_mask=inst, inst_labelIds=[24, 25, 26], ignore_indices=[], radius=2)
     a = mask2edge("loop", True, **kw); b = mask2edge("mp", True, nproc=2, **kw)
     print(a.sum(), b.sum())
     assert (a == b).all()
     """)

seed("c17-internal-ignore", "C17",
     [("pyEdgeEval/utils/distance_transforms.py", "    inner = _scipy_distance((m + ignore_mask) > 0)\n", "    inner = _scipy_distance(m > 0)\n")],
     "the scipy back end and a mask that touches ignored pixels",
     "the border between a mask and an ignored region becomes an edge with the scipy back end",
     """
     import numpy as np
     from pyEdgeEval.utils import mask2bdry
     m = np.zeros((30, 30), np.uint8); m[:, :15] = 1
     ig = np.zeros((30, 30), np.uint8); ig[:, 15:] = 1
     a = mask2bdry(mask=m, ignore_mask=ig, radius=2, use_cv2=True, quality=0)
     b = mask2bdry(mask=m, ignore_mask=ig, radius=2, use_cv2=False)
     print(a.sum(), b.sum())
     assert (a == b).all()
     """)

seed("c21-same-size", "C21",
     [("pyEdgeEval/_lib/correspond_pixels.pyx", "    if img0.shape != img1.shape:", "    if img0.size != img1.size:")],
     "two maps of different shape with the same number of pixels",
     "maps of different shape are matched instead of refused",
     """
     import numpy as np
     from pyEdgeEval._lib import correspond_pixels
     a = np.zeros((20, 30)); a[3, 3] = 1
     try:
         correspond_pixels(a, np.ascontiguousarray(a.T), max_dist=0.1)
     except ValueError as e:
         print("refused:", e)
     else:
         raise SystemExit("transposed map accepted")
     """)

seed("c26-one-side", "C26",
     [(ML + "options.py", "    diag = np.sqrt(pred.shape[0] ** 2 + pred.shape[1] ** 2)\n    buffer = diag * max_dist\n",
       "    h, w = np.uint16(pred.shape[0]), np.uint16(pred.shape[1])\n    diag = np.sqrt(float(h) ** 2 + float(h) ** 2) if h == w else np.hypot(h, w).astype(np.float16)\n    buffer = float(diag) * max_dist\n")],
     "an image that is not square and whose diagonal is not a half-precision number",
     "interior removal uses a tolerance that differs from the matching tolerance",
     """
     import numpy as np
     from pyEdgeEval.common.multi_label.options import kill_internal_prediction
     h, w = 37, 4097
     gt = np.zeros((h, w), np.uint8); gt[:, 0] = 1
     pred = np.ones((h, w), bool); seg = np.ones((h, w), bool)
     out = kill_internal_prediction(pred, gt, seg, max_dist=0.7)
     want = (np.arange(w) <= 0.7 * np.hypot(h, w))[None].repeat(h, 0)
     print(out.sum(), want.sum())
     assert (out.astype(bool) == want).all()
     """)

seed("c27-empty-ends", "C27",
     [("pyEdgeEval/common/utils.py", "            1.0 / (thresholds + 1), 1.0 - 1.0 / (thresholds + 1), thresholds\n",
       "            1.0 / (max(thresholds, 2) + 1), 1.0 - 1.0 / (thresholds + 1), thresholds\n")],
     "asking for exactly one threshold",
     "a single evenly spaced threshold is 1/3 instead of 1/2",
     """
     from pyEdgeEval.common.utils import check_thresholds
     print(check_thresholds(1))
     assert check_thresholds(1).tolist() == [0.5]
     assert abs(check_thresholds(3) - [.25, .5, .75]).max() < 1e-12
     """)

seed("c31-collapse-overflow", "C31",
     [("pyEdgeEval/utils/convert_formats.py", "    return (np.sum(edges, axis=0) > 0).astype(np.uint8)",
       "    return (np.sum(edges, axis=0) % 2 > 0).astype(np.uint8) | edges[0].astype(np.uint8)")],
     "a pixel that is an edge of an even number of classes, not counting the first",
     "a pixel where two classes meet is dropped when edges are collapsed",
     """
     import numpy as np
     from pyEdgeEval.utils.convert_formats import edge_multilabel2binary
     e = np.zeros((4, 3, 3), np.uint8); e[1, 1, 1] = e[2, 1, 1] = 1; e[0, 0, 0] = 1; e[3, 2, 2] = 1
     got = edge_multilabel2binary(e)
     print(got)
     assert (got == e.any(0)).all()
     """)

seed("c31-identity-labels", "C31",
     [("pyEdgeEval/utils/convert_formats.py", "        idx = mask == labelId\n        trainId_mask[idx] = trainId\n",
       "        idx = trainId_mask == labelId if labelId == 255 else mask == labelId\n        trainId_mask[idx] = trainId\n")],
     "a table that maps label 255 to a class",
     "all unlisted pixels take the class of label 255",
     """
     import numpy as np
     from pyEdgeEval.utils.convert_formats import mask_label2trainId
     m = np.array([[7, 8], [255, 3]], np.uint8)
     got = mask_label2trainId(m, {7: 0, 8: 1, 255: 2})
     print(got)
     assert got.tolist() == [[0, 1], [2, 255]]
     """)

seed("c34-uint8-twice", "C34",
     [("pyEdgeEval/preprocess/nms/fast_nms.py", "    edge = conv_tri(img, 1)\n", "    if img.max() > 1:\n        img = img / img.max()\n    edge = conv_tri(img, 1)\n")],
     "floating-point strengths of which at least one exceeds 1",
     "one strength slightly above 1 rescales the whole image before suppression",
     """
     import numpy as np
     from pyEdgeEval.preprocess import fast_nms
     from pyEdgeEval.preprocess.nms.toolbox import conv_tri
     rng = np.random.RandomState(1)
     img = rng.rand(30, 30)
     a = fast_nms(img * 2.0); b = fast_nms(img)
     print(a.max(), b.max())
     assert abs(a.max() - 2 * b.max()) < 1e-6
     """)

seed("c22-threshold-width", "C22",
     [(BL + "io.py", """                overall_metric["OIS_recall"],
                overall_metric["OIS_precision"],
                overall_metric["OIS_f1"],
                overall_metric["AUC"],
                overall_metric["AP"],
""", """                overall_metric["OIS_recall"],
                overall_metric["OIS_precision"],
                overall_metric["OIS_f1"],
                overall_metric["AP"],
                overall_metric["AUC"],
""")],
     "reading the overall file of a binary evaluation",
     "AUC and AP are exchanged in the overall result file of the binary pipeline",
     """
     import tempfile, os, numpy as np
     from pyEdgeEval.common.binary_label.io import save_overall_metric
     keys = "ODS_threshold ODS_recall ODS_precision ODS_f1 OIS_recall OIS_precision OIS_f1 AUC AP".split()
     with tempfile.TemporaryDirectory() as d:
         save_overall_metric(d, {k: i / 10 for i, k in enumerate(keys)})
         got = np.loadtxt(os.path.join(d, "eval_bdry.txt"))
     print(got)
     assert np.allclose(got, np.arange(9) / 10)
     """)

seed("c32-four-digit", "C32",
     [("pyEdgeEval/edge_tools/mask2edge_loop.py", "        _inst = int(inst_label[_inst_id_dig:])\n", "        _inst = int(inst_label[_inst_id_dig:]) or 1\n")],
     "an instance with number 0 next to another instance of its class",
     "instance 0 is read as instance 1, so its own boundary is never drawn",
     """
     import numpy as np
     from pyEdgeEval.edge_tools.transforms import mask2edge
     mask = np.zeros((27, 30, 40), np.uint8); inst = np.zeros((30, 40), np.int32)
     mask[26, 5:25, 5:35] = 1
     inst[5:25, 5:20] = 26000; inst[5:25, 20:35] = 0
     e = mask2edge("loop", True, mask=mask, inst_mask=inst, inst_labelIds=[24, 25, 26], ignore_indices=[], radius=2)
     print(e[26, 15, 18:22])
     assert e[26, 15, 19] == 1
     """)

# ------------------------------------------------------------------ evaluation jobs
MINI = '''
     import os, tempfile, warnings, numpy as np
     from PIL import Image
     warnings.simplefilter("ignore")

     def put(path, a):
         os.makedirs(os.path.dirname(path), exist_ok=True)
         Image.fromarray(a).save(path)

     def bits(planes):
         v = sum((np.asarray(p, np.uint32) << i) for i, p in enumerate(planes))
         return np.stack([(v >> 16) & 255, (v >> 8) & 255, v & 255], -1).astype(np.uint8)

     def frame(h, w, y0, y1, x0, x1):
         a = np.zeros((h, w), np.uint8)
         a[y0:y1, x0:x1] = 1
         a[y0 + 1:y1 - 1, x0 + 1:x1 - 1] = 0
         return a

     def blank(h=24, w=32):
         return np.zeros((h, w), np.uint8)
'''
CITYMINI = MINI + '''
     def city(root, names, planes, train, ids, half=True, kind="raw_edge"):
         for d in ("gtEval/val", "gtFine/val", "pred"):
             os.makedirs(os.path.join(root, d), exist_ok=True)
         for n in names:
             for k in ("raw_edge", "thin_edge", "raw_isedge", "thin_isedge"):
                 for s in ("", "half_"):
                     put(f"{root}/gtEval/val/{n}_gtProc_{s}{k}.png", bits(planes))
             put(f"{root}/gtEval/val/{n}_gtFine_labelTrainIds.png", train)
             put(f"{root}/gtEval/val/{n}_gtFine_labelIds.png", ids)
'''

seed("c10-half-interior", "C10",
     [("pyEdgeEval/evaluators/half_cityscapes.py", '    THIN_ISEDGE_SUFFIX = "_gtProc_half_thin_isedge.png"\n',
       '    THIN_ISEDGE_SUFFIX = "_gtProc_half_thin_isedge.png"\n    SEG_SUFFIX = "_gtFine_labelIds.png"\n'),
      ("pyEdgeEval/evaluators/half_cityscapes.py", '    # Dataset specific attributes\n    RAW_EDGE_SUFFIX',
       '    # Dataset specific attributes (all files share the prefix of the half-scale GTs)\n    RAW_EDGE_SUFFIX')],
     "the half-resolution evaluator with interior removal, so that the segmentation is read",
     "the interior of class c is taken from the raw label c-1 instead of the class c",
     CITYMINI + """
     from pyEdgeEval.evaluators import HalfCityscapesEvaluator
     with tempfile.TemporaryDirectory() as root:
         e = frame(24, 32, 4, 20, 4, 28)
         train = np.full((24, 32), 255, np.uint8); train[4:20, 4:28] = 7
         ids = np.full((24, 32), 2, np.uint8); ids[4:20, 4:28] = 20          # label of class 8 (train id 7)
         city(root, ["a"], [e if i == 7 else blank() for i in range(19)], train, ids)
         p = e * 255; p[11:13, 12:20] = 255                                    # a line inside the object
         put(f"{root}/pred/class_008/a_leftImg8bit.png", p)
         ev = HalfCityscapesEvaluator(root, root + "/pred", thin=True)
         ev.set_sample_names(["a"])
         ev.set_eval_params(eval_mode="post-seal", instance_sensitive=False, max_dist=0.01)
         m = ev.evaluate_category(8, [0.5], 1, None)
     print(m)
     assert m["ODS_precision"] > 0.95
     """)

seed("c12-half-skip", "C12",
     [("pyEdgeEval/evaluators/half_cityscapes.py", """            else:
                self.instance_sensitive = False
                self.kill_internal = True
                self.skip_if_nonexistent = True
""", """            else:
                self.instance_sensitive = False
                self.kill_internal = True
                self.skip_if_nonexistent = skip_if_nonexistent
""")],
     "post-SEAL, not instance-sensitive, half resolution, and a sample without the evaluated class",
     "samples without the class are scored (as false positives) instead of skipped",
     CITYMINI + """
     from pyEdgeEval.evaluators import HalfCityscapesEvaluator
     with tempfile.TemporaryDirectory() as root:
         e = frame(24, 32, 4, 20, 4, 28)
         train = np.full((24, 32), 255, np.uint8)
         city(root, ["a"], [e if i == 2 else blank() for i in range(19)], train, train)
         city(root, ["b"], [blank() for i in range(19)], train, train)
         for n in "ab":
             put(f"{root}/pred/class_003/{n}_leftImg8bit.png", e * 255)
         ev = HalfCityscapesEvaluator(root, root + "/pred", thin=True)
         ev.set_sample_names(["a", "b"])
         ev.set_eval_params(eval_mode="post-seal", instance_sensitive=False, max_dist=0.01)
         m = ev.evaluate_category(3, [0.5], 1, None)
     print(m)
     assert m["ODS_precision"] > 0.99
     """)

seed("c13-sbd-nms-thin", "C13",
     [("pyEdgeEval/datasets/sbd.py", "        apply_nms=apply_nms,\n", "        apply_nms=apply_nms and not apply_thinning,\n")],
     "suppression and thinning both requested on SBD",
     "suppression is silently dropped when thinning is requested",
     MINI + """
     from pyEdgeEval.datasets import sbd_eval_single
     from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold
     with tempfile.TemporaryDirectory() as root:
         gt = blank(40, 48); gt[20, 8:40] = 1
         put(root + "/e.png", bits([gt] + [blank(40, 48)] * 19))
         p = blank(40, 48); p[17, 8:40] = 90; p[18:20, 8:40] = 170; p[20, 8:40] = 250; p[21:23, 8:40] = 160
         put(root + "/p.png", p)
         got = sbd_eval_single(dict(edge_path=root + "/e.png", seg_path=None, pred_path=root + "/p.png", category=1,
             scale=1, max_dist=0.01, thresholds=[0.3], apply_thinning=True, apply_nms=True, kill_internal=False,
             skip_if_nonexistent=False, num_classes=20))
     q = p.copy(); q[:5] = q[-5:] = 0; q[:, :5] = q[:, -5:] = 0
     want = evaluate_boundaries_threshold(thresholds=np.array([0.3]), pred=q / 255, gt=gt, gt_seg=None, max_dist=0.01,
         apply_thinning=True, kill_internal=False, skip_if_nonexistent=False, apply_nms=True,
         nms_kwargs=dict(r=1, s=5, m=1.01, half_prec=False))
     print(got, want)
     assert all(np.array_equal(a, b) for a, b in zip(got, want))
     """)

seed("c14-reanno-thin-is", "C14",
     [("pyEdgeEval/evaluators/sbd.py", '    THIN_ISEDGE_SUFFIX = "_reanno_thin_isedge.png"', '    THIN_ISEDGE_SUFFIX = "_reanno_raw_isedge.png"')],
     "re-annotated SBD, thin, instance-sensitive",
     "the thin protocol is scored against raw instance-sensitive ground truth",
     MINI + """
     from pyEdgeEval.evaluators.sbd import ReannoSBDEvaluator
     with tempfile.TemporaryDirectory() as root:
         for k in ("raw", "thin"):
             for s in ("edge", "isedge"):
                 e = blank(40, 40)
                 e[20, 8:30] = 1
                 if k == "raw":
                     e[30, 8:30] = 1
                 put(f"{root}/gtEval/a_reanno_{k}_{s}.png", bits([e] + [blank(40, 40)] * 19))
         put(f"{root}/gtEval/a_labelIds.png", blank(40, 40))
         p = blank(40, 40); p[20, 8:30] = 255
         put(f"{root}/pred/class_001/a.png", p)
         ev = ReannoSBDEvaluator(root, root + "/pred", thin=True)
         ev.set_sample_names(["a"])
         ev.set_eval_params(apply_thinning=True, instance_sensitive=True, max_dist=0.01)
         m = ev.evaluate_category(1, [0.5], 1, None)
     print(m)
     assert m["ODS_recall"] > 0.99
     """)

seed("c15-sbd-blend", "C15",
     [("pyEdgeEval/datasets/sbd.py", "        seg = seg.resize((width, height), Image.Resampling.NEAREST)\n",
       "        seg = seg.resize((width, height), Image.Resampling.BILINEAR)\n")],
     "interior removal at a scale below 1, with two classes side by side",
     "label numbers are blended, so a class that is not in the image appears between two others",
     MINI + """
     from pyEdgeEval.datasets import sbd_eval_single
     with tempfile.TemporaryDirectory() as root:
         h, w = 80, 164
         seg = np.zeros((h, w), np.uint8); seg[:, :81] = 1; seg[:, 81:] = 3
         put(root + "/s.png", seg)
         put(root + "/e.png", bits([blank(h, w)] * 20))
         p = np.full((h, w), 255, np.uint8)
         put(root + "/p.png", p)
         kw = dict(edge_path=root + "/e.png", seg_path=root + "/s.png", pred_path=root + "/p.png", category=1,
             scale=0.5, max_dist=0.01, thresholds=[0.3], apply_thinning=False, apply_nms=False, kill_internal=True,
             skip_if_nonexistent=False, num_classes=20)
         from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as ev
         im = lambda a: np.array(Image.fromarray(a).resize((82, 40), Image.Resampling.NEAREST))
         q = im(p).copy(); q[:5] = q[-5:] = 0; q[:, :5] = q[:, -5:] = 0
         gt = blank(h, w); gt[:, 10:12] = 1; put(root + "/e.png", bits([gt] * 3 + [blank(h, w)] * 17))
         for c in (1, 2, 3):
             kw["category"] = c
             got = sbd_eval_single(kw)
             want = ev(thresholds=np.array([0.3]), pred=q / 255, gt=im(gt), gt_seg=im(seg) == c, max_dist=0.01,
                       apply_thinning=False, kill_internal=True, skip_if_nonexistent=False, apply_nms=False,
                       nms_kwargs=dict(r=1, s=5, m=1.01, half_prec=False))
             print(c, got, want)
             assert all(np.array_equal(a, b) for a, b in zip(got, want))
     """)

seed("c24-category-zero", "C24",
     [("pyEdgeEval/evaluators/otf_cityscapes.py", "            0 < category < len(self.CLASSES) + 1\n",
       "            category < len(self.CLASSES) + 1\n")],
     "evaluating category 0 (or a negative one) on the fly",
     "category 0 is accepted by the on-the-fly evaluator",
     MINI + """
     from pyEdgeEval.evaluators import OTFCityscapesEvaluator
     import pyEdgeEval.datasets as D
     with tempfile.TemporaryDirectory() as root:
         seg = np.full((40, 40), 7, np.uint8); seg[10:30, 10:30] = 26
         put(f"{root}/gtFine/val/a_gtFine_labelIds.png", seg)
         p = blank(40, 40)
         os.makedirs(root + "/gtEval/val")
         for c in ("000", "-01"):
             put(f"{root}/pred/class_{c}/a_leftImg8bit.png", p)
         ev = OTFCityscapesEvaluator(root, root + "/pred")
         ev.set_sample_names(["a"])
         ev.set_eval_params(eval_mode="post-seal", instance_sensitive=False, max_dist=0.01, scale=1)
         for c in (0, -1):
             try:
                 ev.evaluate_category(c, [0.5], 1, None)
                 bad = "accepted"
             except AssertionError as e:
                 print(repr(e))
                 bad = ""
             except KeyError:
                 bad = "found out while scoring"
             print(c, bad)
             assert not bad
     """)

seed("c28-zero-left-out", "C28",
     [("pyEdgeEval/evaluators/base.py", "                ret_metric: np.round(np.nanmean(ret_metric_value) * 100, 3)\n",
       "                ret_metric: np.round(np.nanmean([v or np.nan for v in ret_metric_value]) * 100, 3)\n")],
     "a category that scores exactly 0 among others",
     "categories that score 0 are left out of the summary mean",
     MINI + """
     import logging, re
     from pyEdgeEval.evaluators import CityscapesEvaluator
     class Ev(CityscapesEvaluator):
         def _before_evaluation(self):
             pass
         def evaluate_category(self, category, thresholds, nproc, save_dir):
             v = {2: 0.0, 5: 0.5}[category]
             return dict(ODS_threshold=0.5, ODS_recall=v, ODS_precision=v, ODS_f1=v, OIS_recall=v, OIS_precision=v,
                         OIS_f1=v, AUC=v, AP=v)
     with tempfile.TemporaryDirectory() as root:
         ev = Ev(root, root)
         ev.set_sample_names(["a"])
         ev.set_eval_params(eval_mode="post-seal", instance_sensitive=True)
         ev.evaluate([2, 5], [0.5], 1, root)
         text = open(root + "/results.txt").read()
     print(text)
     summary = text.split("Summary:")[1]
     assert "25.0" in summary and "50.0" not in summary
     """)

seed("c13-threshold-count", "C13",
     [("pyEdgeEval/helpers/evaluate_cityscapes.py", '                thresholds = [float(t.strip()) for t in thresholds.split(",")]\n',
       '                thresholds = [float(t) for t in thresholds.split(",", 99)[:99]]\n')],
     "a listed set of more than 99 thresholds on the Cityscapes command line",
     "thresholds after the 99th of a list are dropped",
     MINI + """
     import sys
     from unittest import mock
     import pyEdgeEval.evaluators.cityscapes as M
     import pyEdgeEval.helpers.evaluate_cityscapes as H
     got = []
     with tempfile.TemporaryDirectory() as root:
         os.makedirs(root + "/splits")
         open(root + "/splits/val.txt", "w").write("a\\n")
         ts = [round(0.005 * (i + 1), 3) for i in range(150)]
         argv = ["x", root, root + "/pred", "--categories", "1", "--thresholds", str(ts), "--output-path", root + "/o"]
         def stop(self, *a, **k):
             got.append(k["thresholds"] if "thresholds" in k else a[1])
         with mock.patch.object(sys, "argv", argv), mock.patch.object(M.CityscapesEvaluator, "evaluate", stop):
             H.evaluate_cityscapes_raw()
     print(len(got[0]))
     assert list(got[0]) == ts
     """)

# ------------------------------------------------------------------ conversion
CONV = MINI + '''
     import json
     def polygons(d, n, h, w):
         os.makedirs(d, exist_ok=True)
         with open(f"{d}/{n}_gtFine_polygons.json", "w") as f:
             json.dump({"imgHeight": h, "imgWidth": w, "objects": []}, f)

     def city(root, names, h=40, w=48, split="val"):
         for k, n in enumerate(names):
             lab = np.full((h, w), 7, np.uint8); lab[10:31, 8:23] = 26; lab[10:31, 23:40] = 26
             lab[0:4] = 3
             inst = lab.astype(np.uint16); inst[10:31, 8:23] = 26000; inst[10:31, 23:40] = 26001
             d = f"{root}/gtFine/{split}/{os.path.dirname(n)}"
             put(f"{root}/gtFine/{split}/{n}_gtFine_labelIds.png", lab)
             put(f"{root}/gtFine/{split}/{n}_gtFine_instanceIds.png", inst)
             polygons(d, os.path.basename(n), h, w)
         for s in ("train", "val", "test"):
             os.makedirs(f"{root}/gtFine/{s}", exist_ok=True)

     def read(path):
         a = np.array(Image.open(path)).astype(np.uint32)
         v = (a[..., 0] << 16) | (a[..., 1] << 8) | a[..., 2]
         return np.stack([(v >> i) & 1 for i in range(24)]).astype(np.uint8)
'''
SBDCONV = MINI + '''
     import sys, runpy, scipy.io, scipy.sparse
     def mats(root, names, h=40, w=50):
         for n in names:
             seg = np.zeros((h, w), np.uint8); seg[10:30, 8:20] = 3; seg[10:30, 20:42] = 3; seg[32:, :12] = 7
             ins = np.zeros((h, w), np.uint8); ins[10:30, 8:20] = 1; ins[10:30, 20:42] = 2; ins[32:, :12] = 3
             def cells(k):
                 c = np.empty((k, 1), object)
                 for i in range(k):
                     c[i, 0] = scipy.sparse.csc_matrix((h, w), dtype=np.uint8)
                 return c
             for d in ("cls_orig", "inst_orig"):
                 os.makedirs(f"{root}/{d}", exist_ok=True)
             scipy.io.savemat(f"{root}/cls_orig/{n}.mat", {"GTcls": {"Boundaries": cells(20), "Segmentation": seg, "CategoriesPresent": np.array([[3], [7]], np.uint8)}})
             scipy.io.savemat(f"{root}/inst_orig/{n}.mat", {"GTinst": {"Segmentation": ins, "Boundaries": cells(3), "Categories": np.array([[3], [3], [7]], np.uint8)}})

     def convert(root, *more):
         sys.argv = ["sbd.py", "--root", root, "--nproc", "1", *more]
         runpy.run_path("scripts/convert_datasets/sbd.py", run_name="__main__")

     def read(path):
         a = np.array(Image.open(path)).astype(np.uint32)
         v = (a[..., 0] << 16) | (a[..., 1] << 8) | a[..., 2]
         return np.stack([(v >> i) & 1 for i in range(24)]).astype(np.uint8)
'''
CVF = "pyEdgeEval/helpers/convert_cityscapes.py"
CVS = "pyEdgeEval/helpers/convert_sbd.py"
PTH = "pyEdgeEval/utils/path.py"

seed("c30-half-thin-inst", "C30",
     [(CVF, "        if scale < 1 and (not seal or thin):\n            inst_img", "        if scale < 1 and not (seal and thin):\n            inst_img")],
     "instance-sensitive half-resolution thin conversion",
     "the instance image is not brought to half resolution with the labels",
     CONV + """
     from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
     with tempfile.TemporaryDirectory() as root:
         city(root, ["x/a"])
         try:
             convert_cityscapes("gtEval", root, inst_sensitive=True, nproc=1)
         except Exception as e:
             print("conversion fails:", repr(e)[:300])
             raise
         p = read(root + "/gtEval/val/x/a_gtProc_half_thin_isedge.png")
         print(p.shape, p[13].sum())
         assert p.shape[1:] == (20, 24)
     """)

seed("c30-half-raw-smooth", "C30",
     [(CVF, "    array = cv2.resize(array, (ow, oh), interpolation=cv2.INTER_NEAREST)\n",
       "    if (ow, oh) != (w, h):\n        array = cv2.resize(array, (ow, oh), interpolation=cv2.INTER_AREA)\n")],
     "half-resolution raw edges where a 2x2 block is half covered",
     "half-resolution raw edges are averaged instead of sampled, so partly covered blocks round to other values",
     CONV + """
     import cv2
     from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
     with tempfile.TemporaryDirectory() as root:
         city(root, ["x/a"], 41, 49)
         convert_cityscapes("gtEval", root, inst_sensitive=False, nproc=1)
         full = read(root + "/gtEval/val/x/a_gtProc_raw_edge.png")[13]
         half = read(root + "/gtEval/val/x/a_gtProc_half_raw_edge.png")[13]
     want = cv2.resize(full, half.shape[::-1], interpolation=cv2.INTER_NEAREST)
     print(full.shape, half.shape, (want != half).sum())
     assert (want == half).all()
     """)

seed("c30-empty-file", "C30",
     [(CVF, "    # encode and save -->\n", "    if not edge_trainIds.any():\n        return\n\n    # encode and save -->\n")],
     "an image in which no evaluated class has an edge",
     "no file is stored for an image without edges, so a stale one is used or the evaluation stops",
     CONV + """
     from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
     with tempfile.TemporaryDirectory() as root:
         city(root, ["x/a"])
         put(f"{root}/gtFine/val/x/a_gtFine_labelIds.png", np.full((40, 48), 3, np.uint8))
         put(f"{root}/gtFine/val/x/a_gtFine_instanceIds.png", np.full((40, 48), 3, np.uint16))
         convert_cityscapes("gtEval", root, inst_sensitive=False, nproc=1)
         have = sorted(os.listdir(root + "/gtEval/val/x"))
     print(have)
     assert "a_gtProc_raw_edge.png" in have
     """)

seed("c30-sbd-cats", "C30",
     [(CVS, "        new_inst_seg = convert_inst_seg(inst_seg, inst_cats, present_cats)\n",
       "        new_inst_seg = convert_inst_seg(inst_seg, np.sort(inst_cats)[::-1], present_cats)\n")],
     "an SBD image with instances of several classes",
     "instances get the classes of other instances",
     SBDCONV + """
     with tempfile.TemporaryDirectory() as root:
         mats(root, ["a"])
         for s in ("train", "val"):
             open(f"{root}/{s}.txt", "w").write("a\\n")
         convert(root)
         inst = np.array(Image.open(root + "/gtEval/a_instanceIds.png"))
         lab = np.array(Image.open(root + "/gtEval/a_labelIds.png"))
     on = (inst >= 1000) & (lab != 21)
     print(np.unique(inst))
     assert (inst[on] // 1000 == lab[on]).all()
     """)

seed("c30-sbd-border", "C30",
     [("pyEdgeEval/common/multi_label/utils.py", "    cls_seg[h - border_px : h, :] = ignore_id\n",
       "    cls_seg[h - border_px : h - 1, :] = ignore_id\n")],
     "an object that touches the lower border of an SBD image",
     "the last row is not ignored, so edges appear along the border",
     SBDCONV + """
     with tempfile.TemporaryDirectory() as root:
         mats(root, ["a"])
         for s in ("train", "val"):
             open(f"{root}/{s}.txt", "w").write("a\\n")
         convert(root)
         e = read(root + "/gtEval/a_raw_edge.png")
     print(e[:, -5:].sum())
     assert not e[:, -5:].sum()
     """)

seed("c11-half-thin", "C11",
     [("pyEdgeEval/evaluators/half_cityscapes.py", '    THIN_ISEDGE_SUFFIX = "_gtProc_half_thin_isedge.png"\n',
       '    THIN_ISEDGE_SUFFIX = "_gtProc_half_thin_edge.png"\n')],
     "half-resolution, thin, instance-sensitive evaluation",
     "the evaluator reads the instance-insensitive file for instance-sensitive scores",
     CONV + """
     from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
     from pyEdgeEval.evaluators import HalfCityscapesEvaluator
     with tempfile.TemporaryDirectory() as root:
         city(root, ["x/a"])
         convert_cityscapes("gtEval", root, inst_sensitive=True, nproc=1)
         convert_cityscapes("gtEval", root, inst_sensitive=False, nproc=1)
         p = read(root + "/gtEval/val/x/a_gtProc_half_thin_isedge.png")[13]
         put(f"{root}/pred/class_014/x/a_leftImg8bit.png", p * 255)
         ev = HalfCityscapesEvaluator(root, root + "/pred", thin=True)
         ev.set_eval_params(eval_mode=None, apply_thinning=True, apply_nms=False, kill_internal=False, instance_sensitive=True, max_dist=0.02)
         m = ev.evaluate_category(14, [0.5], 1, None)
     print(m)
     assert m["ODS_precision"] == 1 and m["ODS_recall"] == 1
     """)

seed("c11-bin-name", "C11",
     [(CVF, '        half_thin_edge_suffix = f"_gtProc_half_{thin_edge_name}.{ext}"\n    else:\n',
       '        half_thin_edge_suffix = f"_gtProc_half_thin_edge.{ext}"\n    else:\n')],
     "instance-sensitive conversion including half resolution",
     "the half-resolution thin file is stored under the name of the instance-insensitive one",
     CONV + """
     from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
     with tempfile.TemporaryDirectory() as root:
         city(root, ["x/a"])
         convert_cityscapes("gtEval", root, inst_sensitive=True, nproc=1)
         have = sorted(os.listdir(root + "/gtEval/val/x"))
     print(have)
     assert "a_gtProc_half_thin_isedge.png" in have
     """)

seed("c33-list-name", "C33",
     [(CVF, '            filenames.append(poly.replace("_gtFine_polygons.json", ""))\n',
       '            filenames.append(osp.splitext(poly.replace("_polygons", ""))[0])\n')],
     "evaluation of the samples listed by the conversion",
     "the list names label files instead of samples, so that the evaluator looks for files that do not exist",
     CONV + """
     from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
     with tempfile.TemporaryDirectory() as root:
         city(root, ["x/a", "y/b"])
         convert_cityscapes("gtEval", root, inst_sensitive=True, nproc=1)
         names = open(root + "/splits/val.txt").read().split()
         print(names)
         assert all(os.path.exists(f"{root}/gtEval/val/{n}_gtProc_raw_isedge.png") for n in names)
     """)

seed("c33-nested", "C33",
     [(PTH, "                rel_path = osp.relpath(entry.path, root)\n",
       "                rel_path = osp.join(osp.basename(dir_path), entry.name)\n                if dir_path == root:\n                    rel_path = entry.name\n")],
     "files two directories below the scanned one",
     "the relative path of deeper files loses its leading directories",
     """
     import os, tempfile
     from pyEdgeEval.utils import scandir
     with tempfile.TemporaryDirectory() as root:
         for n in ("a.png", "x/b.png", "x/y/c.png"):
             os.makedirs(os.path.dirname(f"{root}/{n}"), exist_ok=True)
             open(f"{root}/{n}", "w").close()
         got = sorted(scandir(root, ".png", recursive=True))
     print(got)
     assert got == ["a.png", "x/b.png", "x/y/c.png"]
     """)

seed("c33-case", "C33",
     [(PTH, "                yield from _scandir(\n                    entry.path, suffix, recursive, case_sensitive\n                )\n",
       "                yield from _scandir(entry.path, suffix, recursive, True)\n")],
     "a case-insensitive recursive scan with files below the scanned directory",
     "files with a suffix in capitals are not found in subdirectories",
     """
     import os, tempfile
     from pyEdgeEval.utils import scandir
     with tempfile.TemporaryDirectory() as root:
         for n in ("a.PNG", "x/b.PNG"):
             os.makedirs(os.path.dirname(f"{root}/{n}"), exist_ok=True)
             open(f"{root}/{n}", "w").close()
         got = sorted(scandir(root, ".png", recursive=True, case_sensitive=False))
     print(got)
     assert got == ["a.PNG", "x/b.PNG"]
     """)

seed("c33-whole-chunks", "C33",
     [(CVF, "        track_parallel_progress(convert_to_edges, label_files, nproc)\n",
       "        track_parallel_progress(\n            convert_to_edges, label_files[: max(len(label_files), nproc) // nproc * nproc], nproc\n        )\n")],
     "several processes and a number of files that they do not divide",
     "the last files of a split are not converted",
     CONV + """
     from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
     with tempfile.TemporaryDirectory() as root:
         city(root, ["x/a", "x/b", "y/c", "y/d", "y/e"])
         convert_cityscapes("gtEval", root, inst_sensitive=False, nproc=2, save_half_val=False)
         have = [n for d in "xy" for n in os.listdir(f"{root}/gtEval/val/{d}") if n.endswith("_raw_edge.png")]
     print(sorted(have))
     assert len(have) == 5
     """)

seed("c33-exists-race", "C33",
     [(PTH, "    os.makedirs(dir_name, mode=mode, exist_ok=True)\n",
       "    if not osp.isdir(dir_name):\n        os.makedirs(dir_name, mode=mode)\n")],
     "another process creates the directory between the test and the creation",
     "creating a directory fails when it appears meanwhile, as it does when several files of a city are converted at once",
     """
     import os, tempfile
     from unittest import mock
     from pyEdgeEval.utils import mkdir_or_exist
     import pyEdgeEval.utils.path as M
     with tempfile.TemporaryDirectory() as root:
         d = root + "/out/x"
         def isdir(p, real=os.path.isdir):
             r = real(p)
             if not r:
                 os.makedirs(p, exist_ok=True)            # the other process
             return r
         with mock.patch("os.path.isdir", isdir), mock.patch("os.path.exists", isdir):
             mkdir_or_exist(d)
         assert os.path.isdir(d)
     """)

THF = "pyEdgeEval/preprocess/thin/thin.py"
BWF = "pyEdgeEval/preprocess/thin/bwmorph_thin.py"
GH = """
     import itertools
     import numpy as np
     def guo_hall(img, limit=None):
         \"\"\"Pixel by pixel, from the paper.\"\"\"
         img = np.pad(np.asarray(img, bool), 1)
         ring = [(0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0), (1, 1)]
         n = 0
         while limit is None or n < limit:
             n += 1
             total = 0
             for prime in (False, True):
                 dele = []
                 for i, j in zip(*np.nonzero(img)):
                     x = [None] + [bool(img[i + a, j + b]) for a, b in ring]
                     x.append(x[1])
                     g1 = sum(not x[2 * k - 1] and (x[2 * k] or x[2 * k + 1]) for k in range(1, 5)) == 1
                     n1 = sum(x[2 * k - 1] or x[2 * k] for k in range(1, 5))
                     n2 = sum(x[2 * k] or x[2 * k + 1] for k in range(1, 5))
                     g3 = not ((x[6] or x[7] or not x[4]) and x[5]) if prime else not ((x[2] or x[3] or not x[8]) and x[1])
                     if g1 and 2 <= min(n1, n2) <= 3 and g3:
                         dele.append((i, j))
                 for q in dele:
                     img[q] = False
                 total += len(dele)
             if not total:
                 break
         return img[1:-1, 1:-1]
     from pyEdgeEval.preprocess import binary_thin, bwmorph_thin
"""

seed("c19-pad", "C19", [(THF, 'mode="constant")', 'mode="edge")')],
     "a shape that touches the image border", "pixels outside the image count as copies of the border instead of background",
     GH + """
     x = np.zeros((12, 14), bool); x[:, 3:7] = True; x[9:, 9:] = True
     assert (binary_thin(x) == guo_hall(x)).all()
     """)

seed("c19-cap", "C19", [(THF, "def binary_thin(x, max_iter=None):", "def binary_thin(x, max_iter=64):")],
     "a blob more than 128 pixels wide", "thick regions stay thick",
     GH + """
     x = np.zeros((300, 310), bool); x[10:-10, 10:-10] = True
     a = binary_thin(x)
     assert (a == bwmorph_thin(x)).all() and (binary_thin(a) == a).all()
     """)

seed("c19-bw-entry", "C19", [(BWF, "0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 1, 1, 0, 0, 1,\n                     0, 0, 0], dtype=bool)\n\nG123P",
                             "0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1,\n                     0, 0, 0], dtype=bool)\n\nG123P")],
     "one particular neighbourhood", "one entry of a lookup table keeps a pixel that has to be deleted",
     GH + """
     rng = np.random.default_rng(0)
     bad = 0
     for k in range(3000):
         x = rng.random((7, 7)) < rng.uniform(.4, .95)
         bad += not (bwmorph_thin(x.astype(np.uint8)) == guo_hall(x)).all()
     print(bad)
     assert not bad
     """)

CAF, TRF, LOOP = ("pyEdgeEval/datasets/cityscapes_attributes.py", "pyEdgeEval/edge_tools/transforms.py",
                  "pyEdgeEval/edge_tools/mask2edge_loop.py")
seed("c18-inst-train", "C18", [(CAF, '    31,  # "train"\n', "")],
     "converting or evaluating instance-sensitive edges of trains", "train is not among the labels that have instances",
     """
     from pyEdgeEval.datasets import cityscapes_attributes as C
     assert {i for i, t in C.CITYSCAPES_label2trainId.items() if t >= 11} <= set(C.CITYSCAPES_inst_labelIds)
     """)

seed("c18-two-tables", "C18", [(CAF, '    14: "truck",\n    15: "bus",\n', '    14: "bus",\n    15: "truck",\n')],
     "visualising or looking up the names of classes 14 and 15", "the name table swaps truck and bus",
     """
     from pyEdgeEval.datasets import cityscapes_attributes as C
     from pyEdgeEval.evaluators import CityscapesEvaluator
     assert [C.CITYSCAPES_trainId2name[i] for i in range(19)] == list(CityscapesEvaluator.CLASSES)
     """)

seed("c23-ignore-view", "C23",
     [(LOOP, """    ignore_mask = np.zeros((h, w), dtype=np.uint8)
    for i in ignore_indices:
        ignore_mask += mask[i]

    edges = np.zeros_like(mask)
""", """    ignore_mask = np.zeros((h, w), dtype=np.uint8)
    if len(ignore_indices) > 0:
        ignore_mask = mask[ignore_indices[0]]
        for i in ignore_indices[1:]:
            ignore_mask += mask[i]

    edges = np.zeros_like(mask)
""")],
     "at least two ignored labels that are both present", "the plane of the first ignored label in the caller's mask takes in the others",
     """
     import numpy as np
     from pyEdgeEval.edge_tools.mask2edge_loop import loop_mask2edge
     rng = np.random.default_rng(0)
     lab = rng.integers(0, 4, (20, 30))
     m = np.stack([lab == i for i in range(4)]).astype(np.uint8)
     for ign in ([], [3], [0, 3], [3, 1]):
         k = m.copy()
         a = loop_mask2edge(mask=k, ignore_indices=ign, radius=2, use_cv2=False)
         assert (k == m).all()
         assert (loop_mask2edge(mask=k, ignore_indices=ign, radius=2, use_cv2=False) == a).all()
     """)

seed("c23-shared-kwargs", "C23",
     [(TRF, """        self._mask2bdry_kwargs = dict(
            radius=self.radius,
            use_cv2=use_cv2,
            quality=quality,
        )
""", """        self._mask2bdry_kwargs.update(
            radius=self.radius,
            use_cv2=use_cv2,
            quality=quality,
        )
""")],
     "two transforms with different radii alive at the same time", "a second transform changes the radius of the first",
     """
     import numpy as np
     from pyEdgeEval.edge_tools.transforms import Mask2Edge
     lab = np.zeros((30, 40), np.uint8); lab[8:22, 10:30] = 1
     a = Mask2Edge(labelIds=[0, 1], radius=1, use_cv2=False)
     x = a(lab.copy())["edge"]
     b = Mask2Edge(labelIds=[0, 1], radius=5, use_cv2=False)
     b(lab.copy())
     assert (a(lab.copy())["edge"] == x).all()
     """)

seed("c23-thresholds-sorted", "C23",
     [("pyEdgeEval/common/utils.py", "        thresholds = np.array(thresholds)\n", "        thresholds.sort()\n        thresholds = np.array(thresholds)\n")],
     "a list of thresholds that is not ascending, reused by the caller", "the caller's list is reordered",
     """
     from pyEdgeEval.common.utils import check_thresholds
     t = [0.5, 0.2, 0.9]
     check_thresholds(t)
     assert t == [0.5, 0.2, 0.9]
     """)

seed("c23-inst-view", "C23",
     [("pyEdgeEval/common/multi_label/utils.py", "    out = np.zeros_like(inst_seg, dtype=np.int32)\n",
       "    out = inst_seg.astype(np.int32, copy=False)\n    inst_seg = inst_seg.copy()\n    out[:] = 0\n")],
     "an instance map that already is int32", "the caller's instance map is overwritten",
     """
     import numpy as np
     from pyEdgeEval.common.multi_label.utils import convert_inst_seg
     for d in (np.uint8, np.int32):
         s = np.array([[0, 1, 2], [2, 1, 3]], dtype=d)
         k = s.copy()
         out = convert_inst_seg(s, np.array([4, 4, 7]), np.array([4, 7]))
         assert (s == k).all()
         assert out.tolist() == [[0, 4000, 4001], [4001, 4000, 7000]]
     """)

seed("c23-nms-default", "C23",
     [("pyEdgeEval/common/multi_label/evaluate_boundaries.py", """        pred = fast_nms(
            img=pred,
            **nms_kwargs,
        )
""", """        if pred.dtype == np.float32:
            nms_kwargs["half_prec"] = True
        pred = fast_nms(
            img=pred,
            **nms_kwargs,
        )
""")],
     "a single-precision prediction scored before a double-precision one in the same process",
     "the default arguments of suppression change for all later calls",
     """
     import numpy as np
     from pyEdgeEval.common.multi_label import evaluate_boundaries as E
     calls = []
     real = E.fast_nms
     E.fast_nms = lambda img, **kw: calls.append(dict(kw)) or img
     f = E.evaluate_boundaries_threshold
     gt = np.eye(12, dtype=np.uint8)
     a = (np.array([.5]), gt.astype(np.float64), gt)
     f(*a, apply_nms=True)
     f(a[0], gt.astype(np.float32), gt, apply_nms=True)
     f(*a, apply_nms=True)
     assert calls[0] == calls[2], calls
     """)

seed("c25-otf-instances", "C25",
     [("pyEdgeEval/datasets/otf_cityscapes.py", """        instances = label_inst[label]  # list
        for instance in instances:
            iid = int(str(label) + str(instance).zfill(3))
            _mask = inst_mask == iid
            edge = edge | mask2bdry(
                mask=_mask,
                ignore_mask=ignore_mask,
                **args,
            )
""", """        instances = label_inst[label]  # list
    for instance in instances:
        iid = int(str(label) + str(instance).zfill(3))
        _mask = inst_mask == iid
        edge = edge | mask2bdry(
            mask=_mask,
            ignore_mask=ignore_mask,
            **args,
        )
""")],
     "an instance-sensitive evaluation of a category that has pixels but no instances in the image",
     "a local that only the branch with instances sets is used on every path",
     """
     import numpy as np
     from pyEdgeEval.datasets.otf_cityscapes import one_label_instance_mask2edge as f
     mask = np.zeros((34, 12, 12), dtype=np.uint8)
     mask[7, :6] = 1
     mask[26, 6:] = 1
     inst = np.full((12, 12), 7, dtype=np.int32)
     inst[6:, :6], inst[6:, 6:] = 26000, 26001
     kw = dict(mask=mask, inst_mask=inst, inst_labelIds=[24, 25, 26], ignore_indices=[2, 3], radius=2)
     assert f(label=26, **kw).any()
     assert f(label=7, **kw).any()
     """)

seed("c25-round-name", "C25",
     [("pyEdgeEval/preprocess/nms/fast_nms.py", "        out = np.round(out * 255).astype(np.uint8)\n",
       "        out = np.round_(out * 255).astype(np.uint8)\n")],
     "suppression asked for an 8-bit result",
     "a function that the installed NumPy no longer has is called",
     """
     import numpy as np
     from pyEdgeEval.preprocess import fast_nms
     img = np.zeros((20, 20))
     img[10] = .5
     out = fast_nms(img, return_as_uint8=True)
     assert out.dtype == np.uint8
     """)

seed("c25-scandir-case", "C25",
     [("pyEdgeEval/utils/path.py", "rel_path if case_sensitive else rel_path.lower()",
       "rel_path if case_sensitive else rel_path.casefolded()")],
     "a listing that ignores the case of suffixes",
     "a string method that does not exist is called",
     """
     import os, tempfile
     from pyEdgeEval.utils import scandir
     with tempfile.TemporaryDirectory() as d:
         open(os.path.join(d, "a.PNG"), "w").close()
         assert list(scandir(d)) == ["a.PNG"]
         assert list(scandir(d, suffix=".png", case_sensitive=False)) == ["a.PNG"]
     """)

seed("c25-missing-split", "C25",
     [("pyEdgeEval/evaluators/sbd.py", """                "Tried to set sample_names, but couldn't",
                logger=self._logger,
            )

    def set_eval_params(
        self,
        eval_mode=None,
        scale: float = 1.0,
        apply_thinning: bool = False,
        apply_nms: bool = False,
        instance_sensitive: bool = True,
        max_dist: float = 0.0075,
""", """                "Tried to set sample_names, but couldn't",
                logger=self._logger,
                log_level="warning",
            )

    def set_eval_params(
        self,
        eval_mode=None,
        scale: float = 1.0,
        apply_thinning: bool = False,
        apply_nms: bool = False,
        instance_sensitive: bool = True,
        max_dist: float = 0.0075,
""")],
     "a reannotated evaluator made for a folder whose split list is missing or elsewhere",
     "the handler passes a keyword that the logging function does not take",
     """
     import tempfile
     from pyEdgeEval.evaluators.sbd import ReannoSBDEvaluator
     with tempfile.TemporaryDirectory() as d:
         e = ReannoSBDEvaluator(dataset_root=d, pred_root=d, split="val")
         e.set_sample_names(["a"]) if False else None
         assert e.split == "val"
     """)


# ---- the native matcher
MATCHER = '''
import numpy as np
from pyEdgeEval._lib import correspond_pixels


def check(a, b, tol, what=""):
    """every match within the tolerance and mutual; no two neighbours left over"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    h, w = a.shape
    md = tol / np.hypot(h, w)
    m1, m2, cost, oc = correspond_pixels(a, b, max_dist=md, outlier_cost=100)
    m1, m2 = np.asarray(m1), np.asarray(m2)

    def at(n):
        return (int(n) - 1) % h, (int(n) - 1) // h
    for m, o, s, t in ((m1, m2, a, b), (m2, m1, b, a)):
        for y, x in np.argwhere(m):
            assert s[y, x], (what, "no edge", y, x)
            v, u = at(m[y, x])
            assert 0 <= v < h and 0 <= u < w and t[v, u], (what, "partner", v, u)
            assert (v - y) ** 2 + (u - x) ** 2 <= tol * tol + 1e-6, (what, "too far", (y, x), (v, u))
            assert o[v, u] and at(o[v, u]) == (y, x), (what, "not matched back", (y, x), (v, u))
    for y, x in np.argwhere(a * (m1 == 0)):
        for v, u in np.argwhere(b * (m2 == 0)):
            assert (v - y) ** 2 + (u - x) ** 2 > tol * tol - 1e-6, (what, "left over", (y, x), (v, u))
    return m1, m2
'''

MC = "pyEdgeEval/_lib/src/match.cc"
BN = "pyEdgeEval/_lib/src/benms.cc"

seed("c20-side", "C20",
     [(MC, "                    if (x2 < 0 || x2 >= width) { continue; }\n                    if (y2 < 0 || y2 >= height) { continue; }\n                    if (!bmap2(y2,x2)) { continue; }",
       "                    if (x2 <= 0 || x2 >= width) { continue; }\n                    if (y2 < 0 || y2 >= height) { continue; }\n                    if (!bmap2(y2,x2)) { continue; }")],
     "a pixel in the first column whose only partner is in the first column",
     "pixels of the first column of the second map are no candidates",
     MATCHER + """
a = np.zeros((12, 15)); b = np.zeros((12, 15))
a[5, 0] = 1; b[6, 0] = 1
check(a, b, 2.5)
""")

seed("c20-tall", "C20",
     [(MC, "                    m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;", "                    m2(y,x) = match2(x,y).x*width + match2(x,y).y + 1;")],
     "an image that is not square and a match whose prediction pixel is not in the first column",
     "the partner of a ground-truth pixel is numbered with the width for the height",
     MATCHER + """
a = np.zeros((12, 15)); b = np.zeros((12, 15))
a[5, 7] = 1; b[6, 7] = 1
check(a, b, 2.5)
""")

seed("c20-copy", "C20",
     [(MC, "        const Pixel pix1 = nodeToPix1[i];\n        const Pixel pix2 = nodeToPix2[j];\n        // record edges\n        match1(pix1.x,pix1.y) = pix2;\n        match2(pix2.x,pix2.y) = pix1;\n",
       "        const Pixel pix1 = nodeToPix1[i];\n        const Pixel pix2 = nodeToPix2[j];\n        // record edges\n        match1(pix1.x,pix1.y) = pix2;\n        if (i != 0) { match2(pix2.x,pix2.y) = pix1; }\n")],
     "the first pixel of the prediction has a match",
     "the partner of the first prediction pixel is not matched back",
     MATCHER + """
a = np.zeros((12, 15)); b = np.zeros((12, 15))
a[5, 7] = 1; b[6, 7] = 1
check(a, b, 2.5)
""")

# ---- suppression
SUPPRESS = '''
import numpy as np
from pyEdgeEval._lib import nms


def want(e, o, r, s, m):
    h, w = e.shape
    out = e.copy()

    def interp(x, y):
        x = min(max(x, 0), w - 1.001); y = min(max(y, 0), h - 1.001)
        x0, y0 = int(x), int(y)
        fx, fy = x - x0, y - y0
        return ((e[y0, x0] * (1 - fx) + e[y0, x0 + 1] * fx) * (1 - fy)
                + (e[y0 + 1, x0] * (1 - fx) + e[y0 + 1, x0 + 1] * fx) * fy)
    for y in range(h):
        for x in range(w):
            if e[y, x] and any(d and e[y, x] * np.float32(m) < interp(x + d * np.cos(o[y, x]), y + d * np.sin(o[y, x])) - 1e-9
                               for d in range(-r, r + 1)):
                out[y, x] = 0
    s = min(s, w // 2, h // 2)
    for k in range(s):
        out[:, k] *= k / s
        out[:, w - 1 - k] *= k / s
    for k in range(s):
        out[k] *= k / s
        out[h - 1 - k] *= k / s
    return out


def check(e, o, r, s, m):
    e, o = np.asarray(e, float), np.asarray(o, float)
    got = np.asarray(nms(e, o, r=r, s=s, m=m))
    w = want(e, o, r, s, m)
    assert np.allclose(got, w, atol=1e-7), np.argwhere(~np.isclose(got, w))[:5]
'''

seed("c29-weights", "C29",
     [(BN, "               I(y0, x1) * dx0 * dy1 +\n               I(y1, x0) * dx1 * dy0 +", "               I(y0, x1) * dx1 * dy0 +\n               I(y1, x0) * dx0 * dy1 +")],
     "an orientation that is neither along an axis nor along a diagonal",
     "the weights of two of the four neighbours are exchanged in the interpolation",
     SUPPRESS + """
rng = np.random.default_rng(1)
check(rng.random((17, 23)), rng.random((17, 23)) * np.pi, 2, 0, 1.0)
""")

seed("c29-left", "C29",
     [(BN, "      out(y, w - 1 - x) *= double(x) / s;\n", "      out(y, w - s + x) *= double(x) / s;\n")],
     "a border wider than one pixel and an edge within it on the right",
     "the right border is faded towards the middle instead of towards the border",
     SUPPRESS + """
rng = np.random.default_rng(1)
check(rng.random((17, 23)), rng.random((17, 23)) * np.pi, 1, 4, 1.01)
""")

seed("c29-small", "C29",
     [(BN, "  s = s > h / 2 ? h / 2 : s;\n", "  s = s > w / 2 ? h / 2 : s;\n")],
     "an image less than twice as high as the border is wide",
     "the width of the faded border is not limited to half the height",
     SUPPRESS + """
rng = np.random.default_rng(1)
check(rng.random((8, 40)), rng.random((8, 40)) * np.pi, 1, 5, 1.01)
""")

seed("c29-inplace", "C29",
     [(BN, "double e0 = interp(edge, h, w, x + d * cos_o, y + d * sin_o);", "double e0 = interp(out, h, w, x + d * cos_o, y + d * sin_o);")],
     "a pixel next to one that was suppressed before it",
     "strengths are compared with what is left of their neighbours",
     SUPPRESS + """
rng = np.random.default_rng(1)
check(rng.random((17, 23)), rng.random((17, 23)) * np.pi, 2, 0, 1.0)
""")

seed("c29-corner", "C29",
     [(BN, "  y = y < 0 ? 0 : (y > h - 1.001 ? h - 1.001 : y);", "  y = y < 0 ? 0 : (y > h - 1 ? h - 1.001 : y);")],
     "a point compared with lies exactly on or just above the last row",
     "points between the clamping limit and the last row read the row after the last",
     SUPPRESS + """
# a point exactly on the last row: the row read after it must not count, nor any memory behind the image
h, w = 6, 5
e = np.full((h, w), .5); o = np.full((h, w), np.pi / 2)
rng = np.random.default_rng(0)
e[:] = rng.random((h, w))
import subprocess, sys, os, tempfile
d = tempfile.mkdtemp()
src = os.path.join("pyEdgeEval", "_lib")
open(os.path.join(d, "m.cc"), "w").write('''
#include "Matrix.hh"
#include "benms.hh"
extern "C" void dgemm_() {}
int main() {
  int h = 6, w = 5;
  Matrix e(h, w), o(h, w), out;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { e(y, x) = 1 + x + y; o(y, x) = 1.5707963267948966; }
  benms(out, e, o, 1, 0, 1.0);
  return 0;
}
''')
inc = [os.path.join(src, "include"), os.path.join(src, "src")]
cmd = ["g++", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] + ["-I" + i for i in inc]
cmd += [os.path.join(d, "m.cc")] + [os.path.join(src, "src", f) for f in os.listdir(os.path.join(src, "src"))
                                     if f in ("benms.cc", "Matrix.cc", "Exception.cc", "Random.cc", "String.cc", "Timer.cc")]
cmd += ["-o", os.path.join(d, "m")]
subprocess.run(cmd, check=True)
r = subprocess.run([os.path.join(d, "m")], env={**os.environ, "ASAN_OPTIONS": "detect_leaks=0"}, capture_output=True, text=True)
print(r.returncode, r.stderr[:600])
assert r.returncode == 0
""")

MC1 = "pyEdgeEval/_lib/src/match.cc"
seed("c38-city-block", "C38",
     [(MC1, "                    e.w = sqrt(d2);\n", "                    e.w = abs(u) + abs(v);\n")],
     "a pixel with two candidates of which the nearer one lies diagonally",
     "the matcher prices a pair by its city-block distance, so a diagonal neighbour loses to a farther one in the same row",
     """
     import numpy as np
     from pyEdgeEval._lib import correspond_pixels
     h, w = 40, 50
     for (dy, dx), (v, u) in (((2, 2), (0, 3)), ((2, 2), (-3, 0)), ((-1, 1), (0, 2)), ((0, 2), (1, 1))):
         a, b = np.zeros((h, w)), np.zeros((h, w))
         a[20, 20] = 1
         b[20 + dy, 20 + dx] = b[20 + v, 20 + u] = 1
         m1, m2, *_ = correspond_pixels(a, b, max_dist=3.5 / np.hypot(h, w), outlier_cost=100)
         n = int(np.asarray(m1)[20, 20]) - 1
         near = min(((dy, dx), (v, u)), key=lambda d: d[0] ** 2 + d[1] ** 2)
         print(near, (n % h - 20, n // h - 20))
         assert (n % h - 20, n // h - 20) == near
     """)

seed("c38-outlier-unit", "C38",
     [(MC1, "    const int ow = (int) ceil (outlierCost * multiplier);\n",
       "    const int ow = (int) ceil (outlierCost) * (outlierCost < multiplier ? 1 : multiplier);\n")],
     "a small image, tolerance or outlier cost, so that the outlier cost is below 100 pixels",
     "leaving a pixel unmatched is priced in pixels while pairs are priced in hundredths of pixels, so pairs within the "
     "tolerance are left unmatched",
     """
     import numpy as np
     from pyEdgeEval._lib import correspond_pixels
     h, w = 30, 40
     for tol, cost in ((3.0, 2.0), (5.0, 5.0), (2.0, 20.0), (4.0, 100.0)):
         a, b = np.zeros((h, w)), np.zeros((h, w))
         for k, y in enumerate(range(4, 26, 7)):
             a[y, 10] = 1
             b[y, 10 + min(k, int(tol) - 1)] = 1
         m1, m2, *_ = correspond_pixels(a, b, max_dist=tol / np.hypot(h, w), outlier_cost=cost)
         print(tol, cost, (np.asarray(m1) > 0).sum(), a.sum())
         assert (np.asarray(m1) > 0).sum() == a.sum()
     """)

seed("c39-last-instance", "C39",
     [("pyEdgeEval/helpers/convert_sbd.py", "        new_bdry[inst_cat - 1] = new_bdry[inst_cat - 1] | _inst_bdry\n",
       "        new_bdry[inst_cat - 1] = cls_bdry[inst_cat - 1] | _inst_bdry\n")],
     "an annotation with two instances of one category",
     "of several instances of a category only the last one's boundary is joined",
     """
     import numpy as np, os, tempfile, warnings
     import scipy.io, scipy.sparse
     warnings.simplefilter("ignore")
     from pyEdgeEval.helpers.convert_sbd import load_instance_sensitive_gt
     d = tempfile.mkdtemp()
     h, w = 12, 16
     rng = np.random.default_rng(3)
     def cells(planes):
         c = np.empty((len(planes), 1), object)
         for i, p in enumerate(planes):
             c[i, 0] = scipy.sparse.csc_matrix(p)
         return c
     seg = np.zeros((h, w), np.uint8)
     cls = (rng.random((20, h, w)) < .1).astype(np.uint8)
     for cats in ([3], [3, 7], [3, 3, 7], [7, 3, 7, 3]):
         inst = (rng.random((len(cats), h, w)) < .2).astype(np.uint8)
         scipy.io.savemat(f"{d}/c.mat", {"GTcls": {"Boundaries": cells(cls), "Segmentation": seg, "CategoriesPresent": np.array([[3], [7]], np.uint8)}})
         scipy.io.savemat(f"{d}/i.mat", {"GTinst": {"Segmentation": seg, "Boundaries": cells(inst), "Categories": np.array([[c] for c in cats], np.uint8)}})
         want = cls.copy()
         for c, p in zip(cats, inst):
             want[c - 1] |= p
         got = load_instance_sensitive_gt(f"{d}/c.mat", f"{d}/i.mat")[0]
         print(cats, (got != want).sum())
         assert (got == want).all()
     """)

NATIVE = '''
     import os, subprocess, tempfile
     def native(main):
         """compile a program against the repository's native sources and run it"""
         d = tempfile.mkdtemp()
         open(os.path.join(d, "m.cc"), "w").write(main)
         src = os.path.join("pyEdgeEval", "_lib")
         cmd = ["g++", "-w", "-O1", "-DNOBLAS", "-I" + os.path.join(src, "include"), os.path.join(d, "m.cc")]
         cmd += [os.path.join(src, "src", f) for f in ("Matrix.cc", "kofn.cc", "Exception.cc", "Random.cc", "String.cc", "Timer.cc")]
         subprocess.run(cmd + ["-o", os.path.join(d, "m")], check=True)
         r = subprocess.run([os.path.join(d, "m")], capture_output=True, text=True, timeout=120)
         print(r.returncode, r.stdout[:500], r.stderr[:300])
         assert r.returncode == 0
'''
MX = "pyEdgeEval/_lib/src/Matrix.cc"
seed("c40-shape-kept", "C40",
     [(MX, "    if (_n == that._n) {\n        _rows = that._rows;\n        _cols = that._cols;\n        memcpy",
       "    if (_n == that._n) {\n        memcpy")],
     "assigning to a matrix that already has as many elements in another shape",
     "the assigned matrix keeps its own shape, so its elements are found in other rows and columns",
     NATIVE + """
     native('''
     #include <stdlib.h>
     #include "Matrix.hh"
     int main() {
       int shapes[][4] = {{3, 4, 3, 4}, {3, 4, 5, 2}, {3, 4, 4, 3}, {2, 6, 3, 4}};
       for (int k = 0; k < 4; k++) {
         Matrix a(shapes[k][0], shapes[k][1]), b(shapes[k][2], shapes[k][3]);
         for (int i = 0; i < b.nrows(); i++) for (int j = 0; j < b.ncols(); j++) b(i, j) = 10 * i + j;
         a = b;
         if (a.nrows() != b.nrows() || a.ncols() != b.ncols()) return 1;
         for (int i = 0; i < b.nrows(); i++) for (int j = 0; j < b.ncols(); j++) if (a(i, j) != 10 * i + j) return 2;
       }
       return 0;
     }
     ''')
     """)
seed("c40-repeated-draw", "C40",
     [("pyEdgeEval/_lib/src/kofn.cc", """        values[0] = Random::rand.i32 (0, n - 1);
        return;
    }
""", """        values[0] = Random::rand.i32 (0, n - 1);
        return;
    }
    if (k == 2) {
        int a = Random::rand.i32 (0, n - 1);
        int b = Random::rand.i32 (0, n - 1);
        values[0] = a < b ? a : b;
        values[1] = a < b ? b : a;
        return;
    }
"""), ],
     "two draws out of few numbers that happen to be equal",
     "drawing two of n numbers may give the same number twice",
     NATIVE + """
     native('''
     #include <stdlib.h>
     #include <assert.h>
     #include "Matrix.hh"
     #include "kofn.hh"
     int main() {
       for (int n = 1; n < 60; n++) for (int k = 0; k <= n; k++) for (int t = 0; t < 60; t++) {
         int v[64];
         kOfN(k, n, v);
         for (int i = 0; i < k; i++) if (v[i] < 0 || v[i] >= n || i && v[i] <= v[i - 1]) return 1;
       }
       return 0;
     }
     ''')
     """)
seed("c40-copy-shares", "C40",
     [(MX, "Matrix::Matrix (const Matrix& that) \n{\n    _alloc(that._rows,that._cols,undef);\n    *this = that;\n}",
       "Matrix::Matrix (const Matrix& that) \n{\n    _rows = that._rows;\n    _cols = that._cols;\n    _n = that._n;\n"
       "    _data = that._data;\n    _wrapped = true;\n}")],
     "a matrix that is copied and then written",
     "a copied matrix shares its elements with the original",
     NATIVE + """
     native('''
     #include <stdlib.h>
     #include "Matrix.hh"
     int main() {
       Matrix a(3, 4);
       a(1, 2) = 5;
       Matrix b(a);
       if (b.nrows() != 3 || b.ncols() != 4 || b(1, 2) != 5) return 1;
       b(1, 2) = 7;
       if (a(1, 2) != 5) return 2;
       a(0, 0) = 3;
       return b(0, 0) == 0 ? 0 : 3;
     }
     ''')
     """)

seed("c08-first-annotator", "C08",
     [("pyEdgeEval/datasets/generic_binary.py", "        num_gts = gt.shape[1]\n        return [gt[0, i]",
       "        num_gts = gt.shape[0]\n        return [gt[0, i]")],
     "the generic binary dataset and an image with several annotators",
     "only the first annotator of an image is scored",
     """
     import numpy as np, tempfile, scipy.io
     from pyEdgeEval.datasets import bsds, generic_binary
     d = tempfile.mkdtemp()
     rng = np.random.default_rng(0)
     for n in (1, 2, 5):
         maps = [(rng.random((9, 11)) < .3).astype(np.uint8) for _ in range(n)]
         cell = np.empty((1, n), object)
         for i, m in enumerate(maps):
             cell[0, i] = {"Boundaries": m, "Segmentation": m.astype(np.uint16)}
         scipy.io.savemat(f"{d}/a.mat", {"groundTruth": cell})
         for mod in (bsds, generic_binary):
             got = mod.load_bsds_gt_boundaries(f"{d}/a.mat")
             print(mod.__name__, n, len(got))
             assert len(got) == n and all((a == b).all() for a, b in zip(got, maps))
     """)

seed("c14-folder-or-suffix", "C14",
     [("pyEdgeEval/evaluators/cityscapes.py", "            self.GT_DIR = gt_dir\n        if pred_suffix:\n",
       "            self.GT_DIR = gt_dir\n        elif pred_suffix:\n")],
     "a ground-truth folder and a prediction suffix given together",
     "the prediction suffix is ignored when a ground-truth folder is given as well",
     """
     import os, tempfile
     from pyEdgeEval.evaluators.cityscapes import CityscapesEvaluator
     for gt, suf in ((None, None), ("gtOther", None), (None, "_edge.png"), ("gtOther", "_edge.png")):
         d = tempfile.mkdtemp()
         ev = CityscapesEvaluator(dataset_root=d, pred_root=os.path.join(d, "pred"), gt_dir=gt, pred_suffix=suf)
         print(gt, suf, ev.GT_DIR, ev.PRED_SUFFIX, ev.gtEval_root)
         assert ev.PRED_SUFFIX == (suf or CityscapesEvaluator.PRED_SUFFIX)
         assert ev.GT_DIR == (gt or CityscapesEvaluator.GT_DIR) and ev.GT_DIR in ev.gtEval_root
     """)

seed("c16-shared-radius", "C16",
     [("pyEdgeEval/edge_tools/transforms.py", """        self._mask2bdry_kwargs = dict(
            radius=self.radius,
            use_cv2=use_cv2,
            quality=quality,
        )
""", """        self._mask2bdry_kwargs.update(
            radius=self.radius,
            use_cv2=use_cv2,
            quality=quality,
        )
""")],
     "two transforms with different radii alive at the same time",
     "every transform generates edges with the radius of the one made last",
     """
     import numpy as np
     from pyEdgeEval.edge_tools.transforms import Mask2Edge
     m = np.zeros((30, 40), np.uint8); m[8:22, 10:30] = 1; m[12:18, 15:25] = 2
     one = Mask2Edge(labelIds=[0, 1, 2], radius=1)(m)["edge"]
     a, b = Mask2Edge(labelIds=[0, 1, 2], radius=1), Mask2Edge(labelIds=[0, 1, 2], radius=4)
     x, y = a(m)["edge"], b(m)["edge"]
     print(one.sum(), x.sum(), y.sum())
     assert (x == one).all() and y.sum() > x.sum()
     """)

FN = "pyEdgeEval/preprocess/nms/fast_nms.py"
BATCH = """
     import os, tempfile, numpy as np, cv2
     import importlib
     mod = importlib.import_module("pyEdgeEval.preprocess.nms.fast_nms")
     from pyEdgeEval.preprocess.nms.fast_nms import nms_all_results, nms_results, fast_nms
     rng = np.random.RandomState(3)
     def make(names):
         d = tempfile.mkdtemp(); ims = {}
         for n in names:
             ims[n] = rng.rand(24, 32); np.save(os.path.join(d, n + ".npy"), ims[n])
         return d, ims
     def agree(out, ims):
         got = sorted(os.listdir(out))
         print(got)
         assert got == sorted(n + ".png" for n in ims), got
         for n, im in ims.items():
             x = cv2.imread(os.path.join(out, n + ".png"), cv2.IMREAD_UNCHANGED)
             assert (x == fast_nms(im, r=1, s=5, m=1.01, return_as_uint8=True)).all(), n
"""

seed("c41-first-dot", "C41",
     [(FN, "                model_save_dir, \"{}.png\".format(os.path.splitext(file)[0])\n",
       "                model_save_dir, \"{}.png\".format(file.split(\".\")[0])\n")],
     "result files with a dot in their stem",
     "names are cut at the first dot, so that results share an output and all but one are left out",
     BATCH + """
     d, ims = make(["100007", "100039.v1", "100039.v2"])
     out = tempfile.mkdtemp()
     nms_all_results(["m"], d, out, file_format=".npy")
     agree(os.path.join(out, "m"), ims)
     """)

seed("c41-resume-model", "C41",
     [(FN, """        if not os.path.isdir(model_save_dir):
            os.makedirs(model_save_dir)

        for file in os.listdir(result_dir):
            save_name = os.path.join(
                model_save_dir,""", """        if os.path.isdir(model_save_dir) and os.listdir(model_save_dir):
            continue
        os.makedirs(model_save_dir, exist_ok=True)

        for file in os.listdir(result_dir):
            save_name = os.path.join(
                model_save_dir,""")],
     "a run that was interrupted after the first outputs of a model",
     "a model with some outputs is taken for finished and its other results are never suppressed",
     BATCH + """
     d, ims = make(["1", "2", "3"])
     out = tempfile.mkdtemp()
     nms_all_results("m", d, out, file_format=".npy")
     agree(os.path.join(out, "m"), ims)
     os.remove(os.path.join(out, "m", "2.png"))
     nms_all_results("m", d, out, file_format=".npy")
     agree(os.path.join(out, "m"), ims)
     """)

seed("c41-shared-names", "C41",
     [(FN, "    for model_name in model_name_list:\n", "    done = set()\n    for model_name in model_name_list:\n"),
      (FN, "            if os.path.isfile(save_name):\n                continue\n\n            if os.path.splitext",
       "            if os.path.isfile(save_name) or file in done:\n                continue\n            done.add(file)\n\n            if os.path.splitext")],
     "more than one model in one call",
     "the files of the first model count as done for the others",
     BATCH + """
     d, ims = make(["1", "2"])
     out = tempfile.mkdtemp()
     nms_all_results(["a", "b"], d, out, file_format=".npy")
     agree(os.path.join(out, "a"), ims)
     agree(os.path.join(out, "b"), ims)
     """)

seed("c41-float-output", "C41",
     [(FN, "            out = fast_nms(image, r=1, s=5, m=1.01, return_as_uint8=True)\n            # save output\n            cv2.imwrite(save_name, out)",
       "            out = fast_nms(image, r=1, s=5, m=1.01) * 255\n            # save output\n            cv2.imwrite(save_name, out)")],
     "strengths above 1 or with other fractions than the writer's own rounding yields",
     "results are left unclipped and rounded by the image writer",
     BATCH + """
     d = tempfile.mkdtemp(); im = rng.rand(40, 50); im[10:20, 10:30] += 80.0
     np.save(os.path.join(d, "1.npy"), im)
     out = tempfile.mkdtemp()
     seen = []
     real = cv2.imwrite
     mod.cv2.imwrite = lambda p, x: seen.append(np.asarray(x)) or real(p, x)
     nms_all_results(["a"], d, out, file_format=".npy")
     print(seen[0].dtype, seen[0].max())
     assert seen[0].dtype == np.uint8 and (seen[0] == fast_nms(im, return_as_uint8=True)).all()
     """)

# ------------------------------------------------------------------ accepted and refused inputs
MAPS = """
     import numpy as np
     from pyEdgeEval.edge_tools import Mask2Edge, InstanceMask2Edge
     m = np.zeros((12, 16), np.uint8); m[3:9, 4:12] = 24; m[0:3] = 7
     inst = np.where(m == 24, 24001, m.astype(np.int32)); inst[3:9, 8:12] = np.where(m[3:9, 8:12] == 24, 24002, 0)
"""

seed("c42-one-instance-label", "C42",
     [("pyEdgeEval/edge_tools/mask2edge_loop.py", "    if inst_labels[0] == 0:\n", "    if inst_labels[1] > 0 and inst_labels[0] == 0:\n")],
     "a label set in which a single class has instances",
     "instance-sensitive edges fail unless two classes have instances",
     MAPS + """
     a = InstanceMask2Edge(inst_labelIds=[24], labelIds=[7, 24], radius=2)(m, inst)["edge"]
     assert np.asarray(a).any()
     """)

seed("c42-same-area", "C42",
     [(TRF, "        assert mask.shape == inst_mask.shape\n", "        assert mask.size == inst_mask.size\n")],
     "an instance map of another shape with the same number of pixels",
     "an instance map that does not belong to the label map is processed",
     MAPS + """
     t = InstanceMask2Edge(inst_labelIds=[25], labelIds=[7, 24], radius=2)
     t(m, inst)
     try:
         t(m, inst.reshape(16, 12))
     except Exception as e:
         print("refused", type(e).__name__)
     else:
         raise SystemExit("an instance map of another shape is accepted")
     """)

seed("c42-cheap-outliers", "C42",
     [("pyEdgeEval/_lib/correspond_pixels.pyx", "    if outlier_cost <= 1:\n", "    if outlier_cost < 2:\n")],
     "an outlier cost between 1 and 2",
     "outlier costs above 1 that the matcher supports are refused",
     """
     import numpy as np
     from pyEdgeEval._lib import correspond_pixels
     a = np.zeros((20, 20)); a[5, 5] = 1
     m1, m2, cost, oc = correspond_pixels(a, a, max_dist=0.1, outlier_cost=1.5)
     assert (m1 > 0).sum() == 1 and (m2 > 0).sum() == 1
     """)

seed("c42-key-for-all", "C42",
     [("pyEdgeEval/preprocess/nms/fast_nms.py", "            abs_path = os.path.join(result_dir, file)\n            if file_format == \".mat\":\n                assert key is not None\n",
       "            abs_path = os.path.join(result_dir, file)\n            assert key is not None\n            if file_format == \".mat\":\n")],
     "a directory of arrays, which are stored without a key",
     "plain arrays are refused unless a key is given that is not used",
     """
     import os, tempfile
     import numpy as np
     from pyEdgeEval.preprocess.nms.fast_nms import nms_all_results
     d, out = tempfile.mkdtemp(), tempfile.mkdtemp()
     np.save(os.path.join(d, "1.npy"), np.random.RandomState(0).rand(40, 50))
     nms_all_results(["a"], d, out, file_format=".npy")
     assert os.listdir(os.path.join(out, "a")) == ["1.png"]
     """)
