From ece18d6d605fd834cb915befaf381336d34cacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 01/20] fix: evaluate_reanno_sbd passed an argument
 evaluate_reanno does not accept

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index fa68114..0226179 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -367,7 +367,6 @@ def evaluate_reanno_sbd(gt_dir: str = "gtEval"):
         apply_thinning=apply_thinning,
         apply_nms=args.apply_nms,
         nonIS=args.nonIS,
-        max_dist=args.max_dist,
         thresholds=args.thresholds,
         nproc=args.nproc,
     )
-- 
2.43.0


From 292f90b7caa8f801ce5eb069e3e646a30eb023d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 02/20] fix: SBD evaluation ignored --pred-suffix

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index 0226179..0925462 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -178,6 +178,7 @@ def evaluate(
     evaluator = SBDEvaluator(
         dataset_root=sbd_path,
         pred_root=pred_path,
+        pred_suffix=pred_suffix,
         thin=apply_thinning,
         gt_dir=gt_dir,  # NOTE: we can change the directory where the preprocessed GTs are located
     )
-- 
2.43.0


From 10a777741e8047868ccabbd39d7f36b74bd9f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 03/20] fix: SBD post-SEAL evaluation ignored the requested
 max_dist

---
 pyEdgeEval/evaluators/sbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/evaluators/sbd.py b/pyEdgeEval/evaluators/sbd.py
index 873a674..56a05d9 100644
--- a/pyEdgeEval/evaluators/sbd.py
+++ b/pyEdgeEval/evaluators/sbd.py
@@ -157,7 +157,7 @@ class SBDEvaluator(BaseMultilabelEvaluator):
             self.instance_sensitive = False
         elif eval_mode == "post-seal":
             print_log("Using Post-SEAL params", logger=self._logger)
-            self.max_dist = 0.02
+            self.max_dist = max_dist
             if instance_sensitive:
                 self.instance_sensitive = True
                 self.kill_internal = False
-- 
2.43.0


From 4a3d79267259a4b1e3c013c9c1382780e5baa220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 04/20] fix: SBD kill_internal compared labelIds with the
 0-based category index

---
 pyEdgeEval/datasets/sbd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/datasets/sbd.py b/pyEdgeEval/datasets/sbd.py
index 6c86c74..b904c47 100644
--- a/pyEdgeEval/datasets/sbd.py
+++ b/pyEdgeEval/datasets/sbd.py
@@ -62,7 +62,8 @@ def _evaluate_single(
 
         # need to be careful where the category starts
         # some datasets will skip 0 and start from 1 (like sbd)
-        cat_seg = seg == cat_idx
+        # (`seg` holds labelIds, which are the categories themselves)
+        cat_seg = seg == category
     else:
         cat_seg = None
 
-- 
2.43.0


From 0334a6da67d6d1e1563311a77bfa18bd1941aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 05/20] fix: instance ids of labels below 10 were split at the
 wrong digit

---
 pyEdgeEval/datasets/otf_cityscapes.py | 5 +++--
 pyEdgeEval/edge_tools/mask2edge_mp.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyEdgeEval/datasets/otf_cityscapes.py b/pyEdgeEval/datasets/otf_cityscapes.py
index e770e98..0004c4e 100644
--- a/pyEdgeEval/datasets/otf_cityscapes.py
+++ b/pyEdgeEval/datasets/otf_cityscapes.py
@@ -78,8 +78,9 @@ def one_label_instance_mask2edge(
     for inst_label in _cand_insts:
         if inst_label < inst_labels[0] * 1000:  # 24000
             continue
-        _label = int(str(inst_label)[:2])
-        _inst = int(str(inst_label)[2:])
+        inst_label = str(inst_label).zfill(5)
+        _label = int(inst_label[:2])
+        _inst = int(inst_label[2:])
         if _label not in label_inst.keys():
             label_inst[_label] = [_inst]
         else:
diff --git a/pyEdgeEval/edge_tools/mask2edge_mp.py b/pyEdgeEval/edge_tools/mask2edge_mp.py
index 2b7a716..0ac322a 100644
--- a/pyEdgeEval/edge_tools/mask2edge_mp.py
+++ b/pyEdgeEval/edge_tools/mask2edge_mp.py
@@ -238,8 +238,9 @@ def mp_instance_mask2edge(
     for inst_label in _cand_insts:
         if inst_label < inst_labels[0] * 1000:  # 24000
             continue
-        _label = int(str(inst_label)[:2])
-        _inst = int(str(inst_label)[2:])
+        inst_label = str(inst_label).zfill(5)
+        _label = int(inst_label[:2])
+        _inst = int(inst_label[2:])
         if _label not in label_inst.keys():
             label_inst[_label] = [_inst]
         else:
-- 
2.43.0


From 2972eaad5201e3785e6a9f26be7d059fa7f0ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 06/20] fix: 32-bit multi-label encodings overflowed uint8
 edges from the 9th class on

---
 pyEdgeEval/common/multi_label/edge_encoding.py | 2 +-
 pyEdgeEval/utils/convert_formats.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/multi_label/edge_encoding.py b/pyEdgeEval/common/multi_label/edge_encoding.py
index 22945b0..edb6006 100644
--- a/pyEdgeEval/common/multi_label/edge_encoding.py
+++ b/pyEdgeEval/common/multi_label/edge_encoding.py
@@ -21,7 +21,7 @@ def default_multilabel_encoding(edges: np.ndarray):
 
     cat_edge_map = np.zeros((h, w), dtype=np.uint32)
     for trainId in range(num_classes):
-        edge_map = edges[trainId]
+        edge_map = edges[trainId].astype(np.uint32)
         cat_edge_map = cat_edge_map + (2**trainId) * edge_map
 
     return cat_edge_map
diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 35e1ef7..2993621 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -35,7 +35,7 @@ def edge_onehot2multilabel(edges: np.ndarray) -> np.ndarray:
 
     edge_map = np.zeros((h, w), dtype=np.uint32)
     for l in range(labels):
-        m = edges[l]
+        m = edges[l].astype(np.uint32)
         edge_map = edge_map + (2**l) * m
 
     return edge_map
-- 
2.43.0


From dfc1287a255a24899c95a9a73b2e5fd9210303e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 07/20] fix: writing .bin edges passed an argument
 ndarray.tofile does not accept

---
 pyEdgeEval/helpers/convert_cityscapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 4b1909b..1972cac 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -183,7 +183,7 @@ def convert_label_to_semantic_edges(
         edges_img.save(proc_file)
     elif save_format == ".bin":
         edges = default_multilabel_encoding(edge_trainIds)
-        edges.tofile(proc_file, dtype=np.uint32)
+        edges.astype(np.uint32).tofile(proc_file)
     else:
         raise ValueError()
 
-- 
2.43.0


From 3d85eaa4d62623688b0da2f139ea9058106084c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 08/20] fix: AP averaged 100 recall levels over 101

---
 pyEdgeEval/common/binary_label/calculate_metrics.py | 2 +-
 pyEdgeEval/common/multi_label/calculate_metrics.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/calculate_metrics.py b/pyEdgeEval/common/binary_label/calculate_metrics.py
index 0331197..27ea430 100644
--- a/pyEdgeEval/common/binary_label/calculate_metrics.py
+++ b/pyEdgeEval/common/binary_label/calculate_metrics.py
@@ -137,7 +137,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, num=101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
diff --git a/pyEdgeEval/common/multi_label/calculate_metrics.py b/pyEdgeEval/common/multi_label/calculate_metrics.py
index 36f0e05..5d2ad2a 100644
--- a/pyEdgeEval/common/multi_label/calculate_metrics.py
+++ b/pyEdgeEval/common/multi_label/calculate_metrics.py
@@ -140,7 +140,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, num=101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
-- 
2.43.0


From 6e4464495ab5473af2c58ad14a926d141ca0c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 09/20] fix: check_thresholds rejected the NumPy arrays it
 documents

---
 pyEdgeEval/common/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/common/utils.py b/pyEdgeEval/common/utils.py
index 7c1eaea..fafdb97 100644
--- a/pyEdgeEval/common/utils.py
+++ b/pyEdgeEval/common/utils.py
@@ -15,6 +15,9 @@ def check_thresholds(thresholds):
     elif isinstance(thresholds, list):
         # multiple specific thresholds
         thresholds = np.array(thresholds)
+    elif isinstance(thresholds, np.ndarray):
+        # already an array
+        pass
     else:
         raise ValueError(
             "thresholds should be an int or a NumPy array, not "
-- 
2.43.0


From 0b445d9f6eb72aae8d0df5ee1af8ed991a2a6002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 10/20] fix: PR curve plotting could not read the 9-column
 overall result file

---
 pyEdgeEval/common/binary_label/visualize.py | 16 ++++++++--------
 pyEdgeEval/visualization/pr_curve.py        | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/visualize.py b/pyEdgeEval/common/binary_label/visualize.py
index f3431a5..096a4be 100644
--- a/pyEdgeEval/common/binary_label/visualize.py
+++ b/pyEdgeEval/common/binary_label/visualize.py
@@ -61,29 +61,29 @@ def plot_pr_curve(
 
     # load results for every algorithm (pr=[T, R, P, F])
     n = len(algs)
-    hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
+    hs, res, prs = [None] * n, np.zeros((n, 10), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
-        res[i, 8] = _calc_r50(pr)
+        res[i, :9] = _load_overall_results(alg.overall_results)
+        res[i, 9] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
         )[0]
         prefix = "ODS={:.3f}, OIS={:.3f}, AP={:.3f}, R50={:.3f}".format(
-            *res[i, [3, 6, 7, 8]]
+            *res[i, [3, 6, 8, 9]]
         )
         prefix += " - {}".format(names[i])
         print(prefix)
diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index 2a0da75..97943da 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -102,29 +102,29 @@ def plot_pr_curve(
 
     # load results for every algorithm (pr=[T, R, P, F])
     n = len(algs)
-    hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
+    hs, res, prs = [None] * n, np.zeros((n, 10), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
-        res[i, 8] = _calc_r50(pr)
+        res[i, :9] = _load_overall_results(alg.overall_results)
+        res[i, 9] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
         )[0]
         prefix = "ODS={:.3f}, OIS={:.3f}, AP={:.3f}, R50={:.3f}".format(
-            *res[i, [3, 6, 7, 8]]
+            *res[i, [3, 6, 8, 9]]
         )
         prefix += " - {}".format(names[i])
         print(prefix)  # should remove
-- 
2.43.0


From 914b830ddd850d127676012c100277c8c5f0e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 11/20] fix: nms_results wrote every result under the wrong
 name

---
 pyEdgeEval/preprocess/nms/fast_nms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/nms/fast_nms.py b/pyEdgeEval/preprocess/nms/fast_nms.py
index 5ed4dee..99464aa 100644
--- a/pyEdgeEval/preprocess/nms/fast_nms.py
+++ b/pyEdgeEval/preprocess/nms/fast_nms.py
@@ -113,9 +113,10 @@ def nms_results(result_dir, save_dir, loader):
         os.makedirs(save_dir)
 
     for file in os.listdir(result_dir):
-        save_name = os.path.join(save_dir, f"{os.path.splitext(file[0])}.png")
+        save_name = os.path.join(save_dir, f"{os.path.splitext(file)[0]}.png")
         if os.path.isfile(save_name):
             print(f"file: {save_name} exists... skipping")
+            continue
         img_path = os.path.join(result_dir, file)
         # load image
         img = loader(img_path)
-- 
2.43.0


From 98ac52ac44317a328f3ef3374a18cef3b5addd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 12/20] fix: bwmorph_thin used np.in1d, which NumPy removed

---
 pyEdgeEval/preprocess/thin/bwmorph_thin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/thin/bwmorph_thin.py b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
index dacd5a4..715eb63 100644
--- a/pyEdgeEval/preprocess/thin/bwmorph_thin.py
+++ b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
@@ -114,7 +114,7 @@ def bwmorph_thin(image, n_iter=None):
 
     if skel.ndim != 2:
         raise ValueError("2D array required")
-    if not np.all(np.in1d(image.flat, (0, 1))):
+    if not np.all(np.isin(image.flat, (0, 1))):
         raise ValueError("Image contains values other than 0 and 1")
 
     # neighborhood mask
-- 
2.43.0


From 97495c0a122bafa103f677098d347d52ddd832a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 13/20] fix: mask2onehot rejected masks with fewer rows than
 labels

---
 pyEdgeEval/utils/convert_formats.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 2993621..9213f12 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -8,13 +8,9 @@ def mask2onehot(mask, labels):
     Converts a segmentation mask (H,W) to (K,H,W) where the last dim is a one
     hot encoding vector
     """
-    c = mask.shape[0]
     assert (
         len(labels) > 0
     ), "`labels` should be a list with more than 1 elements"
-    assert c >= len(
-        labels
-    ), "tried to convert into onehot with more labels than the original mask"
     _mask = [mask == i for i in labels]
     return np.array(_mask).astype(np.uint8)
 
-- 
2.43.0


From 235bcf296fe28a283a1c023e2625e13bc5a06e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 14/20] fix: generic binary evaluation passed a list of GTs to
 the single-GT kernel

---
 pyEdgeEval/datasets/generic_binary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/datasets/generic_binary.py b/pyEdgeEval/datasets/generic_binary.py
index b911e42..0e88053 100644
--- a/pyEdgeEval/datasets/generic_binary.py
+++ b/pyEdgeEval/datasets/generic_binary.py
@@ -5,7 +5,7 @@ from skimage.util import img_as_float
 from skimage.io import imread
 
 from pyEdgeEval.common.binary_label.evaluate_boundaries import (
-    evaluate_boundaries_threshold,
+    evaluate_boundaries_threshold_multiple_gts,
 )
 from pyEdgeEval.common.utils import check_thresholds
 from pyEdgeEval.utils import loadmat
@@ -61,10 +61,10 @@ def _evaluate_single(
     # TODO: scale inputs
 
     # evaluate multi-label boundaries
-    count_r, sum_r, count_p, sum_p = evaluate_boundaries_threshold(
+    count_r, sum_r, count_p, sum_p = evaluate_boundaries_threshold_multiple_gts(
         thresholds=thresholds,
         pred=pred,
-        gt=gt,
+        gts=gt,
         max_dist=max_dist,
         apply_thinning=apply_thinning,
         apply_nms=apply_nms,
-- 
2.43.0


From 31e53ebd2f74c562b16463e820a0abcdf287f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 15/20] fix: binary_thin stopped while one of its two
 sub-iterations could still delete pixels

---
 pyEdgeEval/preprocess/thin/thin.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyEdgeEval/preprocess/thin/thin.py b/pyEdgeEval/preprocess/thin/thin.py
index b843c5c..e33cee7 100644
--- a/pyEdgeEval/preprocess/thin/thin.py
+++ b/pyEdgeEval/preprocess/thin/thin.py
@@ -262,20 +262,18 @@ def binary_thin(x, max_iter=None):
         # Iter 1
         lut_indices = binary_image_to_lut_indices(x)
         # FIXME: index "" is out of bounds for axis 0 with size 512
-        x_mut = thin1_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
-
+        n_mut = thin1_mut[lut_indices].sum()
         x = thin1[lut_indices]
 
         # Iter 2
         lut_indices = binary_image_to_lut_indices(x)
-        x_mut = thin2_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
-
+        n_mut += thin2_mut[lut_indices].sum()
         x = thin2[lut_indices]
 
+        # stop once neither sub-iteration changes anything
+        if n_mut == 0:
+            break
+
         iter_count += 1
 
     return x
-- 
2.43.0


From b86e6f7da1dae3f6cb9e6f636f59da127afb84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 16/20] fix: mask2internal marked ignored pixels as internal
 edges

---
 pyEdgeEval/utils/distance_transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/utils/distance_transforms.py b/pyEdgeEval/utils/distance_transforms.py
index 05add88..5ebb9f2 100644
--- a/pyEdgeEval/utils/distance_transforms.py
+++ b/pyEdgeEval/utils/distance_transforms.py
@@ -46,6 +46,7 @@ def mask2internal(
     else:
         inner = distance_transform_edt((mask + ignore_mask) > 0)
 
+    inner[mask == 0] = 0  # ignored pixels are not inside the mask
     inner[inner > radius] = 0
     return (inner > 0).astype(np.uint8)
 
-- 
2.43.0


From 1d4899d6fa6c706d56b1942f235185c5a5e59ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 17/20] fix: scipy boundary extraction invented edges when a
 mask has no outside

---
 pyEdgeEval/utils/distance_transforms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/utils/distance_transforms.py b/pyEdgeEval/utils/distance_transforms.py
index 5ebb9f2..7126ac6 100644
--- a/pyEdgeEval/utils/distance_transforms.py
+++ b/pyEdgeEval/utils/distance_transforms.py
@@ -21,9 +21,16 @@ def cv2_mask2bdry(m, ignore_mask, radius, quality):
     return dist
 
 
+def _scipy_distance(x):
+    # `distance_transform_edt` is undefined when there is no background pixel
+    if np.all(x):
+        return np.full(x.shape, np.inf)
+    return distance_transform_edt(x)
+
+
 def scipy_mask2bdry(m, ignore_mask, radius):
-    inner = distance_transform_edt((m + ignore_mask) > 0)
-    outer = distance_transform_edt(1.0 - m)
+    inner = _scipy_distance((m + ignore_mask) > 0)
+    outer = _scipy_distance(1.0 - m)
     dist = outer + inner
 
     dist[dist > radius] = 0
@@ -44,7 +51,7 @@ def mask2internal(
             ((mask + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
         )
     else:
-        inner = distance_transform_edt((mask + ignore_mask) > 0)
+        inner = _scipy_distance((mask + ignore_mask) > 0)
 
     inner[mask == 0] = 0  # ignored pixels are not inside the mask
     inner[inner > radius] = 0
-- 
2.43.0


From 89bf8cd4e7246e77b2f19df1da469afe064e4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 18/20] fix: the re-annotated SBD evaluator read the original
 split, not reanno_val.txt

---
 pyEdgeEval/evaluators/sbd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/evaluators/sbd.py b/pyEdgeEval/evaluators/sbd.py
index 56a05d9..1b5ae39 100644
--- a/pyEdgeEval/evaluators/sbd.py
+++ b/pyEdgeEval/evaluators/sbd.py
@@ -51,6 +51,7 @@ class SBDEvaluator(BaseMultilabelEvaluator):
 
     SEG_SUFFIX = "_labelIds.png"
     PRED_SUFFIX = ".png"
+    SPLIT_PREFIX = ""
 
     def __init__(
         self,
@@ -114,7 +115,9 @@ class SBDEvaluator(BaseMultilabelEvaluator):
         if sample_names is None:
             # load sample_names from split file
             if split_file is None:
-                split_file = osp.join(self.dataset_root, f"{self.split}.txt")
+                split_file = osp.join(
+                    self.dataset_root, f"{self.SPLIT_PREFIX}{self.split}.txt"
+                )
 
             assert osp.exists(split_file), f"ERR: {split_file} does not exist!"
 
@@ -293,6 +296,7 @@ class ReannoSBDEvaluator(SBDEvaluator):
     THIN_EDGE_SUFFIX = "_reanno_thin_edge.png"
     RAW_ISEDGE_SUFFIX = "_reanno_raw_isedge.png"
     THIN_ISEDGE_SUFFIX = "_reanno_thin_isedge.png"
+    SPLIT_PREFIX = "reanno_"
 
     def __init__(
         self,
-- 
2.43.0


From eaa9dd11dafc853b6adb0b6fd41707f55c4b62e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 19/20] fix: read sparse boundaries as csc_array as well as
 csc_matrix

---
 pyEdgeEval/utils/mat_utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyEdgeEval/utils/mat_utils.py b/pyEdgeEval/utils/mat_utils.py
index 7b4c518..9bb3a11 100644
--- a/pyEdgeEval/utils/mat_utils.py
+++ b/pyEdgeEval/utils/mat_utils.py
@@ -4,7 +4,7 @@ import os
 
 # libraries used for .mat io
 from scipy.io import loadmat as scipy_loadmat
-from scipy.sparse import csc_matrix
+from scipy.sparse import issparse
 
 try:
     # prefer `pymatreader`
@@ -33,9 +33,10 @@ def loadmat(
     return mat
 
 
-def sparse2numpy(data: csc_matrix):
+def sparse2numpy(data):
     """helper function to convert compressed sparse column matrix to numpy array"""
-    assert isinstance(
-        data, csc_matrix
-    ), f"ERR: input is not csc_matrix, but got {type(data)}"
+    # newer scipy loads `csc_array` instead of `csc_matrix`
+    assert issparse(
+        data
+    ), f"ERR: input is not a sparse matrix, but got {type(data)}"
     return data.toarray()
-- 
2.43.0


From ce3c389bb476a388de3e226597c5f6513e9875fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 20/20] fix: save the SBD instance ids as a 16-bit png

---
 pyEdgeEval/helpers/convert_sbd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index 59ac25d..17fa42a 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -351,8 +351,8 @@ def routine(
         )
         train_img.save(osp.join(save_dir, f"{sample_name}{train_suffix}"))
 
-        # save instance
-        inst_img = Image.fromarray(inst)
+        # save instance (16-bit png)
+        inst_img = Image.fromarray(inst.astype(np.uint16))
         inst_img.save(osp.join(save_dir, f"{sample_name}{inst_suffix}"))
 
 
-- 
2.43.0

