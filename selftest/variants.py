BL = "pyEdgeEval/common/binary_label/evaluate_boundaries.py"
ML = "pyEdgeEval/common/multi_label/evaluate_boundaries.py"
OPT = "pyEdgeEval/common/multi_label/options.py"
CB = "pyEdgeEval/common/binary_label/calculate_metrics.py"
CM = "pyEdgeEval/common/multi_label/calculate_metrics.py"
MET = "pyEdgeEval/common/metrics.py"
PB = "pyEdgeEval/utils/progressbar.py"
VARIANTS = []


def bug(i, props, *edits):
    VARIANTS.append((i, "bug", props.split(","), [tuple(e) for e in edits]))


def same(i, *edits):
    VARIANTS.append((i, "same", [], [tuple(e) for e in edits]))


# ------------------------------------------------------------------ scorers
bug("sc-gt-0-5", "C01", (ML, "match2 = match2 > 0", "match2 = match2 > 1"))
bug("sc-swap", "C01", (ML, "count_r[i_t] = match2.sum()", "count_r[i_t] = match1.sum()"))
bug("sc-gtsum", "C01", (BL, "sum_r[i_t] = gt.sum()", "sum_r[i_t] = (gt > 0.5).sum() + 1"))
bug("sc-strict", "C02", (ML, "_pred = pred >= thresh", "_pred = pred > thresh"))
bug("sc-rebind", "C02", (ML, "_pred = pred >= thresh", "pred = pred * (pred >= thresh)\n        _pred = pred > 0"))
bug("sc-thin-raw-sum", "C02", (BL, "            sum_p[i_t] = _pred.sum()\n            count_p[i_t] = match1.sum()", "            sum_p[i_t] = (pred >= thresh).sum()\n            count_p[i_t] = match1.sum()"))
bug("sc-nms-loop", "C02", (ML, "        _pred = pred >= thresh\n", "        _pred = (fast_nms(img=pred, **nms_kwargs) if apply_nms else pred) >= thresh\n"))
bug("sc-kill-empty", "C08", (ML, "            sum_p[i_t] = _pred.sum()  # keep track of false positives", "            sum_p[i_t] = 0 if kill_internal else _pred.sum()"))
bug("sc-skip-any", "C08", (ML, "if np.all(gt == 0):", "if np.any(gt == 0):"))
bug("sc-annot", "C08", (BL, "acc_prec = acc_prec | match1", "acc_prec = match1"))
bug("sc-annot2", "C08", (BL, "acc_prec = acc_prec | match1", "acc_prec = acc_prec & match1"))
bug("sc-annot3", "C08", (BL, "sum_r[i_t] += gt.sum()", "sum_r[i_t] = gt.sum()"))

bug("sc-tol2", "C26", (ML, "                    max_dist=max_dist,\n                )\n\n            match1", "                    max_dist=0.02,\n                )\n\n            match1"))
bug("sc-matchtol", "C01", (ML, "_pred, gt, max_dist=max_dist", "_pred, gt"))
bug("sc-prevthin", "C02", (BL, "            _pred = binary_thin(_pred)\n\n        if gt.any()", "            _pred = binary_thin(_pred, 10)\n\n        if gt.any()"))

same("sc-anygt", (ML, "        if gt.any():", "        if gt.sum() > 0:"))
same("sc-npany", (BL, "        if gt.any():", "        if np.any(gt):"))
same("sc-cnz", (BL, "        if gt.any():", "        if np.count_nonzero(gt) > 0:"))
same("sc-max", (ML, "        if gt.any():", "        if gt.max() > 0:"))
same("sc-notany", (ML, "if np.all(gt == 0):", "if not gt.any():"))
same("sc-sum0", (ML, "if np.all(gt == 0):", "if gt.sum() == 0:"))
same("sc-cnz2", (ML, "match1 = match1 > 0\n", "match1 = match1 != 0\n"))
same("sc-npsum", (ML, "count_p[i_t] = match1.sum()", "count_p[i_t] = np.sum(match1)"))
same("sc-npcnz", (ML, "count_p[i_t] = match1.sum()", "count_p[i_t] = np.count_nonzero(match1)"))
same("sc-range", (ML, "for i_t, thresh in enumerate(list(thresholds)):\n", "for i_t in range(len(thresholds)):\n        thresh = thresholds[i_t]\n"))
same("sc-range2", (BL, "for i_t, thresh in enumerate(list(thresholds)):\n", "for i_t in range(thresholds.shape[0]):\n        thresh = thresholds[i_t]\n"))
same("sc-zeros-like", (ML, "sum_p = np.zeros(thresholds.shape)", "sum_p = np.zeros_like(thresholds)"))
same("sc-zeros-len", (ML, "sum_p = np.zeros(thresholds.shape)", "sum_p = np.zeros(len(thresholds))"))
same("sc-noelse", (BL, """        else:
            sum_r[i_t] = 0
            count_r[i_t] = 0
            sum_p[i_t] = _pred.sum()  # keep track of false positives
            count_p[i_t] = 0
""", """        else:
            sum_p[i_t] = _pred.sum()
"""))
same("sc-hoist", (ML, """        if gt.any():
            if kill_internal:""", """        has_gt = gt.any()
        if has_gt:
            if kill_internal:"""))
same("sc-hoist2", (ML, """    for i_t, thresh in enumerate(list(thresholds)):
""", """    gt_total = gt.sum()
    for i_t, thresh in enumerate(list(thresholds)):
"""), (ML, "sum_r[i_t] = gt.sum()", "sum_r[i_t] = gt_total"))
same("sc-helper", (ML, "def evaluate_boundaries_threshold(", """def _count(pred, gt, max_dist):
    m1, m2, _, _ = correspond_pixels(pred, gt, max_dist=max_dist)
    return (m2 > 0).sum(), gt.sum(), (m1 > 0).sum(), pred.sum()


def evaluate_boundaries_threshold("""), (ML, """            match1, match2, cost, oc = correspond_pixels(
                _pred, gt, max_dist=max_dist
            )
            match1 = match1 > 0
            match2 = match2 > 0

            # Recall
            sum_r[i_t] = gt.sum()
            count_r[i_t] = match2.sum()

            # Precision
            sum_p[i_t] = _pred.sum()
            count_p[i_t] = match1.sum()
""", """            counts = _count(_pred, gt, max_dist)
            count_r[i_t], sum_r[i_t], count_p[i_t], sum_p[i_t] = counts
"""))
same("sc-continue", (BL, """        if gt.any():
            match1, match2, cost, oc = correspond_pixels(
                _pred, gt, max_dist=max_dist
            )
            match1 = match1 > 0
            match2 = match2 > 0

            # Recall
            sum_r[i_t] = gt.sum()
            count_r[i_t] = match2.sum()

            # Precision
            sum_p[i_t] = _pred.sum()
            count_p[i_t] = match1.sum()
        else:
            sum_r[i_t] = 0
            count_r[i_t] = 0
            sum_p[i_t] = _pred.sum()  # keep track of false positives
            count_p[i_t] = 0
""", """        sum_p[i_t] = _pred.sum()
        if not gt.any():
            continue
        match1, match2 = correspond_pixels(_pred, gt, max_dist=max_dist)[:2]
        sum_r[i_t] = gt.sum()
        count_r[i_t] = (match2 > 0).sum()
        count_p[i_t] = (match1 > 0).sum()
"""))
same("sc-append", (BL, """    sum_p = np.zeros(thresholds.shape)
    count_p = np.zeros(thresholds.shape)
    sum_r = np.zeros(thresholds.shape)
    count_r = np.zeros(thresholds.shape)

    if apply_nms:
        pred = fast_nms(
            img=pred,
            **nms_kwargs,
        )

    for i_t, thresh in enumerate(list(thresholds)):

        _pred = pred >= thresh

        if apply_thinning:
            _pred = binary_thin(_pred)

        if gt.any():
            match1, match2, cost, oc = correspond_pixels(
                _pred, gt, max_dist=max_dist
            )
            match1 = match1 > 0
            match2 = match2 > 0

            # Recall
            sum_r[i_t] = gt.sum()
            count_r[i_t] = match2.sum()

            # Precision
            sum_p[i_t] = _pred.sum()
            count_p[i_t] = match1.sum()
        else:
            sum_r[i_t] = 0
            count_r[i_t] = 0
            sum_p[i_t] = _pred.sum()  # keep track of false positives
            count_p[i_t] = 0

    return count_r, sum_r, count_p, sum_p
""", """    if apply_nms:
        pred = fast_nms(img=pred, **nms_kwargs)
    rows = []
    for thresh in thresholds:
        _pred = pred >= thresh
        if apply_thinning:
            _pred = binary_thin(_pred)
        if gt.any():
            match1, match2, cost, oc = correspond_pixels(_pred, gt, max_dist=max_dist)
            rows.append(((match2 > 0).sum(), gt.sum(), (match1 > 0).sum(), _pred.sum()))
        else:
            rows.append((0, 0, 0, _pred.sum()))
    rows = np.array(rows, dtype=float)
    return rows[:, 0], rows[:, 1], rows[:, 2], rows[:, 3]
"""))
same("sc-logor", (BL, "acc_prec = acc_prec | match1", "acc_prec = np.logical_or(acc_prec, match1)"))
same("sc-ior", (BL, "acc_prec = acc_prec | match1", "acc_prec |= match1"))
same("sc-greater", (BL, "acc_prec = acc_prec | match1", "acc_prec[match1] = True"))
same("sc-tee", (ML, "_pred = pred >= thresh", "_pred = np.greater_equal(pred, thresh)"))
same("sc-localsum", (BL, """            sum_r[i_t] += gt.sum()
            count_r[i_t] += match2.sum()
""", """            n_gt = n_gt + gt.sum()
            n_hit = n_hit + match2.sum()
"""), (BL, "        for gt in gts:\n", "        n_gt = 0\n        n_hit = 0\n        for gt in gts:\n"), (BL, "        count_p[i_t] = acc_prec.sum()", "        count_p[i_t] = acc_prec.sum()\n        sum_r[i_t] = n_gt\n        count_r[i_t] = n_hit"))
same("sc-kw", (ML, "_pred = binary_thin(_pred)", "_pred = binary_thin(x=_pred)"))
same("sc-ternary", (ML, "        if apply_thinning:\n            _pred = binary_thin(_pred)\n", "        _pred = binary_thin(_pred) if apply_thinning else _pred\n"))

# ------------------------------------------------------------------ metrics
bug("me-mean", "C03", (CM, "        count_r_overall += count_r\n", "        count_r_overall += count_r / len(samples)\n"))
bug("me-first", "C03", (CB, "        sum_p_overall += sum_p\n", "        sum_p_overall = np.maximum(sum_p_overall, sum_p)\n"))
bug("me-ge", "C03", (MET, "            if f > best_f1:", "            if f >= best_f1:"))
bug("me-range2", "C03", (MET, "for i in range(1, len(thresholds)):", "for i in range(1, len(thresholds) - 1):"))
bug("me-tie", "C03", (MET, "                best_rec = r\n", "                best_rec = rec[i]\n"))
bug("me-101", "C03", (MET, "num=101", "num=100"))
bug("me-f1", "C07", (MET, "f1_denom = prec + rec + ((prec + rec) == 0)", "f1_denom = prec + rec + 1e-12"))
bug("me-rec", "C07", (MET, "return count_r / (sum_r + (sum_r == 0))", "return count_r / (sum_r + (count_r == 0))"))
bug("me-ois-argmax", "C04", (CM, "best_ndx = np.argmax(f1)", "best_ndx = len(f1) - 1 - np.argmax(f1[::-1])"))
bug("me-ois-sum", "C04", (CM, "        sum_p_best += sum_p[best_ndx]", "        sum_p_best += sum_p.max()"))
bug("me-name", "C04", (CB, 'name=sample_data["name"]', 'name=samples[sample_index - 1]["name"]'))
bug("me-ap", "C05", (CB, "initial=0)", "initial=1)"))
bug("me-ap2", "C05", (CB, "_r = rec_overall >= t", "_r = rec_overall > t"))
bug("me-auc", "C05", (CM, "right=0.0", "right=prec_unique[-1]"))
bug("me-order", "C06", (CM, "keep_order=True", "keep_order=False"))
bug("me-imap", "C06", (PB, "gen = pool.imap(func, tasks, chunksize)", "gen = pool.imap_unordered(func, tasks, chunksize)"))
bug("me-skipfirst", "C06", (PB, "        results.append(result)\n        if skip_first:", "        if result not in results:\n            results.append(result)\n        if skip_first:"))

same("me-np-where", (MET, "return count_r / (sum_r + (sum_r == 0))", "return count_r / np.where(sum_r == 0, 1, sum_r)"))
same("me-divwhere", (MET, "return count_p / (sum_p + (sum_p == 0))", "denom = sum_p + (sum_p == 0)\n    return count_p / denom"))
same("me-f1b", (MET, "    f1_denom = prec + rec + ((prec + rec) == 0)\n    return 2.0 * prec * rec / f1_denom", "    total = prec + rec\n    return 2.0 * (prec * rec) / (total + (total == 0))"))
same("me-zip", (CM, """    for sample_index, sample_data in enumerate(samples):
        count_r, sum_r, count_p, sum_p = sample_metrics[sample_index]
""", """    for sample_data, sample_metric in zip(samples, sample_metrics):
        count_r, sum_r, count_p, sum_p = sample_metric
"""))
same("me-listcomp", (CM, """    threshold_results = []
    for thresh_i in range(n_thresh):
        threshold_results.append(
            dict(
                threshold=thresholds[thresh_i],
                recall=rec_overall[thresh_i],
                precision=prec_overall[thresh_i],
                f1=f1_overall[thresh_i],
            )
        )
""", """    threshold_results = [
        {"threshold": t, "recall": r, "precision": p, "f1": f}
        for t, r, p, f in zip(thresholds, rec_overall, prec_overall, f1_overall)
    ]
"""))
same("me-f1method", (CB, "best_ndx = np.argmax(f1)", "best_ndx = f1.argmax()"))
same("me-auc-ternary", (CM, """    if rec_unique.shape[0] > 1:
        prec_interp = np.interp(
            np.arange(0, 1, prec_inc),
            rec_unique,
            prec_unique,
            left=0.0,
            right=0.0,
        )
        area_pr = prec_interp.sum() * prec_inc
    else:
        area_pr = 0.0
""", """    area_pr = 0.0
    if len(rec_unique) > 1:
        grid = np.arange(0, 1, prec_inc)
        prec_interp = np.interp(grid, rec_unique, prec_unique, left=0.0, right=0.0)
        area_pr = np.sum(prec_interp) * prec_inc
"""))
same("me-ap-mean", (CB, """    ap = 0
    for t in np.linspace(0, 1, num=101):
        _r = rec_overall >= t
        p = np.max(prec_overall[_r], initial=0)
        ap = ap + p / 101
""", """    ap = 0
    for t in np.linspace(0, 1, num=101):
        ap += np.max(prec_overall[rec_overall >= t], initial=0) / 101
"""))
same("me-ap-helper", (CB, """    ap = 0
    for t in np.linspace(0, 1, num=101):
        _r = rec_overall >= t
        p = np.max(prec_overall[_r], initial=0)
        ap = ap + p / 101
""", """    ap = _average_precision(rec_overall, prec_overall)
"""), (CB, "def calculate_metrics(", """def _average_precision(rec, prec):
    total = 0.0
    for level in np.linspace(0, 1, num=101):
        total += np.max(prec[rec >= level], initial=0)
    return total / 101


def calculate_metrics("""))
same("me-ap-listcomp", (CB, """    ap = 0
    for t in np.linspace(0, 1, num=101):
        _r = rec_overall >= t
        p = np.max(prec_overall[_r], initial=0)
        ap = ap + p / 101
""", """    ap = np.mean([np.max(prec_overall[rec_overall >= t], initial=0) for t in np.linspace(0, 1, num=101)])
"""))
same("me-thr-first", (CM, "    # check and convert\n    thresholds = check_thresholds(thresholds)\n", ""), (CM, "    # initial run (process heavy)\n", "    thresholds = check_thresholds(thresholds)\n\n"))
same("me-ois-early", (CM, "            dict(\n                name=sample_data[\"name\"],", "            dict(\n                name=samples[sample_index][\"name\"],"))
same("me-interp-enum", (MET, """    best_threshold = thresholds[0]
    best_rec = rec[0]
    best_prec = prec[0]
    best_f1 = f1(best_prec, best_rec)

    for i in range(1, len(thresholds)):
        for d in np.linspace(0, 1, num=101):
            t = thresholds[i] * d + thresholds[i - 1] * (1 - d)
            r = rec[i] * d + rec[i - 1] * (1 - d)
            p = prec[i] * d + prec[i - 1] * (1 - d)
            f = f1(p, r)
            if f > best_f1:
                best_threshold = t
                best_rec = r
                best_prec = p
                best_f1 = f

    return best_threshold, best_rec, best_prec, best_f1
""", """    best_threshold, best_rec, best_prec = thresholds[0], rec[0], prec[0]
    best_f1 = f1(best_prec, best_rec)
    steps = np.linspace(0, 1, num=101)

    for i in range(1, len(thresholds)):
        for d in steps:
            r = _lerp(rec, i, d)
            p = _lerp(prec, i, d)
            f = f1(p, r)
            if f > best_f1:
                best_threshold = _lerp(thresholds, i, d)
                best_rec, best_prec, best_f1 = r, p, f

    return best_threshold, best_rec, best_prec, best_f1


def _lerp(values, i, d):
    return values[i] * d + values[i - 1] * (1 - d)
"""))
same("me-interp-tuple", (MET, """            if f > best_f1:
                best_threshold = t
                best_rec = r
                best_prec = p
                best_f1 = f
""", """            if f <= best_f1:
                continue
            best_threshold, best_rec, best_prec, best_f1 = t, r, p, f
"""))
same("me-pb-list", (PB, """    for result in gen:
        results.append(result)
        if skip_first:""", """    for result in gen:
        results += [result]
        if skip_first:"""))
same("me-pb-with", (PB, "    pool.close()\n    pool.join()\n    return results", "    pool.close()\n    pool.join()\n    del pool\n    return results"))
VARIANTS = [v for v in VARIANTS if v]

# ------------------------------------------------------------------ edges
EE = "pyEdgeEval/common/multi_label/edge_encoding.py"
ED = "pyEdgeEval/common/multi_label/edge_decoding.py"
CF = "pyEdgeEval/utils/convert_formats.py"
DT = "pyEdgeEval/utils/distance_transforms.py"
LP = "pyEdgeEval/edge_tools/mask2edge_loop.py"
MP = "pyEdgeEval/edge_tools/mask2edge_mp.py"
MU = "pyEdgeEval/common/multi_label/utils.py"
CC = "pyEdgeEval/helpers/convert_cityscapes.py"
bug("en-u16", "C09", (EE, "edges[trainId].astype(np.uint32)", "edges[trainId].astype(np.uint16)"))
bug("en-range", "C09", (EE, "elif trainId >= 8 and trainId < 16:", "elif trainId >= 8 and trainId < 15:"))
bug("en-25", "C09", (EE, "elif trainId >= 16 and trainId < 24:", "elif trainId >= 16:"))
bug("en-swap", "C09", (EE, "cat_edge_png[:, :, 0] = cat_edge_r", "cat_edge_png[:, :, 0] = cat_edge_g"), (EE, "cat_edge_png[:, :, 1] = cat_edge_g", "cat_edge_png[:, :, 1] = cat_edge_r"))
bug("en-last", "C09", (EE, "for trainId in range(num_classes):\n        edge_map = edges[trainId].astype", "for trainId in range(num_classes - 1):\n        edge_map = edges[trainId].astype"))
bug("de-off", "C09", (ED, "[:, :, -1 : -(num_classes + 1) : -1]", "[:, :, -1 : -num_classes : -1]"))
bug("de-big", "C09", (ED, 'bitorder="little",\n    )\n    edge = np.ascont', 'bitorder="big",\n    )\n    edge = np.ascont'))
bug("de-tr", "C09", (ED, "edge.transpose(2, 0, 1)", "edge.transpose(2, 1, 0)"))
bug("de-u8", "C09", (ED, "np.array(edge).astype(np.uint32)", "np.array(edge).astype(np.uint8).astype(np.uint32)"))
bug("en-ext", "C09", (CC, 'if save_format == ".png":', 'if save_format in (".png", ".bin"):'))
bug("en-oh", "C09", (CF, "edges[l].astype(np.uint32)", "edges[l]"))
same("en-shift", (EE, "(2**trainId) * edge_map\n\n    return", "(edge_map << trainId)\n\n    return"))
same("en-or", (EE, "cat_edge_map = cat_edge_map + (2**trainId) * edge_map", "cat_edge_map |= edge_map * np.uint32(1 << trainId)"))
same("en-enum", (EE, "for trainId in range(num_classes):\n        edge_map = edges[trainId].astype(np.uint32)", "for trainId, e in enumerate(edges):\n        edge_map = e.astype(np.uint32)"))
same("en-lt", (EE, "elif trainId >= 8 and trainId < 16:", "elif trainId < 16:"), (EE, "elif trainId >= 16 and trainId < 24:", "elif trainId < 24:"))
same("en-chain", (EE, "if trainId >= 0 and trainId < 8:", "if 0 <= trainId < 8:"))
same("en-stack", (EE, """    cat_edge_png[:, :, 0] = cat_edge_r
    cat_edge_png[:, :, 1] = cat_edge_g
    cat_edge_png[:, :, 2] = cat_edge_b
""", """    cat_edge_png = np.stack([cat_edge_r, cat_edge_g, cat_edge_b], axis=-1)
"""))
same("en-guard", (EE, "    num_classes, h, w = edges.shape\n\n    cat_edge_b", "    num_classes, h, w = edges.shape\n    if num_classes > 24:\n        raise ValueError()\n\n    cat_edge_b"))
same("en-div", (EE, """        if trainId >= 0 and trainId < 8:
            cat_edge_b = cat_edge_b + (2**trainId) * edge_map
        elif trainId >= 8 and trainId < 16:
            cat_edge_g = cat_edge_g + (2 ** (trainId - 8)) * edge_map
        elif trainId >= 16 and trainId < 24:
            cat_edge_r = cat_edge_r + (2 ** (trainId - 16)) * edge_map
        else:
            raise ValueError()

    cat_edge_png[:, :, 0] = cat_edge_r
    cat_edge_png[:, :, 1] = cat_edge_g
    cat_edge_png[:, :, 2] = cat_edge_b
""", """        if trainId >= 24:
            raise ValueError()
        planes[trainId // 8] = planes[trainId // 8] + 2 ** (trainId % 8) * edge_map
    for ch, plane in zip((2, 1, 0), planes):
        cat_edge_png[:, :, ch] = plane
"""), (EE, "    cat_edge_b = np.zeros((h, w), dtype=np.uint8)\n    cat_edge_g = np.zeros((h, w), dtype=np.uint8)\n    cat_edge_r = np.zeros((h, w), dtype=np.uint8)\n", "    planes = [np.zeros((h, w), dtype=np.uint8) for _ in range(3)]\n"))
same("de-flip", (ED, """    edge = np.unpackbits(
        edge,
        axis=2,
    )[:, :, -1 : -(num_classes + 1) : -1]
""", """    bits = np.unpackbits(edge, axis=2)
    edge = bits[:, :, ::-1][:, :, :num_classes]
"""))
same("de-move", (ED, "    edge = np.ascontiguousarray(edge.transpose(2, 0, 1))\n    return edge\n\n\ndef decode_tif", "    return np.ascontiguousarray(np.moveaxis(edge, -1, 0))\n\n\ndef decode_tif"))
same("de-help", (ED, "def decode_tif(", "def _bits_first(bits):\n    return np.ascontiguousarray(bits.transpose(2, 0, 1))\n\n\ndef decode_tif("), (ED, "    edge = np.ascontiguousarray(edge.transpose(2, 0, 1))\n    return edge\n\n\ndef _b", "    return _bits_first(edge)\n\n\ndef _b"))
same("de-loop", (ED, """    edge = edge[:, :, None]
    edge = np.unpackbits(
        edge.view(np.uint8),
        axis=2,
        count=num_classes,
        bitorder="little",
    )
    edge = np.ascontiguousarray(edge.transpose(2, 0, 1))
    return edge
""", """    return np.stack([((edge >> k) & 1).astype(np.uint8) for k in range(num_classes)])
"""))
same("de-loop2", (ED, """    edge = edge[:, :, None]
    edge = np.unpackbits(
        edge.view(np.uint8),
        axis=2,
        count=num_classes,
        bitorder="little",
    )
    edge = np.ascontiguousarray(edge.transpose(2, 0, 1))
    return edge
""", """    out = []
    for k in range(num_classes):
        out.append((edge // 2**k) & 1)
    return np.array(out).astype(np.uint8)
"""))

bug("ed-ign", "C16", (LP, "        if label in ignore_indices:\n            continue\n", "", ))
bug("ed-first", "C16", (LP, "    for label in range(num_labels):", "    for label in range(1, num_labels):"))
bug("ed-break", "C16", (LP, "        if not np.count_nonzero(m):\n            continue", "        if not np.count_nonzero(m):\n            break"))
bug("ed-noinst", "C16", (LP, "                dist = dist | mask2bdry(", "                dist = mask2bdry("))
bug("ed-radius", "C16", (MP, "    mask2bdry_kwargs = dict(\n        radius=radius,", "    mask2bdry_kwargs = dict(\n        radius=2,"))
bug("ed-ignm", "C16", (MP, "    for i in ignore_indices:\n        ignore_mask += mask[i]", "    for i in ignore_indices:\n        ignore_mask = mask[i]"))
bug("ed-intern", "C16", (LP, "        internal_only=internal_only,\n        use_cv2=use_cv2,\n        quality=quality,\n    )\n\n    edges", "        use_cv2=use_cv2,\n        quality=quality,\n    )\n\n    edges"))
bug("ed-dig", "C32,C16", (LP, "_inst = int(inst_label[_inst_id_dig:])", "_inst = int(inst_label[_inst_id_dig + 1:])"))
bug("ed-min", "C16,C32", (LP, "if inst_label < min_inst_id:", "if inst_label <= min_inst_id:"))
bug("ed-mini", "C16,C32", (LP, "inst_labels[0] * (10 ** (_inst_len - _inst_id_dig))", "inst_labels[0] * (10 ** _inst_len)"))
bug("ed-fill", "C32", (MU, "str(num_inst).zfill(3)", "str(num_inst).zfill(2)"))
bug("ed-pos", "C32", (MU, "                num_inst += 1\n", "            num_inst += 1\n"))
bug("ed-ii", "C32", (MU, "out[inst_seg == (i + 1)] = out_id", "out[inst_seg == i] = out_id"))
same("ed-div", (LP, """        inst_label = str(inst_label).zfill(_inst_len)

        _label = int(inst_label[:_inst_id_dig])
        _inst = int(inst_label[_inst_id_dig:])
""", """        _label, _inst = divmod(int(inst_label), 1000)
"""))
same("ed-arith", (LP, "iid = int(str(label) + str(instance).zfill(3))", "iid = label * 1000 + instance"))
same("ed-arith2", (MU, "out_id = int(tmp_id + str(num_inst).zfill(3))", "out_id = int(present_cat) * 1000 + num_inst"))
same("ed-setd", (LP, """        if _label not in label_inst.keys():
            label_inst[_label] = [_inst]
        else:
            label_inst[_label].append(_inst)
""", """        label_inst.setdefault(_label, []).append(_inst)
"""))
same("ed-notin", (LP, """        if _label not in label_inst.keys():
            label_inst[_label] = [_inst]
        else:
            label_inst[_label].append(_inst)
""", """        if _label in label_inst:
            label_inst[_label].append(_inst)
        else:
            label_inst[_label] = [_inst]
"""))
same("ed-merge", (LP, """        if label in ignore_indices:
            continue

        # if there are no class labels in the mask
        if not np.count_nonzero(m):
            continue

        edge = mask2bdry""", """        if label in ignore_indices or not m.any():
            continue

        edge = mask2bdry"""))
same("ed-nest", (LP, """        if label in ignore_indices:
            continue

        # if there are no class labels in the mask
        if not np.count_nonzero(m):
            continue

        edge = mask2bdry(
            mask=m,
            ignore_mask=ignore_mask,
            radius=radius,
            use_cv2=use_cv2,
            quality=quality,
            internal_only=internal_only,
        )

        # thin the boundaries
        if thin:
            edge = binary_thin(edge).astype(np.uint8)

        edges[label] = edge
""", """        if label not in ignore_indices and np.count_nonzero(m) > 0:
            edge = mask2bdry(m, ignore_mask, radius, internal_only, use_cv2, quality)
            edges[label] = binary_thin(edge).astype(np.uint8) if thin else edge
"""))
same("ed-helper", (LP, """def loop_mask2edge(""", """def _ignore(mask, ignore_indices):
    _, h, w = mask.shape
    out = np.zeros((h, w), dtype=np.uint8)
    for i in ignore_indices:
        out += mask[i]
    return out


def loop_mask2edge("""), (LP, """    ignore_mask = np.zeros((h, w), dtype=np.uint8)
    for i in ignore_indices:
        ignore_mask += mask[i]

    edges =""", """    ignore_mask = _ignore(mask, ignore_indices)

    edges ="""))
same("ed-enum", (LP, "    for label in range(num_labels):\n        m = mask[label]\n", "    for label, m in enumerate(mask):\n"))
same("ed-initkw", (MP, "    for k, v in data_dict.items():\n        var_dict[k] = v", "    var_dict.update(data_dict)"))
same("ed-initg", (MP, "    for k, v in data_dict.items():\n        var_dict[k] = v", "    global var_dict\n    var_dict = dict(data_dict)"))
bug("bd-ge", "C17", (DT, "    dist = outer + inner\n\n    dist[dist > radius] = 0\n    dist = (dist > 0).astype(np.uint8)\n    return dist\n\n\ndef _sc", "    dist = outer + inner\n\n    dist[dist >= radius] = 0\n    dist = (dist > 0).astype(np.uint8)\n    return dist\n\n\ndef _sc"))
bug("bd-ign", "C17", (DT, "outer = _scipy_distance(1.0 - m)", "outer = _scipy_distance((1.0 - m + ignore_mask) > 0)"))
bug("bd-l1", "C17", (DT, "((m + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2", "((m + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L1"))
bug("bd-half", "C17", (DT, "    dist = outer + inner\n", "    dist = outer\n"))
bug("bd-int", "C17", (DT, "    inner[mask == 0] = 0  # ignored pixels are not inside the mask\n", ""))
bug("bd-sw", "C17", (DT, "inner = _scipy_distance((m + ignore_mask) > 0)", "inner = _scipy_distance(m > 0)"))
bug("bd-q", "C17", (DT, "            quality=quality,\n        )\n    else:", "            quality=3,\n        )\n    else:"))
bug("bd-max", "C17", (DT, "    dist = outer + inner\n", "    dist = np.maximum(outer, inner)\n"))
same("bd-and", (DT, "    dist = outer + inner\n\n    dist[dist > radius] = 0\n    dist = (dist > 0).astype(np.uint8)\n    return dist\n\n\ndef _sc", "    dist = outer + inner\n    return np.logical_and(dist > 0, dist <= radius).astype(np.uint8)\n\n\ndef _sc"))
same("bd-where", (DT, "    dist = outer + inner\n\n    dist[dist > radius] = 0\n    dist = (dist > 0).astype(np.uint8)\n    return dist\n\n\ndef _sc", "    dist = outer + inner\n    dist = np.where(dist > radius, 0, dist)\n    return (dist > 0).astype(np.uint8)\n\n\ndef _sc"))
same("bd-help", (DT, "    dist = outer + inner\n\n    dist[dist > radius] = 0\n    dist = (dist > 0).astype(np.uint8)\n    return dist\n\n\ndef _sc", "    return _clip_band(outer + inner, radius)\n\n\ndef _clip_band(dist, radius):\n    dist[dist > radius] = 0\n    return (dist > 0).astype(np.uint8)\n\n\ndef _sc"))
same("bd-eq", (DT, "((1.0 - m) > 0).astype(np.uint8)", "(m == 0).astype(np.uint8)"))
same("bd-or", (DT, "_scipy_distance((m + ignore_mask) > 0)\n    outer", "_scipy_distance((m > 0) | (ignore_mask > 0))\n    outer"))
bug("lr-255", "C31", (CF, "255 * np.ones((h, w)", "0 * np.ones((h, w)"))
bug("lr-chain", "C31", (CF, "idx = mask == labelId\n        trainId_mask", "idx = trainId_mask == labelId\n        trainId_mask"))
bug("lr-sum", "C31", (CF, "np.sum(edges, axis=0) > 0", "np.sum(edges, axis=0) > 1"))
bug("lr-ax", "C31", (CF, "np.sum(edges, axis=0) > 0", "np.sum(edges, axis=1) > 0"))
bug("lr-er", "C31", (CF, "edges_trainIds[trainId] = edge[labelId, ...]", "edges_trainIds[labelId] = edge[trainId, ...]"))
same("lr-any", (CF, "(np.sum(edges, axis=0) > 0).astype(np.uint8)", "np.any(edges, axis=0).astype(np.uint8)"))
same("lr-max", (CF, "(np.sum(edges, axis=0) > 0).astype(np.uint8)", "(edges.max(axis=0) > 0).astype(np.uint8)"))
same("lr-full", (CF, "255 * np.ones((h, w), dtype=np.uint8)", "np.full((h, w), 255, dtype=np.uint8)"))
same("lr-stack", (CF, "    _mask = [mask == i for i in labels]\n    return np.array(_mask).astype(np.uint8)", "    return np.stack([(mask == i).astype(np.uint8) for i in labels])"))
same("lr-loop", (CF, "    _mask = [mask == i for i in labels]\n    return np.array(_mask).astype(np.uint8)", "    _mask = []\n    for i in labels:\n        _mask.append(mask == i)\n    return np.array(_mask, dtype=np.uint8)"))
same("lr-alloc", (CF, "    _mask = [mask == i for i in labels]\n    return np.array(_mask).astype(np.uint8)", "    out = np.zeros((len(labels),) + mask.shape, dtype=np.uint8)\n    for k, i in enumerate(labels):\n        out[k] = mask == i\n    return out"))
same("lr-er2", (CF, "edges_trainIds[trainId] = edge[labelId, ...]", "edges_trainIds[trainId, :, :] = edge[labelId]"))
same("lr-shape", (CF, "    _, h, w = edge.shape\n", "    h, w = edge.shape[1:]\n"))

# ---------------------------------------------------------------- C27
TH = "pyEdgeEval/common/utils.py"
LIN = """        thresholds = np.linspace(
            1.0 / (thresholds + 1), 1.0 - 1.0 / (thresholds + 1), thresholds
        )"""
bug("th-01", "C27", (TH, LIN, "        thresholds = np.linspace(0, 1, thresholds)"))
bug("th-n", "C27", (TH, LIN, "        thresholds = np.linspace(1.0 / thresholds, 1.0 - 1.0 / thresholds, thresholds)"))
bug("th-end", "C27", (TH, LIN, "        thresholds = np.linspace(1.0 / (thresholds + 1), 1.0 - 1.0 / (thresholds + 1), thresholds, endpoint=False)"))
bug("th-sort", "C27", (TH, "        thresholds = np.array(thresholds)\n", "        thresholds = np.sort(np.array(thresholds))\n"))
bug("th-uniq", "C27", (TH, "        thresholds = np.array(thresholds)\n", "        thresholds = np.unique(thresholds)\n"))
bug("th-ndim", "C27", (TH, "if thresholds.ndim != 1:", "if thresholds.ndim > 2:"))
bug("th-ndim0", "C27", (TH, "if thresholds.ndim != 1:", "if thresholds.ndim > 1:"))
bug("th-tuple", "C27", (TH, "isinstance(thresholds, list)", "isinstance(thresholds, (list, tuple))"))
bug("th-round", "C27", (TH, "thresholds = np.array([thresholds])", "thresholds = np.array([round(thresholds, 2)])"))
bug("th-clip", "C27", (TH, "        # already an array\n        pass", "        thresholds = np.clip(thresholds, 0, 1)"))
same("th-arange", (TH, LIN, "        n = thresholds\n        thresholds = np.arange(1, n + 1) / (n + 1)"))
same("th-in", (TH, LIN, "        thresholds = np.linspace(0, 1, thresholds + 2)[1:-1]"))
same("th-comp", (TH, LIN, "        n = thresholds\n        thresholds = np.array([k / (n + 1) for k in range(1, n + 1)])"))
same("th-help", (TH, LIN, "        step = 1.0 / (thresholds + 1)\n        thresholds = np.linspace(step, thresholds * step, thresholds)"))
same("th-early", (TH, "    elif isinstance(thresholds, float):\n        # single specific threshold\n        thresholds = np.array([thresholds])\n    elif isinstance(thresholds, list):", "    elif isinstance(thresholds, float):\n        return np.array([thresholds])\n    elif isinstance(thresholds, list):"))
same("th-asarr", (TH, "        thresholds = np.array(thresholds)\n", "        thresholds = np.asarray(thresholds, dtype=float)\n"))
same("th-merge", (TH, "    elif isinstance(thresholds, float):\n        # single specific threshold\n        thresholds = np.array([thresholds])\n    elif isinstance(thresholds, list):\n        # multiple specific thresholds\n        thresholds = np.array(thresholds)\n", "    elif isinstance(thresholds, (float, list)):\n        thresholds = np.array(thresholds if isinstance(thresholds, list) else [thresholds])\n"))
for _m, _f in (("b", "pyEdgeEval/common/binary_label/calculate_metrics.py"), ("m", "pyEdgeEval/common/multi_label/calculate_metrics.py")):
    bug(f"th-late-{_m}", "C27", (_f, "    thresholds = check_thresholds(thresholds)\n", "    thrs = thresholds\n    thresholds = check_thresholds(thresholds)\n"), (_f, "eval_single=eval_single,\n", "eval_single=eval_single,\n")) if False else None

# ---------------------------------------------------------------- C21
CPX = "pyEdgeEval/_lib/correspond_pixels.pyx"
NMX = "pyEdgeEval/_lib/nms.pyx"
bug("nx-diag", "C21", (CPX, "math.sqrt(rows * rows + cols * cols)", "math.sqrt(rows * cols + cols * cols)"))
bug("nx-sum", "C21", (CPX, "math.sqrt(rows * rows + cols * cols)", "rows + cols"))
bug("nx-tol", "C21", (CPX, "matchEdgeMaps(i0, i1, max_dist * idiag,", "matchEdgeMaps(i0, i1, max_dist,"))
bug("nx-swap", "C21", (CPX, "matchEdgeMaps(i0, i1,", "matchEdgeMaps(i1, i0,"))
bug("nx-out", "C21", (CPX, "return o0, o1, cost, oc", "return o1, o0, cost, oc"))
bug("nx-shape", "C21", (CPX, "if img0.shape != img1.shape:", "if img0.size != img1.size:"))
bug("nx-shape0", "C21", (CPX, "if img0.shape != img1.shape:", "if img0.shape[0] != img1.shape[0]:"))
bug("nx-rc", "C21", (CPX, "cdef Matrix i1 = Matrix(rows, cols)", "cdef Matrix i1 = Matrix(cols, rows)"))
bug("nx-i1", "C21", (CPX, "i1_view[:,:] = img1[:,:]", "i1_view[:,:] = img0[:,:]"))
bug("nx-corder", "C21", (CPX, "cdef double[::1,:] i1_view = <double[:img1.shape[0]:1,:img1.shape[1]]>i1.data()", "cdef double[:,::1] i1_view = <double[:img1.shape[0],:img1.shape[1]:1]>i1.data()"))
bug("nx-m0", "C21", (CPX, "out1[:,:] = o1_view[:,:]", "out1[:,:] = o0_view[:,:]"))
bug("nx-nms-sh", "C21", (NMX, "    if edge.shape != ori.shape:", "    if edge.ndim != ori.ndim:"))
bug("nx-nms-swap", "C21", (NMX, "benms(mout, medge, mori, r, s, m)", "benms(mout, medge, mori, s, r, m)"))
bug("nx-nms-ori", "C21", (NMX, "benms(mout, medge, mori, r, s, m)", "benms(mout, mori, medge, r, s, m)"))
bug("nx-nms-int", "C21", (NMX, "_m = float(m)", "_m = 1.01"))
same("nx-hyp", (CPX, "math.sqrt(rows * rows + cols * cols)", "math.hypot(rows, cols)"))
same("nx-pow", (CPX, "math.sqrt(rows * rows + cols * cols)", "(rows ** 2 + cols ** 2) ** 0.5"))
same("nx-two", (CPX, "    if img0.shape != img1.shape:", "    if img0.ndim != 2 or img1.ndim != 2:\n        raise ValueError('2-D')\n    if img0.shape[0] != img1.shape[0] or img0.shape[1] != img1.shape[1]:"))
same("nx-asf", (CPX, "i0 = img0.astype('float64').copy(order='F')", "i0 = np.array(img0, dtype='float64', order='F')"))
same("nx-ren", (CPX, "    cdef double cost = matchEdgeMaps(i0, i1, max_dist * idiag, oc, m0, m1)", "    cdef double tol = idiag * max_dist\n    cdef double cost = matchEdgeMaps(i0, i1, tol, oc, m0, m1)"))
same("nx-zer", (NMX, "_out = np.zeros_like(_edge, order='F')", "_out = np.zeros(edge.shape, dtype='float64', order='F')"))

# ---------------------------------------------------------------- C34
FN = "pyEdgeEval/preprocess/nms/fast_nms.py"
TB = "pyEdgeEval/preprocess/nms/toolbox.py"
bug("np-r1", "C34", (FN, "edge = conv_tri(img, 1)", "edge = conv_tri(img, 2)"))
bug("np-r4", "C34", (FN, "grad2(conv_tri(edge, 4))", "grad2(conv_tri(img, 4))"))
bug("np-r5", "C34", (FN, "grad2(conv_tri(edge, 4))", "grad2(conv_tri(edge, 5))"))
bug("np-255", "C34", (FN, "    edge = conv_tri(img, 1)\n", "    if img.max() > 1:\n        img = img / 255.0\n    edge = conv_tri(img, 1)\n"))
bug("np-xy", "C34", (FN, "oxy, oyy = grad2(oy)", "oyy, oxy = grad2(oy)"))
bug("np-sign", "C34", (FN, "np.sign(-oxy)", "np.sign(oxy)"))
bug("np-zero", "C34", (FN, "    oxx[np.where(oxx == 0)] = 1e-5\n", "    oxx = oxx + 1e-5\n"))
bug("np-zero2", "C34", (FN, "    oxx[np.where(oxx == 0)] = 1e-5\n", "    oxx[np.where(oxx == 0)] = 0\n"))
bug("np-kw", "C34", (FN, "r=r, s=s, m=m)\n\n    if return", "r=r, s=s, m=1.01)\n\n    if return"))
bug("np-raw", "C34", (FN, "out = nms(edge, ori,", "out = nms(img, ori,"))
bug("np-mode", "C34", (TB, 'mode="symmetric"', 'mode="reflect"'))
bug("np-same", "C34", (TB, 'f.T, "valid"', 'f.T, "same"'))
bug("np-norm", "C34", (TB, "/ (r + 1) ** 2", "/ (r * r + 2 * r)"))
bug("np-tri", "C34", (TB, "list(range(r, 0, -1))", "list(range(r + 1, 1, -1))"))
bug("np-g2", "C34", (TB, "    oy, ox = np.gradient(image)", "    ox, oy = np.gradient(image)"))
bug("np-pad", "C34", (TB, "((r, r), (r, r))", "((r, r), (1, 1))"))
bug("np-u8", "C34", (FN, "if img.dtype == np.uint8:", "if img.dtype != np.float64:"))
same("np-mask", (FN, "    oxx[np.where(oxx == 0)] = 1e-5\n", "    oxx[oxx == 0] = 1e-5\n"))
same("np-where3", (FN, "    oxx[np.where(oxx == 0)] = 1e-5\n", "    oxx = np.where(oxx == 0, 1e-5, oxx)\n"))
same("np-help", (FN, "def fast_nms(", "def _orient(edge):\n    gx, gy = grad2(conv_tri(edge, 4))\n    gxx = grad2(gx)[0]\n    gxy, gyy = grad2(gy)\n    gxx[gxx == 0] = 1e-5\n    return np.mod(np.arctan(gyy * np.sign(-gxy) / gxx), np.pi)\n\n\ndef fast_nms("),
     (FN, "    ox, oy = grad2(conv_tri(edge, 4))\n    oxx, _ = grad2(ox)\n    oxy, oyy = grad2(oy)\n\n    # sometimes oxx + 1e-5 = 0, and causes true divide warnings\n    oxx[np.where(oxx == 0)] = 1e-5\n\n    val = oyy * np.sign(-oxy) / oxx\n    ori = np.mod(np.arctan(val), np.pi)\n", "    ori = _orient(edge)\n"))
same("np-clip", (FN, "        out = np.clip(out, 0, 1)\n", "        np.clip(out, 0, 1, out=out)\n"))
same("np-tri2", (TB, "np.array([list(range(1, r + 1)) + [r + 1] + list(range(r, 0, -1))])", "np.array([[r + 1 - abs(k) for k in range(-r, r + 1)]])"))
same("np-ker", (TB, "    f = f.astype(image.dtype)\n    image = np.pad(image, ((r, r), (r, r)), mode=\"symmetric\")\n", "    pad = ((r, r), (r, r))\n    image = np.pad(image, pad, \"symmetric\")\n    f = f.astype(image.dtype)\n"))
same("np-mod", (FN, "np.mod(np.arctan(val), np.pi)", "np.arctan(val) % np.pi"))
same("np-g3", (TB, "    oy, ox = np.gradient(image)\n    return ox, oy", "    g = np.gradient(image)\n    return g[1], g[0]"))
same("np-inv", (FN, "    assert (img.dtype == np.float64) or (\n        img.dtype == np.float32\n    ), f", "    assert img.dtype in (np.float64, np.float32), f"))
same("np-ref", (TB, "    assert image.ndim == 2\n", "    if image.ndim != 2:\n        raise ValueError('2-D only')\n"))
same("np-two", (TB, "    image = signal.convolve2d(\n        signal.convolve2d(image, f, \"valid\"), f.T, \"valid\"\n    )\n", "    rows = signal.convolve2d(image, f, mode=\"valid\")\n    image = signal.convolve2d(rows, f.T, mode=\"valid\")\n"))

# ---------------------------------------------------------------- C22
IB = "pyEdgeEval/common/binary_label/io.py"
IM = "pyEdgeEval/common/multi_label/io.py"
PR = "pyEdgeEval/visualization/pr_curve.py"
BV = "pyEdgeEval/common/binary_label/visualize.py"
bug("io-swap", "C22", (IB, '{thrs:<10.6f} {rec:<10.6f} {prec:<10.6f} {f1:<10.6f}\\n"\n    with open(file_path, "w") as f:\n        for res in threshold', '{thrs:<10.6f} {prec:<10.6f} {rec:<10.6f} {f1:<10.6f}\\n"\n    with open(file_path, "w") as f:\n        for res in threshold'))
bug("io-key", "C22", (IM, 'prec=res["precision"],\n                    f1=res["f1"],\n                )\n            )\n\n\ndef save_thr', 'prec=res["recall"],\n                    f1=res["f1"],\n                )\n            )\n\n\ndef save_thr'))
bug("io-ois", "C22", (IM, '                overall_metric["OIS_recall"],\n                overall_metric["OIS_precision"],\n', '                overall_metric["OIS_precision"],\n                overall_metric["OIS_recall"],\n'))
bug("io-ap", "C22", (IB, '                overall_metric["AUC"],\n                overall_metric["AP"],\n', '                overall_metric["AP"],\n                overall_metric["AUC"],\n'))
bug("io-glue", "C22", (IB, "{:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f}", "{:.6f} {:.6f} {:.6f} {:.6f} {:.6f} {:.6f} {:.6f}{:.6f} {:.6f}"))
bug("io-skip", "C22", (IB, "        for res in threshold_metrics:\n", "        for res in threshold_metrics[1:]:\n"))
bug("io-zero", "C22", (IM, "        for res in threshold_metrics:\n            f.write(", "        for res in threshold_metrics:\n            if res[\"f1\"] == 0:\n                continue\n            f.write("))
bug("io-file", "C22", (IM, "        save_threshold_metrics(cat_dir, threshold_metrics)", "        save_threshold_metrics(cat_dir, sample_metrics)"))
bug("io-dir", "C22", (IM, "    if overall_metric:\n        save_overall_metric(cat_dir, overall_metric)", "    if overall_metric:\n        save_overall_metric(root, overall_metric)"))
bug("io-x", "C22", (PR, "            prs[i][:, 1],\n            prs[i][:, 2],\n", "            prs[i][:, 2],\n            prs[i][:, 1],\n"))
bug("io-leg", "C22", (BV, "[F={:.2f}] {}\".format(res[i, 3]", "[F={:.2f}] {}\".format(res[i, 2]"))
bug("io-pr", "C22", (PR, "res[i, [3, 6, 8, 9]]", "res[i, [3, 6, 7, 9]]"))
bug("io-r50", "C22", (PR, "        pr[o, 2],\n        pr[o, 1],\n", "        pr[o, 1],\n        pr[o, 2],\n"))
bug("io-nl", "C22", (IB, "        for res in sample_metrics:\n            f.write(\n                tmp_line.format(", "        for res in sample_metrics:\n            f.write(\n                tmp_line.strip().format("))
same("io-f", (IB, '''            f.write(
                tmp_line.format(
                    thrs=res["threshold"],
                    rec=res["recall"],
                    prec=res["precision"],
                    f1=res["f1"],
                )
            )
''', '''            line = f"{res['threshold']:<10.6f} {res['recall']:<10.6f} {res['precision']:<10.6f} {res['f1']:<10.6f}"
            f.write(line + "\\n")
'''))
same("io-lines", (IM, '''    with open(file_path, "w") as f:
        for res in threshold_metrics:
            f.write(
                tmp_line.format(
                    thrs=res["threshold"],
                    rec=res["recall"],
                    prec=res["precision"],
                    f1=res["f1"],
                )
            )
''', '''    lines = [
        tmp_line.format(thrs=r["threshold"], rec=r["recall"], prec=r["precision"], f1=r["f1"])
        for r in threshold_metrics
    ]
    with open(file_path, "w") as f:
        f.writelines(lines)
'''))
same("io-keys", (IB, '''            "{:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f}".format(
                overall_metric["ODS_threshold"],
                overall_metric["ODS_recall"],
                overall_metric["ODS_precision"],
                overall_metric["ODS_f1"],
                overall_metric["OIS_recall"],
                overall_metric["OIS_precision"],
                overall_metric["OIS_f1"],
                overall_metric["AUC"],
                overall_metric["AP"],
            )
''', '''            " ".join(
                "{:<10.6f}".format(overall_metric[k])
                for k in ("ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1",
                          "OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP")
            )
'''))
same("io-help", (IM, "def save_sample_metrics(", "def _row(res):\n    return \"{:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f}\\n\".format(\n        res[\"threshold\"], res[\"recall\"], res[\"precision\"], res[\"f1\"]\n    )\n\n\ndef save_sample_metrics("),
     (IM, '''            f.write(
                tmp_line.format(
                    thrs=res["threshold"],
                    rec=res["recall"],
                    prec=res["precision"],
                    f1=res["f1"],
                )
            )
''', '''            f.write(_row(res))
'''))
same("io-print", (IB, '''            f.write(
                tmp_line.format(
                    name=res["name"],
                    thrs=res["threshold"],
                    rec=res["recall"],
                    prec=res["precision"],
                    f1=res["f1"],
                )
            )
''', '''            vals = "{:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f}".format(
                res["threshold"], res["recall"], res["precision"], res["f1"])
            print(res["name"], vals, file=f)
'''))
same("io-open", (IB, '''    with open(file_path, "w") as f:
        for res in sample_metrics:''', '''    with open(file_path, mode="w", encoding="utf-8") as f:
        for i in range(len(sample_metrics)):
            res = sample_metrics[i]'''))
same("io-join", (IM, '''    with open(file_path, "w") as f:
        for res in sample_metrics:
            f.write(
                tmp_line.format(
                    name=res["name"],
                    thrs=res["threshold"],
                    rec=res["recall"],
                    prec=res["precision"],
                    f1=res["f1"],
                )
            )
''', '''    text = ""
    for res in sample_metrics:
        text += "%s %10.6f %10.6f %10.6f %10.6f\\n" % (
            res["name"], res["threshold"], res["recall"], res["precision"], res["f1"])
    with open(file_path, "w") as f:
        f.write(text)
'''))
same("io-cols", (PR, "            prs[i][:, 1],\n            prs[i][:, 2],\n", "            *prs[i].T[1:3],\n"))
same("io-cols2", (PR, '''        hs[i] = ax.plot(
            prs[i][:, 1],
            prs[i][:, 2],
''', '''        recall, precision = prs[i][:, 1], prs[i][:, 2]
        hs[i] = ax.plot(
            recall,
            precision,
'''))
same("io-num", (BV, '''        prefix = "ODS={:.3f}, OIS={:.3f}, AP={:.3f}, R50={:.3f}".format(
            *res[i, [3, 6, 8, 9]]
        )
''', '''        prefix = f"ODS={res[i, 3]:.3f}, OIS={res[i, 6]:.3f}, AP={res[i, 8]:.3f}, R50={res[i, 9]:.3f}"
'''))
same("io-zip", (PR, '''        "[F={:.2f}] {}".format(res[i, 3], names[i]) for i in range(n)
''', '''        "[F={:.2f}] {}".format(f, nm) for f, nm in zip(res[:, 3], names)
'''))

# ---- spellings of the AP maximum
same("me-ap-any", (CB, """        p = np.max(prec_overall[_r], initial=0)
""", """        if np.any(_r):
            p = np.max(prec_overall[_r])
        else:
            p = 0
"""))
same("me-ap-flat", (CB, """        _r = rec_overall >= t
        p = np.max(prec_overall[_r], initial=0)
""", """        hits = np.flatnonzero(rec_overall >= t)
        p = prec_overall[hits].max() if hits.size else 0
"""))
same("me-ap-flat2", (CB, """        _r = rec_overall >= t
        p = np.max(prec_overall[_r], initial=0)
""", """        hits = np.flatnonzero(rec_overall >= t)
        if len(hits) == 0:
            continue
        p = max(prec_overall[hits])
"""))
same("me-ap-py", (CB, """        _r = rec_overall >= t
        p = np.max(prec_overall[_r], initial=0)
""", """        p = max([prec_overall[k] for k in range(n_thresh) if rec_overall[k] >= t], default=0)
"""))
same("me-ap-where", (CB, """        _r = rec_overall >= t
        p = np.max(prec_overall[_r], initial=0)
""", """        p = np.max(np.where(rec_overall >= t, prec_overall, 0))
"""))

# ------------------------------------------------------------------ evaluation jobs
EVC = "pyEdgeEval/evaluators/cityscapes.py"
EVH = "pyEdgeEval/evaluators/half_cityscapes.py"
EVO = "pyEdgeEval/evaluators/otf_cityscapes.py"
EVS_ = "pyEdgeEval/evaluators/sbd.py"
EVB = "pyEdgeEval/evaluators/bsds.py"
EVBASE = "pyEdgeEval/evaluators/base.py"
DC = "pyEdgeEval/datasets/cityscapes.py"
DS = "pyEdgeEval/datasets/sbd.py"
DO = "pyEdgeEval/datasets/otf_cityscapes.py"
DB = "pyEdgeEval/datasets/bsds.py"
DEC = "pyEdgeEval/common/multi_label/edge_decoding.py"
HC = "pyEdgeEval/helpers/evaluate_cityscapes.py"
HS = "pyEdgeEval/helpers/evaluate_sbd.py"
HB = "pyEdgeEval/helpers/evaluate_bsds500.py"
IOM = "pyEdgeEval/common/multi_label/io.py"

bug("jo-cat-off", "C10", (DC, "cat_idx = category - 1", "cat_idx = category % num_classes"))
bug("jo-cat-seg", "C10", (DC, "cat_seg = seg == cat_idx", "cat_seg = seg == category"))
bug("jo-sbd-seg", "C10", (DS, "cat_seg = seg == category", "cat_seg = seg == cat_idx"))
bug("jo-otf-label", "C10", (DO, "label = CITYSCAPES_trainId2label[cat_idx]", "label = CITYSCAPES_labelIds[7 + cat_idx]"))
bug("jo-dir-zfill", "C10", (EVC, "class_{str(category).zfill(3)}", "class_{str(category).zfill(2)}"))
bug("jo-savedir", "C10", (IOM, '"class_" + str(category).zfill(3)', '"class_" + str(category - 1).zfill(3)'))
bug("jo-names-swap", "C10", (EVC, '        "motorcycle",\n        "bicycle",\n', '        "bicycle",\n        "motorcycle",\n'))
bug("jo-preset-tol", "C12", (EVC, "self.max_dist = 0.02\n", "self.max_dist = max_dist\n"))
bug("jo-preset-half", "C12", (EVH, "            else:\n                self.instance_sensitive = False\n                self.kill_internal = True\n", "            else:\n                self.instance_sensitive = False\n                self.kill_internal = kill_internal\n"))
bug("jo-preset-scale", "C12", (EVH, "scale=1,  #", "scale=0.5,  #"))
bug("jo-preset-reanno", "C12", (EVS_, "        self.kill_internal = False\n        self.skip_if_nonexistent = False\n        self.instance_sensitive = instance_sensitive\n", "        self.kill_internal = not instance_sensitive\n        self.skip_if_nonexistent = False\n        self.instance_sensitive = instance_sensitive\n"))
bug("jo-opt-nms", "C13", (HC, "        apply_nms=args.apply_nms,\n        thresholds=args.thresholds,\n        half=True", "        apply_nms=False,\n        thresholds=args.thresholds,\n        half=True"))
bug("jo-opt-dist", "C13", (HC, "        max_dist=max_dist,\n        instance_sensitive", "        instance_sensitive"))
bug("jo-opt-scaleint", "C13", (HC, '        "--max-dist",\n        type=float,', '        "--max-dist",\n        type=int,'))
bug("jo-opt-range", "C13", (HC, "0 < cat < 20\n", "0 < cat < 19\n"))
bug("jo-opt-cats", "C13", (HC, 'categories = [int(categories)]', 'categories = list(range(1, int(categories) + 1))'))
bug("jo-opt-thin", "C13", (DC, "        apply_thinning=apply_thinning,\n", "        apply_thinning=apply_thinning and not kill_internal,\n"))
bug("jo-opt-m", "C13", (DS, "m=1.01", "m=1.1"))
bug("jo-file-is", "C14", (EVC, 'f"{sample_name}{self.ISEDGE_SUFFIX}"', 'f"{sample_name}{self.EDGE_SUFFIX}"'))
bug("jo-file-thin", "C14", (EVS_, "self.ISEDGE_SUFFIX = self.THIN_ISEDGE_SUFFIX", "self.ISEDGE_SUFFIX = self.RAW_ISEDGE_SUFFIX"))
bug("jo-file-seg", "C14", (EVC, '                f"{sample_name}{self.SEG_SUFFIX}"', '                f"{self.sample_names[0]}{self.SEG_SUFFIX}"'))
bug("jo-file-sort", "C14", (EVC, "for sample_name in self.sample_names:\n", "for sample_name in sorted(set(self.sample_names)):\n"))
bug("jo-grid-swap", "C15", (DEC, "edge = edge.resize((width, height)", "edge = edge.resize((height, width)"))
bug("jo-grid-bil", "C15", (DC, "pred = pred.resize((width, height), Image.Resampling.NEAREST)", "pred = pred.resize((width, height), Image.Resampling.BILINEAR)"))
bug("jo-grid-trunc", "C15", (DO, "height, width = int(h * scale + 0.5), int(w * scale + 0.5)", "height, width = int(h * scale), int(w * scale)"))
bug("jo-grid-255", "C15", (DS, "pred = (pred / 255).astype(float)", "pred = (pred / 256).astype(float)"))
bug("jo-grid-bsds", "C15", (DB, "return img_as_float(img)", "return img_as_float(img) / 255"))
bug("jo-refuse-scale", "C24", (EVS_, "assert 0 < scale <= 1, f\"ERR: scale ({scale}) is not valid\"", "assert 0 < scale, f\"ERR: scale ({scale}) is not valid\""))
bug("jo-refuse-cat", "C24", (EVC, "0 < category < len(self.CLASSES) + 1\n", "0 < category <= len(self.CLASSES) + 1\n"))
bug("jo-refuse-seg", "C24", (EVS_, "            assert osp.exists(seg_path), f\"ERR: {seg_path} is not valid\"\n", ""))
bug("jo-refuse-pre", "C24", (EVH, "            assert (\n                not instance_sensitive\n            ), \"Pre-SEAL configuration doesn't support instance sensitive edges\"\n", ""))
bug("jo-refuse-split", "C24", (EVC, 'assert split in ("val", "test")', 'assert split in ("val", "test", "train")'))
bug("jo-refuse-gt", "C24", (EVB, "            assert osp.exists(gt_path), f\"ERR: {gt_path} is not valid\"\n", "            assert osp.exists(gt_path) or save_dir, f\"ERR: {gt_path} is not valid\"\n"))
bug("jo-multi-mean", "C28", (EVBASE, "np.round(np.nanmean(ret_metric_value), 6)", "np.round(np.mean(ret_metric_value), 6)"))
bug("jo-multi-mean2", "C28", (EVBASE, "np.round(np.nanmean(ret_metric_value) * 100, 3)", "np.round(np.nansum(ret_metric_value) / len(self.CLASSES) * 100, 3)"))
bug("jo-multi-name", "C28", (EVBASE, "self.CLASSES[i - 1] for i in categories", "self.CLASSES[i - 1] for i in sorted(categories)"))
bug("jo-multi-thr", "C28", (EVBASE, '{"ODS_threshold": np.round(np.array(ret_thresholds), 2)}', '{"ODS_threshold": np.round(np.array(ret_thresholds) * 100, 2)}'))
bug("jo-multi-all", "C28", (EVBASE, "list(range(1, len(self.CLASSES) + 1))", "list(range(1, len(self.CLASSES)))"))
bug("jo-multi-dir", "C28", (EVBASE, "                save_dir=save_dir,\n            )\n            for", "                save_dir=None,\n            )\n            for"))
bug("jo-multi-swap", "C28", (EVBASE, "                class_table=class_table_data.get_string(),\n                summary_table=summary_table_data.get_string(),", "                class_table=class_table_data.get_string(),\n                summary_table=class_table_data.get_string(),"))
bug("jo-multi-over", "C28", (EVBASE, "                if k in ret_metrics.keys():\n                    ret_metrics[k].append(v)", "                if k in ret_metrics.keys() and v not in ret_metrics[k]:\n                    ret_metrics[k].append(v)"))

same("jo-helper-path", (EVC, '''            if self.instance_sensitive:
                edge_path = osp.join(
                    self.gtEval_root,
                    f"{sample_name}{self.ISEDGE_SUFFIX}",
                )
            else:
                edge_path = osp.join(
                    self.gtEval_root,
                    f"{sample_name}{self.EDGE_SUFFIX}",
                )
''', '''            edge_path = self._edge_path(sample_name)
'''), (EVC, '''    def evaluate_category(
''', '''    def _edge_path(self, name):
        suffix = self.ISEDGE_SUFFIX if self.instance_sensitive else self.EDGE_SUFFIX
        return osp.join(self.gtEval_root, name + suffix)

    def evaluate_category(
'''))
same("jo-hoist-dir", (EVC, '''        data = []
        for sample_name in self.sample_names:

            # FIXME: naming scheme differs sometimes
            category_dir = f"class_{str(category).zfill(3)}"
''', '''        data = []
        category_dir = "class_{:03d}".format(category)
        for idx in range(len(self.sample_names)):
            sample_name = self.sample_names[idx]
'''))
same("jo-comp", (EVB, '''            data.append(
                dict(
                    name=sample_name,
                    thresholds=thresholds,
                    gt_path=gt_path,
                    pred_path=pred_path,
                    **self.eval_params,
                )
            )
''', '''            sample = {"name": sample_name, "thresholds": thresholds}
            sample.update(gt_path=gt_path, pred_path=pred_path)
            sample.update(self.eval_params)
            data.append(sample)
'''))
same("jo-listcomp", (EVB, '''        data = []
        for sample_name in self.sample_names:
''', '''        data = []
        params = self.eval_params
        names = list(self.sample_names)
        for sample_name in names:
'''), (EVB, "**self.eval_params", "**params"))
same("jo-fdirs", (EVC, 'f"class_{str(category).zfill(3)}"', 'f"class_{category:03d}"'))
same("jo-isfile", (EVC, "assert osp.exists(edge_path)", "assert osp.isfile(edge_path)"))
same("jo-raise", (EVC, '''        assert (
            0 < category < len(self.CLASSES) + 1
        ), f"ERR: category={category} is not in range ({len(self.CLASSES) + 1})"
''', '''        if category < 1 or category > len(self.CLASSES):
            raise ValueError(f"ERR: category={category} is not in range")
'''))
same("jo-catrange", (EVS_, "0 < category < len(self.CLASSES) + 1\n", "1 <= category <= len(self.CLASSES)\n"))
same("jo-catrange2", (EVS_, "0 < category < len(self.CLASSES) + 1\n", "category in range(1, len(self.CLASSES) + 1)\n"))
same("jo-preset-collapse", (EVC, '''            if instance_sensitive:
                # instance-sensitive
                self.instance_sensitive = True
                self.kill_internal = False
                self.skip_if_nonexistent = False
            else:
                self.instance_sensitive = False
                self.kill_internal = True
                self.skip_if_nonexistent = True
''', '''            self.instance_sensitive = bool(instance_sensitive)
            self.kill_internal = self.skip_if_nonexistent = not instance_sensitive
'''))
same("jo-super", (EVH, '''        self.apply_thinning = apply_thinning
        self.apply_nms = apply_nms

        if eval_mode == "pre-seal":''', '''        self.apply_nms = apply_nms
        self.apply_thinning = apply_thinning
        is_pre = eval_mode == "pre-seal"
        if is_pre:'''))
same("jo-half-super", (EVH, '''        return dict(
            scale=1,  # don't tamper with scale since we're using half scale already
            apply_thinning=self.apply_thinning,
            apply_nms=self.apply_nms,
            max_dist=self.max_dist,
            kill_internal=self.kill_internal,
            skip_if_nonexistent=self.skip_if_nonexistent,
            num_classes=len(self.CLASSES),
        )''', '''        params = dict(
            apply_thinning=self.apply_thinning,
            apply_nms=self.apply_nms,
            max_dist=self.max_dist,
            kill_internal=self.kill_internal,
        )
        params["scale"] = 1.0
        params["num_classes"] = len(self.CLASSES)
        params["skip_if_nonexistent"] = self.skip_if_nonexistent
        return params'''))
same("jo-reanno-super", (EVS_, '''        self.dataset_root = dataset_root
        self.pred_root = pred_root

        assert split in ("val", "test")
        self.split = split
        self.thin = thin
        if self.thin:
            print_log(
                "Using `thin` mode; setting the suffix respectively",
                logger=self._logger,
            )
            self.EDGE_SUFFIX = self.THIN_EDGE_SUFFIX
            self.ISEDGE_SUFFIX = self.THIN_ISEDGE_SUFFIX
        else:
            print_log(
                "Using `raw` mode; setting the suffix respectively",
                logger=self._logger,
            )
            self.EDGE_SUFFIX = self.RAW_EDGE_SUFFIX
            self.ISEDGE_SUFFIX = self.RAW_ISEDGE_SUFFIX
''', '''        if split not in ("val", "test"):
            raise AssertionError(split)
        self.dataset_root, self.pred_root = dataset_root, pred_root
        self.split = split
        self.thin = thin
        self.EDGE_SUFFIX = self.THIN_EDGE_SUFFIX if thin else self.RAW_EDGE_SUFFIX
        self.ISEDGE_SUFFIX = (
            self.THIN_ISEDGE_SUFFIX if thin else self.RAW_ISEDGE_SUFFIX
        )
'''))
same("jo-cli-helper", (HC, '''    for cat in categories:
        assert (
            0 < cat < 20
        ), f"category needs to be between 1 ~ 19, but got {cat}"
''', '''    n_classes = len(CityscapesEvaluator.CLASSES)
    assert all(
        1 <= cat <= n_classes for cat in categories
    ), f"category needs to be between 1 ~ {n_classes}"
'''))
same("jo-cli-thr", (HC, '''        n_thresholds = int(thresholds)
        thresholds = n_thresholds
''', '''        thresholds = int(thresholds)
'''))
same("jo-cli-map", (HC, '''                    categories = [
                        int(cat.strip()) for cat in categories.split(",")
                    ]
''', '''                    categories = list(map(int, categories.split(",")))
'''))
same("jo-cli-params", (HC, '''    evaluator.set_eval_params(
        eval_mode=eval_mode,
        scale=scale,
        apply_thinning=apply_thinning,
        apply_nms=apply_nms,
        max_dist=max_dist,
        instance_sensitive=instance_sensitive,
    )
''', '''    params = dict(
        eval_mode=eval_mode,
        apply_thinning=apply_thinning,
        apply_nms=apply_nms,
        max_dist=max_dist,
        instance_sensitive=instance_sensitive,
    )
    if not half:
        params["scale"] = scale
    evaluator.set_eval_params(**params)
'''))
same("jo-cli-vars", (HC, '''    evaluate(
        gt_dir=gt_dir,
        cityscapes_path=args.cityscapes_path,
        pred_path=args.pred_path,
        output_path=args.output_path,
        categories=args.categories,
        thin=True,
        pre_seal=args.pre_seal,
        nonIS=args.nonIS,
        max_dist=args.max_dist,
        scale=0.5,  # doesn't matter since we're using half
        apply_thinning=True,  # apply thinning on preds
        apply_nms=args.apply_nms,
        thresholds=args.thresholds,
        half=True,  # use HalfCityscapesEvaluator
        nproc=args.nproc,
    )
''', '''    options = vars(args)
    evaluate(
        gt_dir=gt_dir, thin=True, scale=0.5, apply_thinning=True, half=True, **options
    )
'''))
same("jo-ds-reorder", (DC, '''    # load gt edge
    edge, (height, width) = load_scaled_edge(edge_path, scale)
    edge = decode_png(edge, num_classes)
    cat_idx = category - 1
    cat_edge = edge[cat_idx, :, :]
''', '''    cat_idx = category - 1
    gt_image, size = load_scaled_edge(edge_path, scale)
    height, width = size
    edge = decode_png(gt_image, num_classes)
    cat_edge = edge[cat_idx]
'''))
same("jo-ds-helper", (DC, '''    pred = Image.open(pred_path)
    pred = pred.resize((width, height), Image.Resampling.NEAREST)
    pred = np.array(pred)
    pred = (pred / 255).astype(float)
''', '''    pred = _load(pred_path, width, height) / 255.0
'''), (DC, '''        seg = Image.open(seg_path)
        seg = seg.resize((width, height), Image.Resampling.NEAREST)
        seg = np.array(seg)
''', '''        seg = _load(seg_path, width, height)
'''), (DC, '''def _evaluate_single(
''', '''def _load(path, width, height):
    with Image.open(path) as im:
        return np.array(im.resize((width, height), resample=Image.Resampling.NEAREST))


def _evaluate_single(
'''))
same("jo-ds-return", (DC, '''    count_r, sum_r, count_p, sum_p = evaluate_boundaries_threshold(''', '''    result = evaluate_boundaries_threshold('''),
     (DC, "    return count_r, sum_r, count_p, sum_p\n", "    return result\n"))
same("jo-ds-nms", (DC, '''        nms_kwargs=dict(
            r=1,
            s=5,
            m=1.01,
            half_prec=False,
        ),
''', '''        nms_kwargs={"r": 1, "s": 5, "m": 1.01, "half_prec": False},
'''))
same("jo-ds-segnone", (DC, '''    else:
        cat_seg = None

''', ""), (DC, "    if kill_internal:\n", "    cat_seg = None\n    if kill_internal:\n"))
same("jo-otf-inv", (DO, "CITYSCAPES_trainId2label = {v: k for k, v in CITYSCAPES_label2trainId.items()}", "CITYSCAPES_trainId2label = dict(\n    zip(CITYSCAPES_label2trainId.values(), CITYSCAPES_label2trainId.keys())\n)"))
same("jo-otf-round", (DO, "height, width = int(h * scale + 0.5), int(w * scale + 0.5)", "width, height = [int(n * scale + 0.5) for n in (w, h)]"))
same("jo-otf-iid", (DO, "iid = int(str(label) + str(instance).zfill(3))", "iid = label * 1000 + instance"))
same("jo-otf-defaultdict", (DO, '''        if _label not in label_inst.keys():
            label_inst[_label] = [_inst]
        else:
            label_inst[_label].append(_inst)
''', '''        label_inst.setdefault(_label, []).append(_inst)
'''))
same("jo-otf-get", (DO, '''    if label in label_inst.keys():
        instances = label_inst[label]  # list
        for instance in instances:
            iid = int(str(label) + str(instance).zfill(3))
            _mask = inst_mask == iid
            edge = edge | mask2bdry(
                mask=_mask,
                ignore_mask=ignore_mask,
                **args,
            )
''', '''    for instance in label_inst.get(label, []):
        iid = int(str(label) + str(instance).zfill(3))
        bdry = mask2bdry(mask=inst_mask == iid, ignore_mask=ignore_mask, **args)
        edge = np.logical_or(edge, bdry)
'''))
same("jo-multi-dd", (EVBASE, '''            for k, v in overall_metric.items():
                if k in ret_metrics.keys():
                    ret_metrics[k].append(v)
                else:
                    ret_metrics[k] = [v]
''', '''            for k in overall_metric:
                ret_metrics.setdefault(k, []).append(overall_metric[k])
'''))
same("jo-multi-comp", (EVBASE, '''        ret_metrics = OrderedDict()
        for category in categories:
            # do a single category evaluation
            overall_metric = self.evaluate_category(
                category=category,
                thresholds=thresholds,
                nproc=nproc,
                save_dir=save_dir,
            )
            for k, v in overall_metric.items():
                if k in ret_metrics.keys():
                    ret_metrics[k].append(v)
                else:
                    ret_metrics[k] = [v]
''', '''        results = [
            self.evaluate_category(cat, thresholds, nproc, save_dir)
            for cat in categories
        ]
        ret_metrics = OrderedDict(
            (k, [r[k] for r in results]) for k in results[0]
        )
'''))
same("jo-multi-loop", (EVBASE, '''        ret_metrics_summary = OrderedDict(
            {
                ret_metric: np.round(np.nanmean(ret_metric_value) * 100, 3)
                for ret_metric, ret_metric_value in ret_metrics.items()
            }
        )
''', '''        ret_metrics_summary = OrderedDict()
        for ret_metric, ret_metric_value in ret_metrics.items():
            mean = np.nanmean(np.array(ret_metric_value))
            ret_metrics_summary[ret_metric] = np.round(100 * mean, 3)
'''))
same("jo-multi-names", (EVBASE, "class_names = [self.CLASSES[i - 1] for i in categories]", "class_names = []\n        for i in categories:\n            class_names.append(self.CLASSES[i - 1])"))
same("jo-multi-tables", (EVBASE, '''        # save total metrics
        if save_dir:
            save_pretty_metrics(
                root_dir=save_dir,
                class_table=class_table_data.get_string(),
                summary_table=summary_table_data.get_string(),
            )''', '''        # save total metrics
        if save_dir:
            tables = (class_table_data.get_string(), summary_table_data.get_string())
            save_pretty_metrics(save_dir, *tables)'''))
same("jo-multi-isnan", (EVBASE, "if categories is None:\n            categories = list(range(1, len(self.CLASSES) + 1))", "if categories is None:\n            categories = [i + 1 for i in range(len(self.CLASSES))]"))
same("jo-bsds-endswith", (EVB, '''                dir, filename = osp.split(fn)
                name, ext = osp.splitext(filename)
                if ext.lower() == ".mat":
''', '''                name, ext = osp.splitext(osp.basename(fn))
                if ext.lower() == ".mat":
'''))
same("jo-bsds-gts", (DB, '''        gt = loadmat(path, False)["groundTruth"]  # np.ndarray
        num_gts = gt.shape[1]
        return [gt[0, i]["Boundaries"][0, 0] for i in range(num_gts)]
''', '''        gt = loadmat(path, False)["groundTruth"]
        gts = []
        for i in range(gt.shape[1]):
            gts.append(gt[0, i]["Boundaries"][0, 0])
        return gts
'''))

# ------------------------------------------------------------------ conversion
CS = "pyEdgeEval/helpers/convert_sbd.py"
SS = "scripts/convert_datasets/sbd.py"
SC_ = "scripts/convert_datasets/cityscapes.py"
PT = "pyEdgeEval/utils/path.py"
bug("cv-name", "C11", (CC, 'half_raw_edge_suffix = f"_gtProc_half_{raw_edge_name}.{ext}"', 'half_raw_edge_suffix = f"_gtProc_{raw_edge_name}_half.{ext}"'))
bug("cv-name2", "C11", (CC, 'raw_edge_name = "raw_isedge"', 'raw_edge_name = "raw_edge"'))
bug("cv-evname", "C11", (EVH, '"_gtProc_half_thin_isedge.png"', '"_gtProc_thin_isedge.png"'))
bug("cv-sbd-name", "C11", (SS, 'thin_isedge_suffix = "_thin_isedge.png"', 'thin_isedge_suffix = "_thin_edge.png"'))
bug("cv-sbd-swap", "C30", (SS, '''raw_edge_suffix = "_raw_edge.png"
    raw_isedge_suffix = "_raw_isedge.png"''', '''raw_edge_suffix = "_raw_isedge.png"
    raw_isedge_suffix = "_raw_edge.png"'''))
bug("cv-list", "C11", (CC, 'split_save_root = osp.join(cityscapes_root, "splits")', 'split_save_root = osp.join(cityscapes_root, proc_dirname)'))
bug("cv-seal-thin", "C30", (CC, '''    if scale < 1 and (not seal or thin):
        height, width''', '''    if scale < 1 and not seal:
        height, width'''))
bug("cv-inst-late", "C30", (CC, '''        if scale < 1 and (not seal or thin):
            inst_img''', '''        if scale < 1 and not thin:
            inst_img'''))
bug("cv-linear", "C30", (CC, "array = cv2.resize(array, (ow, oh), interpolation=cv2.INTER_NEAREST)", "array = cv2.resize(array, (ow, oh))"))
bug("cv-transpose", "C30", (CC, "array = cv2.resize(array, (ow, oh), interpolation=cv2.INTER_NEAREST)", "array = cv2.resize(array, (oh, ow), interpolation=cv2.INTER_NEAREST)"))
bug("cv-bicubic", "C30", (CC, "label_img.resize((width, height), Image.Resampling.NEAREST)", "label_img.resize((width, height))"))
bug("cv-ignore", "C30", (CC, "ignore_indices = [2, 3]", "ignore_indices = [2]"))
bug("cv-ignore2", "C30", (CC, '''        edge_ids = loop_mask2edge(
            mask=m,
            ignore_indices=ignore_indices,''', '''        edge_ids = loop_mask2edge(
            mask=m,
            ignore_indices=[],'''))
bug("cv-train-radius", "C30", (CC, "convert_full(edge_suffix=train_edge_suffix, radius=train_radius)", "convert_full(edge_suffix=train_edge_suffix, radius=thin_val_radius)"))
bug("cv-halfraw-radius", "C30", (CC, '''                    edge_suffix=half_raw_edge_suffix,
                    radius=raw_val_radius,''', '''                    edge_suffix=half_raw_edge_suffix,
                    radius=thin_val_radius,'''))
bug("cv-halfthin", "C30", (CC, '''                    edge_suffix=half_thin_edge_suffix,
                    radius=thin_val_radius,
                    thin=True,''', '''                    edge_suffix=half_thin_edge_suffix,
                    radius=thin_val_radius,
                    thin=False,'''))
bug("cv-noIS", "C30", (CC, '''                convert_half = partial(
                    convert_routine_wrapper,
                    label_files=label_files,
                    nproc=nproc,
                    inst_sensitive=inst_sensitive,''', '''                convert_half = partial(
                    convert_routine_wrapper,
                    label_files=label_files,
                    nproc=nproc,'''))
bug("cv-skip-existing", "C30", (CC, '''    # convert function -->
''', '''    if osp.exists(proc_file):
        return
'''))
bug("cv-skip-empty", "C30", (CC, '''    # encode and save -->
''', '''    if not np.any(edge_trainIds):
        return
'''))
bug("cv-tif8", "C30", (CC, "edges = edges.view(np.int32)", "edges = edges.astype(np.uint8)"))
bug("cv-bin16", "C30", (CC, "edges.astype(np.uint32).tofile(proc_file)", "edges.astype(np.uint16).tofile(proc_file)"))
bug("cv-labelids", "C30", (CC, 'json2labelImg(json_file, proc_file, "trainIds")', 'json2labelImg(json_file, proc_file, "ids")'))
bug("cv-sbd-border", "C30", (MU, "cls_seg[:, w - border_px : w] = ignore_id", "cls_seg[:, w - border_px : w - 1] = ignore_id"))
bug("cv-sbd-border2", "C30", (CS, "border_px=5, ignore_id=outer_pixel", "border_px=4, ignore_id=outer_pixel"))
bug("cv-sbd-radius", "C30", (CS, '''    if thin:
        # force radius=1 for thinning
        radius = 1
''', '''    if thin:
        # force radius=1 for thinning
        radius = max(radius, 1)
'''))
bug("cv-sbd-instcats", "C30", (CS, "convert_inst_seg(inst_seg, inst_cats, present_cats)", "convert_inst_seg(inst_seg, present_cats, inst_cats)"))
bug("cv-sbd-noninst", "C30", (CS, "Image.fromarray(rgb_multilabel_encoding(nonISbdry))\n    nonISbdry_img.save(osp.join(save_dir, f\"{sample_name}{edge_suffix}\"))\n    ISbdry_img = Image.fromarray(rgb_multilabel_encoding(ISbdry))", "Image.fromarray(rgb_multilabel_encoding(nonISbdry))\n    nonISbdry_img.save(osp.join(save_dir, f\"{sample_name}{edge_suffix}\"))\n    ISbdry_img = Image.fromarray(rgb_multilabel_encoding(nonISbdry))"))
bug("cv-sbd-train", "C30", (CS, "out = np.ones_like(seg) * 255", "out = np.zeros_like(seg)"))
bug("cv-sbd-train2", "C30", (CS, "out[seg == labelId] = trainId", "out[seg == trainId] = labelId"))
bug("cv-reanno-cats", "C30", (CS, '''    for cat in present_cats:
        # NOTE: bdry idx doesn't include background (0)''', '''    for cat in inst_cats[:1]:
        # NOTE: bdry idx doesn't include background (0)'''))
bug("cv-reanno-off", "C30", (CS, '''        _inst_bdry = inst_bdry[cat - 1]
        new_bdry[cat - 1] = new_bdry[cat - 1] | _inst_bdry

    # TODO''', '''        _inst_bdry = inst_bdry[cat - 1]
        new_bdry[cat - 1] = _inst_bdry

    # TODO'''))
bug("cv-reanno-dir", "C30", (SS, '''            data_dir=reanno_thin_dir,''', '''            data_dir=reanno_raw_dir,'''))
bug("cv-scan-nonrec", "C33", (CC, 'for label in scandir(gt_split_dir, labelIds_suffix, recursive=True):', 'for label in scandir(gt_split_dir, labelIds_suffix):'))
bug("cv-scan-skip", "C33", (CC, '''            label_file = osp.join(gt_split_dir, label)
            label_files.append(label_file)
''', '''            label_file = osp.join(gt_split_dir, label)
            if label not in label_files:
                label_files.append(label_file)
            if len(label_files) >= 5000:
                break
'''))
bug("cv-scan-filter", "C33", (CC, '''            label_file = osp.join(gt_split_dir, label)
            label_files.append(label_file)
''', '''            label_file = osp.join(gt_split_dir, label)
            if not label.startswith("frankfurt"):
                label_files.append(label_file)
'''))
bug("cv-scan-nproc", "C33", (CC, '''        track_parallel_progress(convert_to_edges, label_files, nproc)
    else:''', '''        track_parallel_progress(convert_to_edges, label_files[: len(label_files) // nproc * nproc], nproc)
    else:'''))
bug("cv-split-list", "C33", (CC, 'filenames.append(poly.replace("_gtFine_polygons.json", ""))', 'filenames.append(osp.basename(poly).replace("_gtFine_polygons.json", ""))'))
bug("cv-split-nl", "C33", (CC, 'f.writelines(f + "\\n" for f in filenames)', 'f.writelines(filenames)'))
bug("cv-split-test", "C33", (CC, '''        filenames = []
        for poly in scandir(''', '''        filenames = []
        if split == "test":
            continue
        for poly in scandir('''))
bug("cv-scandir-hidden", "C33", (PT, 'if not entry.name.startswith(".") and entry.is_file():', 'if entry.is_file():'))
bug("cv-scandir-root", "C33", (PT, 'rel_path = osp.relpath(entry.path, root)', 'rel_path = osp.relpath(entry.path, dir_path)'))
bug("cv-scandir-suffix", "C33", (PT, '''                yield from _scandir(
                    entry.path, suffix, recursive, case_sensitive
                )''', '''                yield from _scandir(
                    entry.path, None, recursive, case_sensitive
                )'''))
bug("cv-scandir-rec", "C33", (PT, '''                yield from _scandir(
                    entry.path, suffix, recursive, case_sensitive
                )''', '''                yield from _scandir(
                    entry.path, suffix, False, case_sensitive
                )'''))
bug("cv-scandir-case", "C33", (PT, "_rel_path = rel_path if case_sensitive else rel_path.lower()", "_rel_path = rel_path"))
bug("cv-scandir-dirs", "C33", (PT, 'if not entry.name.startswith(".") and entry.is_file():', 'if not entry.name.startswith("."):'))
bug("cv-mkdir", "C33", (PT, "os.makedirs(dir_name, mode=mode, exist_ok=True)", "os.makedirs(dir_name, mode=mode)"))
bug("cv-mkdir2", "C33", (PT, "os.makedirs(dir_name, mode=mode, exist_ok=True)", "if not osp.exists(dir_name):\n        os.mkdir(dir_name, mode)"))
bug("cv-sbd-val", "C33", (SS, "splits = ('train', 'val')", "splits = ('train',)"))
bug("cv-sbd-lines", "C33", (CS, 'sample_names = [line.rstrip("\\n") for line in f]', 'sample_names = [line.rstrip("\\n") for line in f][1:]'))
bug("cv-sbd-single", "C33", (SS, '''            print(">>> ", split, " thin")
            track_progress(thin_routine, sample_names)''', '''            print(">>> ", split, " thin")
            track_progress(raw_routine, sample_names)'''))
bug("cv-reanno-list", "C33", (SS, 'f.writelines(s + "\\n" for s in raw_list)', 'f.writelines(s + "\\n" for s in sorted(raw_list)[1:])'))
same("cv-comp", (CC, '''        label_files = []
        gt_split_dir = osp.join(gt_dir, split)
        for label in scandir(gt_split_dir, labelIds_suffix, recursive=True):
            label_file = osp.join(gt_split_dir, label)
            label_files.append(label_file)
''', '''        gt_split_dir = osp.join(gt_dir, split)
        label_files = [
            osp.join(gt_split_dir, label)
            for label in scandir(gt_split_dir, labelIds_suffix, recursive=True)
        ]
'''))
same("cv-sorted", (CC, "for label in scandir(gt_split_dir, labelIds_suffix, recursive=True):", "for label in sorted(scandir(gt_split_dir, labelIds_suffix, recursive=True)):"))
same("cv-helper", (CC, '''def resize_np(array, scale=0.5):''', '''def _list_files(root, suffix):
    out = []
    for name in scandir(root, suffix, recursive=True):
        out.append(osp.join(root, name))
    return out


def resize_np(array, scale=0.5):'''), (CC, '''        label_files = []
        gt_split_dir = osp.join(gt_dir, split)
        for label in scandir(gt_split_dir, labelIds_suffix, recursive=True):
            label_file = osp.join(gt_split_dir, label)
            label_files.append(label_file)
''', '''        gt_split_dir = osp.join(gt_dir, split)
        label_files = _list_files(gt_split_dir, labelIds_suffix)
'''), (CC, '''        gt_split_dir = osp.join(gt_dir, split)
        for poly in scandir(gt_split_dir, polygons_suffix, recursive=True):
            poly_file = osp.join(gt_split_dir, poly)
            poly_files.append(poly_file)
''', '''        poly_files += _list_files(osp.join(gt_dir, split), polygons_suffix)
'''))
same("cv-suffixes", (CC, '''    if inst_sensitive:
        print(">>> Instance Sensitive")
        raw_edge_name = "raw_isedge"
        thin_edge_name = "thin_isedge"

        train_edge_suffix = f"_gtProc_isedge.{ext}"
        raw_edge_suffix = f"_gtProc_{raw_edge_name}.{ext}"
        thin_edge_suffix = f"_gtProc_{thin_edge_name}.{ext}"
        half_raw_edge_suffix = f"_gtProc_half_{raw_edge_name}.{ext}"
        half_thin_edge_suffix = f"_gtProc_half_{thin_edge_name}.{ext}"
    else:
        print(">> non-Instance Sensitive")
        raw_edge_name = "raw_edge"
        thin_edge_name = "thin_edge"

        train_edge_suffix = f"_gtProc_edge.{ext}"
        raw_edge_suffix = f"_gtProc_{raw_edge_name}.{ext}"
        thin_edge_suffix = f"_gtProc_{thin_edge_name}.{ext}"
        half_raw_edge_suffix = f"_gtProc_half_{raw_edge_name}.{ext}"
        half_thin_edge_suffix = f"_gtProc_half_{thin_edge_name}.{ext}"
''', '''    kind = "isedge" if inst_sensitive else "edge"
    train_edge_suffix = "_gtProc_{}.{}".format(kind, ext)
    raw_edge_suffix = "_gtProc_raw_" + kind + "." + ext
    thin_edge_suffix = "_gtProc_thin_%s.%s" % (kind, ext)
    half_raw_edge_suffix = f"_gtProc_half_raw_{kind}.{ext}"
    half_thin_edge_suffix = f"_gtProc_half_thin_{kind}.{ext}"
'''))
same("cv-half", (CC, '''        num_classes = len(CITYSCAPES_label2trainId)
        new_edge_trainIds = np.zeros(
            (num_classes, height, width), dtype=np.uint8
        )
        for cat in range(num_classes):
            new_edge_trainIds[cat, :, :] = resize_np(
                edge_trainIds[cat, :, :], scale=scale
            )
        edge_trainIds = new_edge_trainIds
''', '''        edge_trainIds = np.stack(
            [resize_np(plane, scale=scale) for plane in edge_trainIds]
        )
'''))
same("cv-half2", (CC, '''            new_edge_trainIds[cat, :, :] = resize_np(
                edge_trainIds[cat, :, :], scale=scale
            )
''', '''            new_edge_trainIds[cat] = cv2.resize(
                edge_trainIds[cat],
                (width, height),
                interpolation=cv2.INTER_NEAREST,
            )
'''))
same("cv-early", (CC, '''    if scale < 1 and (not seal or thin):
        height, width = int(h * scale + 0.5), int(w * scale + 0.5)
        label_img = label_img.resize((width, height), Image.Resampling.NEAREST)
''', '''    before = scale < 1 and (thin or not seal)
    size = (int(w * scale + 0.5), int(h * scale + 0.5))
    if before:
        label_img = label_img.resize(size, Image.Resampling.NEAREST)
'''), (CC, '''        if scale < 1 and (not seal or thin):
            inst_img = inst_img.resize(
                (width, height), Image.Resampling.NEAREST
            )
''', '''        if before:
            inst_img = inst_img.resize(size, resample=Image.Resampling.NEAREST)
'''))
same("cv-writer", (CC, '''            f.writelines(f + "\\n" for f in filenames)''', '''            for name in filenames:
                f.write(f"{name}\\n")'''))
same("cv-writer2", (CC, '''            f.writelines(f + "\\n" for f in filenames)''', '''            f.write("\\n".join(filenames) + "\\n")'''))
same("cv-writer3", (CC, '''            filenames.append(poly.replace("_gtFine_polygons.json", ""))''', '''            filenames.append(poly[: -len("_gtFine_polygons.json")])'''))
same("cv-png", (CC, '''    if save_format == ".png":
        edges = rgb_multilabel_encoding(edge_trainIds)
        edges_img = Image.fromarray(edges)
        edges_img.save(proc_file)
''', '''    if save_format == ".png":
        Image.fromarray(rgb_multilabel_encoding(edge_trainIds)).save(proc_file)
'''))
same("cv-scandir", (PT, '''        for entry in os.scandir(dir_path):
            if not entry.name.startswith(".") and entry.is_file():
                rel_path = osp.relpath(entry.path, root)
                _rel_path = rel_path if case_sensitive else rel_path.lower()
                if suffix is None or _rel_path.endswith(suffix):
                    yield rel_path
            elif recursive and os.path.isdir(entry.path):
''', '''        for entry in sorted(os.scandir(dir_path), key=lambda e: e.name):
            if entry.is_file():
                if entry.name.startswith("."):
                    continue
                rel_path = osp.relpath(entry.path, root)
                name = rel_path
                if not case_sensitive:
                    name = name.lower()
                if suffix is not None and not name.endswith(suffix):
                    continue
                yield rel_path
            elif entry.is_dir() and recursive:
'''))
same("cv-scandir2", (PT, '''    root = dir_path

    def _scandir(dir_path, suffix, recursive, case_sensitive):
        for entry in os.scandir(dir_path):
            if not entry.name.startswith(".") and entry.is_file():
                rel_path = osp.relpath(entry.path, root)
                _rel_path = rel_path if case_sensitive else rel_path.lower()
                if suffix is None or _rel_path.endswith(suffix):
                    yield rel_path
            elif recursive and os.path.isdir(entry.path):
                # scan recursively if entry.path is a directory
                yield from _scandir(
                    entry.path, suffix, recursive, case_sensitive
                )

    return _scandir(dir_path, suffix, recursive, case_sensitive)
''', '''    def _matches(name):
        if suffix is None:
            return True
        if not case_sensitive:
            name = name.lower()
        return name.endswith(suffix)

    def _walk(current):
        for entry in os.scandir(current):
            hidden = entry.name.startswith(".")
            if not hidden and entry.is_file():
                rel_path = osp.relpath(entry.path, dir_path)
                if _matches(rel_path):
                    yield rel_path
            elif recursive and os.path.isdir(entry.path):
                for found in _walk(entry.path):
                    yield found

    return _walk(dir_path)
'''))
same("cv-mkdir-s", (PT, "    os.makedirs(dir_name, mode=mode, exist_ok=True)", "    Path(dir_name).mkdir(mode=mode, parents=True, exist_ok=True)"))
same("cv-mkdir-s2", (PT, '''    if dir_name == "":
        return
    dir_name = osp.expanduser(dir_name)
    os.makedirs(dir_name, mode=mode, exist_ok=True)''', '''    if dir_name:
        os.makedirs(osp.expanduser(dir_name), mode, exist_ok=True)'''))
same("cv-sbd-planes", (CS, '''    mask = mask2onehot(cls_seg, labels=SBD_labelIds)
''', '''    onehot = mask2onehot(cls_seg, SBD_labelIds)
    mask = onehot
'''), (CS, '''    # save bdry
    nonISbdry_img = Image.fromarray(rgb_multilabel_encoding(nonISbdry))
    nonISbdry_img.save(osp.join(save_dir, f"{sample_name}{edge_suffix}"))
    ISbdry_img = Image.fromarray(rgb_multilabel_encoding(ISbdry))
    ISbdry_img.save(osp.join(save_dir, f"{sample_name}{isedge_suffix}"))

    if save_segs:''', '''    # save bdry
    for bdry, suffix in ((nonISbdry, edge_suffix), (ISbdry, isedge_suffix)):
        img = Image.fromarray(rgb_multilabel_encoding(bdry))
        img.save(osp.join(save_dir, sample_name + suffix))

    if save_segs:'''))
same("cv-sbd-border-s", (MU, '''    h, w = cls_seg.shape
    cls_seg[0:border_px, :] = ignore_id
    cls_seg[h - border_px : h, :] = ignore_id
    cls_seg[:, 0:border_px] = ignore_id
    cls_seg[:, w - border_px : w] = ignore_id
''', '''    cls_seg[:border_px] = ignore_id
    cls_seg[-border_px:] = ignore_id
    cls_seg[:, :border_px] = ignore_id
    cls_seg[:, -border_px:] = ignore_id
'''))
same("cv-sbd-train-s", (CS, '''    out = np.ones_like(seg) * 255
    for labelId, trainId in label2trainId.items():
        out[seg == labelId] = trainId
    return out''', '''    out = np.full_like(seg, 255)
    for labelId in label2trainId:
        out = np.where(seg == labelId, label2trainId[labelId], out)
    return out.astype(seg.dtype)'''))
same("cv-sbd-samples", (CS, '''    with open(path, "r") as f:
        sample_names = [line.rstrip("\\n") for line in f]
    return sample_names''', '''    with open(path) as f:
        return f.read().splitlines()'''))
same("cv-sbd-samples2", (CS, '''    with open(path, "r") as f:
        sample_names = [line.rstrip("\\n") for line in f]
    return sample_names''', '''    names = []
    with open(path, "r") as f:
        for line in f.readlines():
            names.append(line.strip())
    return names'''))
same("cv-sbd-run", (SS, '''        if nproc > 1:
            print(">>> ", split, " raw")
            track_parallel_progress(raw_routine, sample_names, nproc)
            print(">>> ", split, " thin")
            track_parallel_progress(thin_routine, sample_names, nproc)
        else:
            print(">>> ", split, " raw")
            track_progress(raw_routine, sample_names)
            print(">>> ", split, " thin")
            track_progress(thin_routine, sample_names)
''', '''        for title, job in (("raw", raw_routine), ("thin", thin_routine)):
            print(">>> ", split, title)
            if nproc > 1:
                track_parallel_progress(job, sample_names, nproc)
            else:
                track_progress(job, sample_names)
'''))
same("cv-reanno-s", (CS, '''    for cat in present_cats:
        # NOTE: bdry idx doesn't include background (0)
        _inst_bdry = inst_bdry[cat - 1]
        new_bdry[cat - 1] = new_bdry[cat - 1] | _inst_bdry
''', '''    for cat in present_cats:
        k = cat - 1
        new_bdry[k] |= inst_bdry[k]
'''))

# ------------------------------------------------------------------ thinning
TH = "pyEdgeEval/preprocess/thin/thin.py"
BW = "pyEdgeEval/preprocess/thin/bwmorph_thin.py"
bug("tn-g2", "C19", (TH, "return (m >= 2) & (m <= 3)", "return (m >= 2) & (m <= 4)"))
bug("tn-g2b", "C19", (TH, "return (m >= 2) & (m <= 3)", "return (m > 2) & (m <= 3)"))
bug("tn-g2c", "C19", (TH, "n2 += lut_masks_one(2 * k) | lut_masks_one(2 * k + 1)", "n2 += lut_masks_one(2 * k) | lut_masks_one(2 * k - 1)"))
same("tn-g1e", (TH, "return b == 1\n", "return b <= 1\n"))
bug("tn-g1b", "C19", (TH, "for i in range(1, 5):", "for i in range(1, 4):"))
bug("tn-g3", "C19", (TH, "(lut_masks_one(2) | lut_masks_one(3) | lut_masks_zero(8))", "(lut_masks_one(2) | lut_masks_one(3) | lut_masks_one(8))"))
bug("tn-g3p", "C19", (TH, "(lut_masks_one(6) | lut_masks_one(7) | lut_masks_zero(4))", "(lut_masks_one(6) | lut_masks_one(7) | lut_masks_zero(3))"))
bug("tn-same", "C19", (TH, "cond = _thin_cond_g1() & _thin_cond_g2() & _thin_cond_g3_prime()", "cond = _thin_cond_g1() & _thin_cond_g2() & _thin_cond_g3()"))
bug("tn-order", "C19", (TH, "    thin1 = _thin_iter_1_lut()\n    thin2 = _thin_iter_2_lut()\n", "    thin2 = _thin_iter_1_lut()\n    thin1 = _thin_iter_2_lut()\n"))
bug("tn-wrap", "C19", (TH, "    if neigh > 8:\n        neigh -= 8\n    return (_LUT_INDS & MASKS[neigh]) != 0", "    if neigh > 8:\n        neigh = 0\n    return (_LUT_INDS & MASKS[neigh]) != 0"))
bug("tn-pad", "C19", (TH, 'mode="constant")', 'mode="edge")'))
bug("tn-pad1", "C19", (TH, 'mode="constant")', 'mode="constant", constant_values=1)'))
bug("tn-cell", "C19", (TH, "+ x[:-2, 2:] * NEIGH_MASK_NORTH_EAST", "+ x[2:, :-2] * NEIGH_MASK_NORTH_EAST"))
bug("tn-conv", "C19", (TH, "    if x.dtype != bool:\n        x = x != 0\n", ""))
bug("tn-stop1", "C19", (TH, "n_mut += thin2_mut[lut_indices].sum()", "n_mut = thin2_mut[lut_indices].sum()"))
bug("tn-stop0", "C19", (TH, "        n_mut += thin2_mut[lut_indices].sum()\n", ""))
bug("tn-stopfew", "C19", (TH, "if n_mut == 0:", "if n_mut <= 1:"))
bug("tn-limit", "C19", (TH, "while max_iter is None or iter_count < max_iter:", "while iter_count < (max_iter or 100):"))
bug("tn-limit1", "C19", (TH, "iter_count < max_iter:", "iter_count <= max_iter:"))
bug("tn-parallel", "C19", (TH, "        x = thin1[lut_indices]\n\n        # Iter 2\n        lut_indices = binary_image_to_lut_indices(x)\n",
    "        y = thin1[lut_indices]\n\n        # Iter 2\n        lut_indices = binary_image_to_lut_indices(x)\n"), (TH, "x = thin2[lut_indices]", "x = y & thin2[lut_indices]"))
bug("tn-bw-lut", "C19", (BW, "G123P_LUT = np.array([0, 0, 0, 0, 0, 1, 0, 1, 0, 0,", "G123P_LUT = np.array([0, 0, 0, 0, 0, 1, 0, 1, 0, 1,"))
bug("tn-bw-mask", "C19", (BW, "[[8, 4, 2], [16, 0, 1], [32, 64, 128]]", "[[8, 4, 2], [1, 0, 16], [32, 64, 128]]"))
bug("tn-bw-mode", "C19", (BW, 'mode="constant")', 'mode="nearest")'))
bug("tn-bw-mode2", "C19", (BW, ', mode="constant")', ')'))
bug("tn-bw-order", "C19", (BW, "for lut in [G123_LUT, G123P_LUT]:", "for lut in [G123P_LUT, G123_LUT]:"))
bug("tn-bw-once", "C19", (BW, "        n -= 1\n", "        n = 0\n"))
bug("tn-bw-stop", "C19", (BW, "if before == after:", "if before - after <= 1:"))
bug("tn-bw-hoist", "C19", (BW, """        for lut in [G123_LUT, G123P_LUT]:
            # correlate image with neighborhood mask
            N = ndi.correlate(skel, mask, mode="constant")
""", """        N = ndi.correlate(skel, mask, mode="constant")
        for lut in [G123_LUT, G123P_LUT]:
"""))
bug("tn-bw-conv", "C19", (BW, "ndi.correlate(", "ndi.convolve("))
bug("tn-bw-before", "C19", (BW, """        before = np.sum(skel)  # count points before thinning

        # for each subiteration
        for lut in [G123_LUT, G123P_LUT]:
""", """        # for each subiteration
        for lut in [G123_LUT, G123P_LUT]:
            before = np.sum(skel)
"""))
same("tn-where", (TH, "        x = thin1[lut_indices]\n", "        x = np.take(thin1, lut_indices)\n"))
same("tn-nonzero", (TH, "n_mut = thin1_mut[lut_indices].sum()", "n_mut = np.count_nonzero(thin1_mut[lut_indices])"))
same("tn-any", (TH, "        n_mut = thin1_mut[lut_indices].sum()\n", "        changed = thin1_mut[lut_indices].any()\n"),
     (TH, "        n_mut += thin2_mut[lut_indices].sum()\n", "        changed = changed or thin2_mut[lut_indices].any()\n"), (TH, "if n_mut == 0:", "if not changed:"))
same("tn-flag", (TH, "    while max_iter is None or iter_count < max_iter:\n", "    n_mut = 1\n    while n_mut and (max_iter is None or iter_count < max_iter):\n"),
     (TH, "        # stop once neither sub-iteration changes anything\n        if n_mut == 0:\n            break\n\n", ""))
same("tn-loop", (TH, """        # Iter 1
        lut_indices = binary_image_to_lut_indices(x)
        # FIXME: index "" is out of bounds for axis 0 with size 512
        n_mut = thin1_mut[lut_indices].sum()
        x = thin1[lut_indices]

        # Iter 2
        lut_indices = binary_image_to_lut_indices(x)
        n_mut += thin2_mut[lut_indices].sum()
        x = thin2[lut_indices]
""", """        n_mut = 0
        for lut, mut in ((thin1, thin1_mut), (thin2, thin2_mut)):
            lut_indices = binary_image_to_lut_indices(x)
            n_mut += mut[lut_indices].sum()
            x = lut[lut_indices]
"""))
same("tn-equal", (TH, "        # Iter 1\n        lut_indices = binary_image_to_lut_indices(x)\n", "        # Iter 1\n        before = x\n        lut_indices = binary_image_to_lut_indices(x)\n"),
     (TH, "        if n_mut == 0:\n", "        if np.array_equal(before, x):\n"))
same("tn-masks", (TH, "    if neigh > 8:\n        neigh -= 8\n    return (_LUT_INDS & MASKS[neigh]) == 0", "    return (_LUT_INDS & MASKS[(neigh - 1) % 8 + 1]) == 0"))
same("tn-g3", (TH, """    return (
        (lut_masks_one(2) | lut_masks_one(3) | lut_masks_zero(8))
        & lut_masks_one(1)
    ) == 0
""", """    return (lut_masks_zero(2) & lut_masks_zero(3) & lut_masks_one(8)) | lut_masks_zero(1)
"""))
same("tn-lut", (TH, """    lut = identity_lut()
    cond = _thin_cond_g1() & _thin_cond_g2() & _thin_cond_g3()
    lut[cond] = False
    return lut
""", """    cond = _thin_cond_g1() & _thin_cond_g2() & _thin_cond_g3()
    return identity_lut() & ~cond
"""))
same("tn-module", (TH, "def binary_thin(x, max_iter=None):", "_LUT1 = _thin_iter_1_lut()\n_LUT2 = _thin_iter_2_lut()\n\n\ndef binary_thin(x, max_iter=None):"),
     (TH, "    thin1 = _thin_iter_1_lut()\n    thin2 = _thin_iter_2_lut()\n", "    thin1 = _LUT1\n    thin2 = _LUT2\n"))
same("tn-count", (TH, "    iter_count = 0\n", "    left = max_iter\n"), (TH, "while max_iter is None or iter_count < max_iter:", "while left is None or left > 0:"),
     (TH, "        iter_count += 1\n", "        if left is not None:\n            left -= 1\n"))
same("tn-g1", (TH, """    b = np.zeros(512, dtype=int)
    for i in range(1, 5):
        b += lut_masks_zero(2 * i - 1) & (
            lut_masks_one(2 * i) | lut_masks_one(2 * i + 1)
        )
    return b == 1
""", """    b = sum(
        (lut_masks_zero(2 * i - 1) & (lut_masks_one(2 * i) | lut_masks_one(2 * i + 1))).astype(int)
        for i in range(1, 5)
    )
    return b == 1
"""))
same("tn-idx", (TH, """    lut_indices = (
        x[:-2, :-2] * NEIGH_MASK_NORTH_WEST
        + x[:-2, 1:-1] * NEIGH_MASK_NORTH
        + x[:-2, 2:] * NEIGH_MASK_NORTH_EAST
        + x[1:-1, :-2] * NEIGH_MASK_WEST
        + x[1:-1, 1:-1] * NEIGH_MASK_CENTRE
        + x[1:-1, 2:] * NEIGH_MASK_EAST
        + x[2:, :-2] * NEIGH_MASK_SOUTH_WEST
        + x[2:, 1:-1] * NEIGH_MASK_SOUTH
        + x[2:, 2:] * NEIGH_MASK_SOUTH_EAST
    )

    return lut_indices.astype(np.int32)
""", """    h, w = x.shape
    h, w = h - 2, w - 2
    lut_indices = np.zeros((h, w), dtype=np.int32)
    for k, mask in enumerate((1, 2, 4, 8, 16, 32, 64, 128, 256)):
        i, j = divmod(k, 3)
        lut_indices += x[i : i + h, j : j + w] * mask

    return lut_indices
"""))
same("tn-bw-where", (BW, "            # perform deletion\n            skel[D] = 0\n", "            skel = np.where(D, 0, skel).astype(np.uint8)\n"))
same("tn-bw-two", (BW, """        for lut in [G123_LUT, G123P_LUT]:
            # correlate image with neighborhood mask
            N = ndi.correlate(skel, mask, mode="constant")
            # take deletion decision from this subiteration's LUT
            D = np.take(lut, N)
            # perform deletion
            skel[D] = 0
""", """        skel[G123_LUT[ndi.correlate(skel, mask, mode="constant", cval=0)]] = 0
        skel[G123P_LUT[ndi.correlate(skel, mask, mode="constant", cval=0)]] = 0
"""))
same("tn-bw-sum", (BW, "before = np.sum(skel)", "before = skel.sum()"), (BW, "after = np.sum(skel)", "after = skel.sum()"))
same("tn-bw-while", (BW, "        if before == after:\n            # iteration had no effect: finish\n            break\n\n        # count down to iteration limit (or endlessly negative)\n        n -= 1\n",
     "        n = 0 if before == after else n - 1\n"))
same("tn-bw-nonzero", (BW, "return skel.astype(np.bool)", "return skel != 0"))

# ---------------------------------------------------------------- C18
CA, SA = "pyEdgeEval/datasets/cityscapes_attributes.py", "pyEdgeEval/datasets/sbd_attributes.py"
EC, ES = "pyEdgeEval/evaluators/cityscapes.py", "pyEdgeEval/evaluators/sbd.py"
EO = "pyEdgeEval/evaluators/otf_cityscapes.py"
HC, HS = "pyEdgeEval/helpers/evaluate_cityscapes.py", "pyEdgeEval/helpers/evaluate_sbd.py"
bug("tb-name", "C18", (CA, '    3: "wall",\n    4: "fence",\n', '    3: "fence",\n    4: "wall",\n'))
bug("tb-class", "C18", (EC, '        "wall",\n        "fence",\n', '        "fence",\n        "wall",\n'))
bug("tb-train", "C18", (CA, "    31: 16,\n    32: 17,\n", "    31: 17,\n    32: 16,\n"))
bug("tb-33", "C18", (CA, "CITYSCAPES_labelIds = list(range(34))", "CITYSCAPES_labelIds = list(range(33))"))
bug("tb-minus1", "C18", (CA, "CITYSCAPES_labelIds = list(range(34))", "CITYSCAPES_labelIds = list(range(-1, 34))"))
bug("tb-inst", "C18", (CA, "    31,  # \"train\"\n", ""))
bug("tb-inst-rider", "C18", (CA, "    25,  # \"rider\"\n", "    23,  # \"rider\"\n"))
bug("tb-sbd-21", "C18", (SA, "SBD_labelIds = list(range(20 + 1 + 1))", "SBD_labelIds = list(range(20 + 1))"))
bug("tb-sbd-inst", "C18", (SA, "SBD_inst_labelIds = list(range(1, 20 + 1))", "SBD_inst_labelIds = list(range(1, 20))"))
bug("tb-sbd-inst0", "C18", (SA, "SBD_inst_labelIds = list(range(1, 20 + 1))", "SBD_inst_labelIds = list(range(0, 20 + 1))"))
bug("tb-sbd-name", "C18", (SA, '    8: "chair",\n    9: "cow",\n', '    8: "cow",\n    9: "chair",\n'))
bug("tb-sbd-dup", "C18", (SA, "    16: 15,\n", "    16: 16,\n"))
bug("tb-late", "C18", (CA, '\n\nif __name__ == "__main__":', '\nCITYSCAPES_label2trainId[19] = 7\n\nif __name__ == "__main__":'))
bug("tb-late-rm", "C18", (CA, '\n\nif __name__ == "__main__":', '\nCITYSCAPES_inst_labelIds.remove(31)\n\nif __name__ == "__main__":'))
bug("tb-t2l", "C18", ("pyEdgeEval/datasets/otf_cityscapes.py", "{v: k for k, v in CITYSCAPES_label2trainId.items()}", "{v: k for v, k in enumerate(sorted(CITYSCAPES_label2trainId)[::-1])}"))
bug("tb-cat-hi", "C18", (EC, "0 < category < len(self.CLASSES) + 1\n", "0 < category <= len(self.CLASSES) + 1\n"))
bug("tb-cat-lo", "C18", (EO, "0 < category < len(self.CLASSES) + 1\n", "0 <= category < len(self.CLASSES) + 1\n"))
bug("tb-cat-top", "C18", (ES, "0 < category < len(self.CLASSES) + 1\n", "0 < category < len(self.CLASSES)\n"))
bug("tb-cli-all", "C18", (HC, "list(range(1, len(CityscapesEvaluator.CLASSES) + 1))", "list(range(1, len(CityscapesEvaluator.CLASSES)))"))
bug("tb-cli-zero", "C18", (HS, "            categories = [int(categories)]\n", "            categories = [int(categories) or 1]\n"))
same("tb-dictzip", (CA, '''CITYSCAPES_label2trainId = {
    7: 0,
    8: 1,
    11: 2,
    12: 3,
    13: 4,
    17: 5,
    19: 6,
    20: 7,
    21: 8,
    22: 9,
    23: 10,
    24: 11,
    25: 12,
    26: 13,
    27: 14,
    28: 15,
    31: 16,
    32: 17,
    33: 18,
}
''', '''_evaluated = [7, 8, 11, 12, 13, 17] + list(range(19, 29)) + [31, 32, 33]
CITYSCAPES_label2trainId = {label: k for k, label in enumerate(_evaluated)}
'''))
same("tb-instcalc", (CA, '''CITYSCAPES_inst_labelIds = [
    24,  # "person"
    25,  # "rider"
    26,  # "car"
    27,  # "truck"
    28,  # "bus"
    31,  # "train"
    32,  # "motorcycle"
    33,  # "bicycle"
]
''', "CITYSCAPES_inst_labelIds = [i for i in range(24, 34) if i not in (29, 30)]\n"))
same("tb-sbd-comp", (SA, "SBD_labelIds = list(range(20 + 1 + 1))", "SBD_labelIds = [k for k in range(22)]"))
same("tb-sbd-zip", (SA, "SBD_inst_labelIds = list(range(1, 20 + 1))", "SBD_inst_labelIds = list(SBD_label2trainId.keys())"))
same("tb-classes", (EC, '''    CLASSES = (
        "road",
        "sidewalk",
        "building",
        "wall",
        "fence",
        "pole",
        "traffic light",
        "traffic sign",
        "vegetation",
        "terrain",
        "sky",
        "person",
        "rider",
        "car",
        "truck",
        "bus",
        "train",
        "motorcycle",
        "bicycle",
    )
''', "    CLASSES = tuple(CITYSCAPES_trainId2name[k] for k in sorted(CITYSCAPES_trainId2name))\n"),
    (EC, "from .base import BaseMultilabelEvaluator\n", "from pyEdgeEval.datasets.cityscapes_attributes import CITYSCAPES_trainId2name\n\nfrom .base import BaseMultilabelEvaluator\n"))
same("tb-classvals", (ES, '''    CLASSES = (
''', '''    CLASSES = list(SBD_trainId2name.values()) or (
'''), (ES, "from .base import", "from pyEdgeEval.datasets.sbd_attributes import SBD_trainId2name\nfrom .base import"))
same("tb-inrange", (EC, "0 < category < len(self.CLASSES) + 1\n", "category in range(1, len(self.CLASSES) + 1)\n"))
same("tb-minus", (ES, "0 < category < len(self.CLASSES) + 1\n", "0 <= category - 1 < len(self.CLASSES)\n"))
same("tb-t2l-zip", ("pyEdgeEval/datasets/otf_cityscapes.py", "{v: k for k, v in CITYSCAPES_label2trainId.items()}", "dict(zip(CITYSCAPES_label2trainId.values(), CITYSCAPES_label2trainId.keys()))"))

# C23: calls leave their arguments alone and keep no state
MB, BB = "pyEdgeEval/common/multi_label/evaluate_boundaries.py", "pyEdgeEval/common/binary_label/evaluate_boundaries.py"
KI, CU = "pyEdgeEval/common/multi_label/options.py", "pyEdgeEval/common/utils.py"
ME, TR = "pyEdgeEval/edge_tools/mask2edge_loop.py", "pyEdgeEval/edge_tools/transforms.py"
CF, DT = "pyEdgeEval/utils/convert_formats.py", "pyEdgeEval/utils/distance_transforms.py"
CM, MU = "pyEdgeEval/common/multi_label/calculate_metrics.py", "pyEdgeEval/common/multi_label/utils.py"
MT, EN = "pyEdgeEval/common/metrics.py", "pyEdgeEval/common/multi_label/edge_encoding.py"
FN, TH = "pyEdgeEval/preprocess/nms/fast_nms.py", "pyEdgeEval/preprocess/thin/thin.py"
BW, TB = "pyEdgeEval/preprocess/thin/bwmorph_thin.py", "pyEdgeEval/preprocess/nms/toolbox.py"
IGN0 = '''    ignore_mask = np.zeros((h, w), dtype=np.uint8)
    for i in ignore_indices:
        ignore_mask += mask[i]

    edges = np.zeros_like(mask)
'''
bug("fx-pred-inplace", "C23", (MB, "        _pred = pred >= thresh\n", "        pred[pred < thresh] = 0\n        _pred = pred > 0\n"))
bug("fx-kill-out", "C23", (KI, "    return pred * killmask\n", "    pred *= killmask\n    return pred\n"))
bug("fx-kill-gt", "C23", (KI, "    distmap = distance_transform_edt(1 - gt)\n", "    distmap = distance_transform_edt(np.subtract(1, gt, out=gt))\n"))
bug("fx-kill-seg", "C23", (KI, "    killmask = np.invert((distmap > buffer) * seg)\n", "    seg[distmap <= buffer] = 0\n    killmask = np.invert((distmap > buffer) * seg)\n"))
bug("fx-thr-sort", "C23", (CU, "        thresholds = np.array(thresholds)\n", "        thresholds.sort()\n        thresholds = np.array(thresholds)\n"))
bug("fx-thr-clip", "C23", (CU, "    if thresholds.ndim != 1:\n", "    thresholds.clip(0, 1, out=thresholds)\n    if thresholds.ndim != 1:\n"))
bug("fx-ign-view", "C23", (ME, IGN0, IGN0.replace('''    ignore_mask = np.zeros((h, w), dtype=np.uint8)
    for i in ignore_indices:
        ignore_mask += mask[i]
''', '''    ignore_mask = (
        mask[ignore_indices[0]]
        if ignore_indices
        else np.zeros((h, w), dtype=np.uint8)
    )
    for i in ignore_indices[1:]:
        ignore_mask += mask[i]
''')))
bug("fx-edges-inplace", "C23", (ME, IGN0, IGN0.replace("np.zeros_like(mask)", "mask")))
bug("fx-ids-sort", "C23", (ME, "    inst_labels = sorted(inst_labelIds)\n", "    inst_labelIds.sort()\n    inst_labels = inst_labelIds\n"))
bug("fx-ign-append", "C23", (ME, IGN0, "    if 255 not in ignore_indices:\n        ignore_indices.extend([])\n" + IGN0))
bug("fx-pop", "C23", (CF, "    for labelId, trainId in label2trainId.items():\n        idx = mask == labelId\n",
    "    label2trainId.pop(-1, None)\n    for labelId, trainId in label2trainId.items():\n        idx = mask == labelId\n"))
bug("fx-trainid-inplace", "C23", (CF, "    trainId_mask = 255 * np.ones((h, w), dtype=np.uint8)  # 8-bit array\n", "    trainId_mask = mask.reshape(h, w)\n"))
bug("fx-m-dtype", "C23", (DT, '''    inner = _scipy_distance((m + ignore_mask) > 0)
    outer = _scipy_distance(1.0 - m)
    dist''', '''    m += ignore_mask
    inner = _scipy_distance(m > 0)
    m -= ignore_mask
    outer = _scipy_distance(1.0 - m)
    dist'''))
bug("fx-samples-sort", "C23", (CM, "    # initial run (process heavy)\n", '    samples.sort(key=lambda s: s["name"])\n    # initial run (process heavy)\n'))
bug("fx-samples-tag", "C23", (CM, "        count_r, sum_r, count_p, sum_p = sample_metrics[sample_index]\n", '        count_r, sum_r, count_p, sum_p = sample_metrics[sample_index]\n        sample_data["done"] = True\n'))
bug("fx-inst-inplace", "C23", (MU, "    out = np.zeros_like(inst_seg, dtype=np.int32)\n", "    out = inst_seg\n"))
bug("fx-inst-astype", "C23", (MU, "    out = np.zeros_like(inst_seg, dtype=np.int32)\n", "    out = inst_seg.astype(np.int32, copy=False)\n    out[...] = 0\n"))
bug("fx-sum-inplace", "C23", (MT, "    return count_r / (sum_r + (sum_r == 0))\n", "    sum_r[sum_r == 0] = 1\n    return count_r / sum_r\n"))
bug("fx-rec-out", "C23", (MT, "    return count_r / (sum_r + (sum_r == 0))\n", "    return np.divide(count_r, sum_r + (sum_r == 0), out=count_r)\n"))
bug("fx-enc", "C23", (EN, "        edge_map = edges[trainId].astype(np.uint32)\n", "        edge_map = edges[trainId]\n        edge_map[edge_map > 0] = 1\n        edge_map = edge_map.astype(np.uint32)\n"))
bug("fx-enc-T", "C23", (EN, "        edge_map = edges[trainId].astype(np.uint32)\n", "        edge_map = edges[trainId].T\n        edge_map[edge_map > 0] = 1\n        edge_map = edge_map.T.astype(np.uint32)\n"))
bug("fx-nms-norm", "C23", (FN, "    edge = conv_tri(img, 1)\n", "    img /= max(img.max(), 1)\n    edge = conv_tri(img, 1)\n"))
bug("fx-nms-ravel", "C23", (FN, "    edge = conv_tri(img, 1)\n", "    flat = img.ravel()\n    np.clip(flat, 0, 1, out=flat)\n    edge = conv_tri(img, 1)\n"))
bug("fx-bw-asarray", "C23", (BW, "    skel = np.array(image).astype(np.uint8)\n", "    skel = np.asarray(image).astype(np.uint8, copy=False)\n"))
bug("fx-kwargs-default", "C23", (MB, "            **nms_kwargs,\n        )\n", "            **nms_kwargs,\n        )\n        nms_kwargs[\"half_prec\"] = True\n"))
bug("fx-kwargs-setdefault", "C23", (BB, "    if apply_nms:\n", "    nms_kwargs.setdefault(\"half_prec\", False)\n    if apply_nms:\n"))
bug("fx-memo", "C23", (MB, "def evaluate_boundaries_threshold(\n", "_LAST = {}\n\n\ndef evaluate_boundaries_threshold(\n"),
    (MB, "    if apply_nms:\n        pred = fast_nms(\n            img=pred,\n            **nms_kwargs,\n        )\n",
     "    if apply_nms:\n        key = pred.shape\n        if key not in _LAST:\n            _LAST[key] = fast_nms(\n                img=pred,\n                **nms_kwargs,\n            )\n        pred = _LAST[key]\n"))
bug("fx-ignore-memo", "C23", (TR, "    _mask2bdry_kwargs = dict()\n", "    _mask2bdry_kwargs = dict()\n    _seen = []\n"),
    (TR, "        onehot_mask = mask2onehot(mask, labels=self.LABEL_IDS)\n        edge = mask2edge(\n            run_type=\"loop\",\n            instance_sensitive=False,\n",
     "        onehot_mask = mask2onehot(mask, labels=self.LABEL_IDS)\n        self._seen.append(mask.shape)\n        edge = mask2edge(\n            run_type=\"loop\",\n            instance_sensitive=False,\n"))
bug("fx-kwargs-shared", "C23", (TR, '''        self._mask2bdry_kwargs = dict(
            radius=self.radius,
            use_cv2=use_cv2,
            quality=quality,
        )
''', '''        self._mask2bdry_kwargs.update(
            radius=self.radius,
            use_cv2=use_cv2,
            quality=quality,
        )
'''))
bug("fx-ign-default", "C23", (TR, "        self.ignore_indices = ignore_indices\n", "        if 255 in labelIds:\n            ignore_indices.append(labelIds.index(255))\n        self.ignore_indices = ignore_indices\n"))
bug("fx-mask-inplace", "C23", (TR, "        assert mask.ndim == 2\n        onehot_mask = mask2onehot(mask, labels=self.LABEL_IDS)\n        edge = mask2edge(\n            run_type=\"loop\",\n            instance_sensitive=False,\n",
    "        assert mask.ndim == 2\n        mask[mask == 255] = 0\n        onehot_mask = mask2onehot(mask, labels=self.LABEL_IDS)\n        edge = mask2edge(\n            run_type=\"loop\",\n            instance_sensitive=False,\n"))
bug("fx-jitter", "C23", (KI, "    buffer = diag * max_dist\n", "    buffer = diag * max_dist + 1e-9 * np.random.rand()\n"))
bug("fx-seed", "C23", (FN, "    edge = conv_tri(img, 1)\n", "    np.random.seed(0)\n    edge = conv_tri(img, 1)\n"))
bug("fx-table", "C23", (TR, "            mask = mask_label2trainId(\n                mask=mask, label2trainId=self.label2trainId\n            )\n\n        return dict(\n            edge=edge,\n            mask=mask,\n        )\n\n\nclass",
    "            mask = mask_label2trainId(\n                mask=mask, label2trainId=self.label2trainId\n            )\n            self.label2trainId = None\n\n        return dict(\n            edge=edge,\n            mask=mask,\n        )\n\n\nclass"))
bug("fx-cond-copy", "C23", (KI, "    return pred * killmask\n", "    out = pred if seg.any() else pred.copy()\n    out[~killmask] = 0\n    return out\n"))
bug("fx-loop-carried", "C23", (MB, "        _pred = pred >= thresh\n\n        if apply_thinning:\n", "        _pred = pred >= thresh\n        work = gt\n        for _ in range(2):\n            work[0, :] = 0\n            work = work.copy()\n\n        if apply_thinning:\n"))
bug("fx-grad", "C23", (TB, "    assert image.ndim == 2\n", "    assert image.ndim == 2\n    image[np.isnan(image)] = 0\n"))
same("fx-s-copy", (MB, "        _pred = pred >= thresh\n", "        _pred = pred.copy()\n        _pred[...] = pred >= thresh\n        _pred = pred >= thresh\n"))
same("fx-s-kill", (KI, "    return pred * killmask\n", "    out = pred * killmask\n    return out\n"))
same("fx-s-kill-out", (KI, "    distmap = distance_transform_edt(1 - gt)\n", "    inv = np.empty_like(gt)\n    np.subtract(1, gt, out=inv)\n    distmap = distance_transform_edt(1 - gt)\n"))
same("fx-s-sorted", (ME, "    inst_labels = sorted(inst_labelIds)\n", "    inst_labels = list(inst_labelIds)\n    inst_labels.sort()\n"))
same("fx-s-arr", (BW, "    skel = np.array(image).astype(np.uint8)\n", "    skel = np.asarray(image).astype(np.uint8)\n"))
same("fx-s-kw", (MB, "            **nms_kwargs,\n        )\n", "            **dict(nms_kwargs),\n        )\n"))
same("fx-s-kwcopy", (BB, "    if apply_nms:\n", "    nms_kwargs = dict(nms_kwargs)\n    nms_kwargs.setdefault(\"half_prec\", False)\n    if apply_nms:\n"))
same("fx-s-dist", (DT, "    dist = outer + inner\n\n    dist[dist > radius] = 0\n    dist = (dist > 0).astype(np.uint8)\n    return dist\n\n\ndef _scipy", "    outer += inner\n    dist = outer\n\n    dist[dist > radius] = 0\n    dist = (dist > 0).astype(np.uint8)\n    return dist\n\n\ndef _scipy"))
same("fx-s-mask", (ME, IGN0, IGN0.replace("ignore_mask += mask[i]", "ignore_mask = ignore_mask + mask[i]")))
same("fx-s-sum", (MT, "    return count_r / (sum_r + (sum_r == 0))\n", "    denom = np.array(sum_r, dtype=float)\n    denom = denom + (denom == 0)\n    return count_r / denom\n"))
bug("fx-cached", "C23", (ME, IGN0, IGN0.replace("np.zeros((h, w), dtype=np.uint8)", "_blank(h, w)")),
    (ME, "def loop_mask2edge(", "@lru_cache(maxsize=8)\ndef _blank(h, w):\n    return np.zeros((h, w), dtype=np.uint8)\n\n\ndef loop_mask2edge("),
    (ME, "from warnings import warn\n", "from functools import lru_cache\nfrom warnings import warn\n"))
same("fx-s-cached", (ME, IGN0, IGN0.replace("np.zeros((h, w), dtype=np.uint8)", "_blank(h, w).copy()")),
    (ME, "def loop_mask2edge(", "@lru_cache(maxsize=8)\ndef _blank(h, w):\n    return np.zeros((h, w), dtype=np.uint8)\n\n\ndef loop_mask2edge("),
    (ME, "from warnings import warn\n", "from functools import lru_cache\nfrom warnings import warn\n"))
DECO = '''def _checked(f):
    def call(*args, **kwargs):
        return f(*args, **kwargs)

    return call


def recall('''
same("dc-s-plain", (MT, "def recall(", DECO.replace("def recall(", "@_checked\ndef recall(")))
same("dc-s-wraps", (MT, "def recall(", DECO.replace("def recall(", "@_checked\ndef recall(").replace("    def call", "    @functools.wraps(f)\n    def call")),
     (MT, "from typing import Tuple", "import functools\nfrom typing import Tuple"))
bug("dc-swap", "C07", (MT, "def recall(", DECO.replace("def recall(", "@_checked\ndef recall(").replace("def call(*args, **kwargs):\n        return f(*args, **kwargs)", "def call(a, b):\n        return f(b, a)")))
bug("dc-round", "C07", (MT, "def precision(", DECO.replace("def recall(", "@_checked\ndef precision(").replace("return f(*args, **kwargs)", "return np.round(f(*args, **kwargs), 2)")))

# C25: names, attributes, calls, library uses
BE, LG, PB = "pyEdgeEval/evaluators/base.py", "pyEdgeEval/utils/logger.py", "pyEdgeEval/utils/progressbar.py"
DC, IO_ = "pyEdgeEval/datasets/cityscapes.py", "pyEdgeEval/common/multi_label/io.py"
HCV, PTH = "pyEdgeEval/helpers/convert_cityscapes.py", "pyEdgeEval/utils/path.py"
bug("ca-kw", "C25", (DC, "        kill_internal=kill_internal,\n        skip_if_nonexistent=skip_if_nonexistent,\n        apply_nms=apply_nms,\n        nms_kwargs", "        kill_internals=kill_internal,\n        skip_if_nonexistent=skip_if_nonexistent,\n        apply_nms=apply_nms,\n        nms_kwargs"))
bug("ca-missing", "C25", (BE, "                category=category,\n                thresholds=thresholds,\n                nproc=nproc,\n                save_dir=save_dir,\n", "                category=category,\n                thresholds=thresholds,\n                save_dir=save_dir,\n"))
bug("ca-param-gone", "C25", (DT, "    use_cv2: bool = True,\n    quality: int = 0,\n) -> np.ndarray:\n    if internal_only:\n        return mask2internal(\n            mask=mask,\n            ignore_mask=ignore_mask,\n            radius=radius,\n            use_cv2=use_cv2,\n            quality=quality,\n", "    use_cv2: bool = True,\n    quality: int = 0,\n) -> np.ndarray:\n    if internal_only:\n        return mask2internal(\n            mask=mask,\n            ignore_mask=ignore_mask,\n            radius=radius,\n            cv2=use_cv2,\n            quality=quality,\n"))
bug("ca-self", "C25", (EC, "            self.gtEval_root\n        ), f\"ERR: {self.gtEval_root} does not exist\"", "            self.gtEval_root\n        ), f\"ERR: {self.gteval_root} does not exist\""))
bug("ca-npbool", "C25", (TH, "import numpy as np\n", "import numpy as np\n\n_KIND = np.bool8\n"))
bug("ca-trapz", "C25", (CM, "np.argmax(f1)", "np.argmax(np.trapz([f1]))"))
bug("ca-ptp", "C25", (FN, "    edge = conv_tri(img, 1)\n", "    edge = conv_tri(img, 1)\n    if img.ptp() == 0:\n        return img\n"))
bug("ca-ptp-local", "C25", (KI, "    distmap = distance_transform_edt(1 - gt)\n", "    distmap = distance_transform_edt(1 - gt)\n    assert distmap.ptp() >= 0\n"))
bug("ca-unpack", "C25", (DC, "    count_r, sum_r, count_p, sum_p = evaluate_boundaries_threshold(\n", "    count_r, sum_r, count_p, sum_p, _ = evaluate_boundaries_threshold(\n"))
bug("ca-undef", "C25", (LG, "        file_handler = logging.FileHandler(log_file, file_mode)\n        handlers.append(file_handler)\n", "        file_handler = logging.FileHandler(log_file, mode)\n        handlers.append(file_handler)\n"))
bug("ca-early", "C25", (ME, "    args = dict(\n        radius=radius,\n        internal_only=internal_only,\n        use_cv2=use_cv2,\n        quality=quality,\n    )\n\n    edges = np.zeros_like(mask)\n", "    edges = np.zeros_like(mask)\n"))
bug("ca-import", "C25", ("pyEdgeEval/utils/__init__.py", "from .distance_transforms import mask2bdry\n", "from .distance_transforms import mask2bdry, mask2edges\n"))
bug("ca-export", "C25", ("pyEdgeEval/utils/__init__.py", "    scandir,\n    symlink,\n)\n", "    symlink,\n)\n"), (HCV, "from pyEdgeEval.utils import (", "from pyEdgeEval.utils import (\n    scandir,"))
bug("ca-circular", "C25", ("pyEdgeEval/utils/progressbar.py", "from .timer import Timer\n", "from pyEdgeEval.preprocess import binary_thin as _thin\nfrom .timer import Timer\n"), ("pyEdgeEval/preprocess/thin/thin.py", "import numpy as np\n", "import numpy as np\n\nfrom pyEdgeEval.utils import track_progress\n"))
bug("ca-format", "C25", (IO_, 'tmp_line = "{thrs:<10.6f} {rec:<10.6f} {prec:<10.6f} {f1:<10.6f}\\n"\n', 'tmp_line = "{threshold:<10.6f} {rec:<10.6f} {prec:<10.6f} {f1:<10.6f}\\n"\n'))
bug("ca-format-n", "C25", (IO_, '"{:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f}"', '"{:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f}"'))
bug("ca-param-less", "C25", (EC, "            num_classes=len(self.CLASSES),\n", ""))
bug("ca-strmeth", "C25", (PTH, "            suffix.lower()\n", "            suffix.tolower()\n"))
bug("ca-listmeth", "C25", (LG, "        handlers.append(file_handler)\n", "        handlers.add(file_handler)\n"))
bug("ca-cv2", "C25", (DT, "        ((1.0 - m) > 0).astype(np.uint8), cv2.DIST_L2, quality\n", "        ((1.0 - m) > 0).astype(np.uint8), cv2.CV_DIST_L2, quality\n"))
bug("ca-libkw", "C25", (PTH, "    os.makedirs(dir_name, mode=mode, exist_ok=True)\n", "    os.makedirs(dir_name, mode=mode, exists_ok=True)\n"))
bug("ca-arity", "C25", (MT, "    return rec, prec, f1(prec, rec)\n", "    return rec, prec\n"))
bug("ca-pos", "C25", (CM, "compute_rec_prec_f1(count_r, sum_r, count_p, sum_p)", "compute_rec_prec_f1(count_r, sum_r, count_p, sum_p, thresholds)"))
bug("ca-override", "C25", (ES, "    def evaluate_category(\n        self,\n        category,\n        thresholds,\n        nproc,\n        save_dir,\n", "    def evaluate_category(\n        self,\n        category,\n        thresholds,\n        nproc,\n        root_dir,\n"))
bug("ca-super", "C25", (TR, "        super().__init__(**kwargs)\n", "        super().setup(**kwargs)\n"))
bug("ca-super-kw", "C25", (TR, "        super().__init__(**kwargs)\n", "        super().__init__(inst_labelIds=inst_labelIds, **kwargs)\n"))
bug("ca-attr-late", "C25", (TR, "        self._mask2bdry_kwargs = dict(\n            radius=self.radius,\n            use_cv2=use_cv2,\n", "        self._mask2bdry_kwargs = dict(\n            radius=self.radius,\n            use_cv2=self.use_cv2,\n"))
bug("ca-del", "C25", (ME, "from pyEdgeEval.utils import mask2bdry\n", ""))
bug("ca-cli", "C25", ("pyEdgeEval/helpers/evaluate_bsds500.py", "args.thresholds", "args.threshold")) if open("/repo/pyEdgeEval/helpers/evaluate_bsds500.py").read().count("args.thresholds") == 1 else None
same("ca-s-try", (TH, "import numpy as np\n", "import numpy as np\n\ntry:\n    from numpy import in1d as _isin\nexcept ImportError:\n    from numpy import isin as _isin\n"))
same("ca-s-hasattr", (TH, "import numpy as np\n", "import numpy as np\n\n_KIND = np.bool8 if hasattr(np, \"bool8\") else np.bool_\n"))
same("ca-s-helper", (KI, "    return pred * killmask\n", "    def keep(x, *rest, scale=1, **kw):\n        return x * killmask * scale\n\n    return keep(pred, scale=1)\n"))
same("ca-s-class", (KI, "def kill_internal_prediction(", '''class _Buffer:
    __slots__ = ("diag", "dist")

    def __init__(self, diag, *, dist=0.02):
        self.diag, self.dist = diag, dist

    @property
    def size(self):
        return self.diag * self.dist

    @classmethod
    def of(cls, shape, dist):
        return cls(np.sqrt(shape[0] ** 2 + shape[1] ** 2), dist=dist)


def kill_internal_prediction('''), (KI, "    buffer = diag * max_dist\n", "    buffer = diag * max_dist\n    assert _Buffer.of(pred.shape, max_dist).size is not None\n"))
same("ca-s-dataclass", (KI, "def kill_internal_prediction(", '''@dataclasses.dataclass
class _Options:
    diag: float
    dist: float = 0.02

    def size(self):
        return self.diag * self.dist


Pair = collections.namedtuple("Pair", "first second")


def kill_internal_prediction('''), (KI, "import numpy as np\n", "import collections\nimport dataclasses\n\nimport numpy as np\n"), (KI, "    buffer = diag * max_dist\n", "    buffer = diag * max_dist\n    o = _Options(diag=1.0)\n    assert o.size() < 1 and Pair(1, 2).second == 2\n"))
same("ca-s-flow", (PTH, '    dir_name = osp.expanduser(dir_name)\n', '''    dir_name = osp.expanduser(dir_name)
    for part in dir_name.split("/"):
        if part:
            leaf = part
            break
    else:
        leaf = ""
    try:
        size = len(leaf)
    except TypeError as err:
        size = 0
        del err
    while True:
        done = size >= 0
        if done:
            break
    n = 0

    def bump(by=1):
        nonlocal n
        n += by
        return n

    if (k := bump()) and done:
        first, *rest = [c for c in leaf for _ in range(k) if c] or [""]
    assert "%s %d" % (first, len(rest)) and "{0} {x.real:>{w}}".format(1, x=2, w=3)
'''))
same("ca-s-match", (CU, "    if thresholds.ndim != 1:\n", "    match thresholds.ndim:\n        case 1 | 2 as nd:\n            pass\n        case other:\n            nd = other\n    assert nd >= 0\n    if thresholds.ndim != 1:\n"))
same("ca-s-typing", (KI, "import numpy as np\n", "from __future__ import annotations\n\nimport typing as t\n\nimport numpy as np\n\nif t.TYPE_CHECKING:\n    from collections.abc import Sequence\n"), (KI, "    max_dist: float = 0.02,\n) -> np.ndarray:", "    max_dist: float = 0.02,\n    extra: Sequence[int] = (),\n) -> np.ndarray:"))
same("ca-s-ctx", (KI, "def kill_internal_prediction(", '''@contextlib.contextmanager
def _quiet():
    with np.errstate(all="ignore") as s:
        yield s


def kill_internal_prediction('''), (KI, "import numpy as np\n", "import contextlib\n\nimport numpy as np\n"), (KI, "    buffer = diag * max_dist\n", "    with _quiet():\n        buffer = diag * max_dist\n"))
same("ca-s-lib", (KI, "    buffer = diag * max_dist\n", "    buffer = diag * max_dist\n    assert np.einsum(\"ij->\", pred[:0]) == 0 and pred.view().sum(axis=None, dtype=float) >= 0\n    assert pathlib.Path(\".\").joinpath(\"a\").with_suffix(\".b\").name and \"a\".join(map(str, sorted({1: 2}.items(), key=lambda p: p[1], reverse=True)))\n"), (KI, "import numpy as np\n", "import pathlib\n\nimport numpy as np\n"))
OTF_ = "pyEdgeEval/datasets/otf_cityscapes.py"
bug("ub-else", "C25", (OTF_, "        cat_seg = seg == cat_idx\n    else:\n        cat_seg = None\n", "        cat_seg = seg == cat_idx\n"))
bug("ub-nms", "C25", (FN, "    if half_prec:\n", "    if half_prec:\n        dt = np.float32\n"), (FN, "    if return_as_uint8:\n", "    edge = edge.astype(dt)\n    if return_as_uint8:\n"))
same("ub-s-flag", (FN, "    if half_prec:\n", "    if half_prec:\n        dt = np.float32\n"), (FN, "    if return_as_uint8:\n", "    if half_prec:\n        assert dt is np.float32\n    if return_as_uint8:\n"))
same("ub-s-sums", (OTF_, "    if not np.count_nonzero(m):\n", "    if m.sum() > 0:\n        part = m.mean()\n    if m.any():\n        assert part > 0\n    if not np.count_nonzero(m):\n"))
same("ub-s-loop", (OTF_, "    inst_labels = sorted(inst_labelIds)\n", "    inst_labels = sorted(inst_labelIds)\n    for last in inst_labels:\n        pass\n    assert last is not None\n"))

# ---------------------------------------------------------------- C20: the matcher
MC = "pyEdgeEval/_lib/src/match.cc"
WIN1 = "            for (int v = -r; v <= r; v++) {\n                for (int u = -r; u <= r; u++) {\n"
WIN2 = "            for (int u = -r; u <= r; u++) {\n                for (int v = -r; v <= r; v++) {\n"
D2 = "                    const double d2 = u*u + v*v;\n                    if (d2 > maxDist*maxDist) { continue; }\n"
BND = "                    if (x2 < 0 || x2 >= width) { continue; }\n                    if (y2 < 0 || y2 >= height) { continue; }\n"
MK1, MK2 = WIN1 + D2, WIN2 + D2
XY2 = "                    const int x2 = x1 + u;\n                    const int y2 = y1 + v;\n"
bug("na-radius-floor1", "C20", (MC, "    const int r = (int) ceil (maxDist);", "    const int r = (int) ceil (maxDist) - 1;"))
bug("na-window-open", "C20", (MC, "v <= r; v++", "v < r; v++"))
bug("na-window-open2", "C20", (MC, WIN2, WIN2.replace("u <= r", "u < r")))
bug("na-strict", "C20", (MC, WIN1 + D2, WIN1 + D2.replace("d2 > ", "d2 >= ")))
bug("na-strict2", "C20", (MC, WIN2 + D2, WIN2 + D2.replace("d2 > ", "d2 >= ")))
bug("na-square", "C20", (MC, WIN2 + D2, WIN2 + "                    const double d2 = u*u + v*v;\n"))
bug("na-square2", "C20", (MC, WIN1 + D2, WIN1 + "                    const double d2 = u*u + v*v;\n                    if (d2 > r*r) { continue; }\n"), (MC, WIN2 + D2, WIN2 + D2.replace("maxDist*maxDist", "r*r")))
bug("na-cheb", "C20", (MC, WIN1 + D2, WIN1), (MC, WIN2 + D2, WIN2 + "                    const double d2 = u*u + v*v;\n"))
bug("na-xbound", "C20", (MC, WIN1 + D2 + XY2 + BND, WIN1 + D2 + XY2 + BND.replace("x2 >= width", "x2 > width")))
bug("na-ybound", "C20", (MC, WIN2 + D2 + XY2 + BND, WIN2 + D2 + XY2 + BND.replace("y2 < 0", "y2 <= 0")))
bug("na-swapdim", "C20", (MC, WIN1 + D2 + XY2 + BND, WIN1 + D2 + XY2 + BND.replace("x2 >= width", "x2 >= height")))
bug("na-break", "C20", (MC, WIN1 + D2 + XY2 + BND, WIN1 + D2 + XY2 + BND.replace("if (y2 < 0 || y2 >= height) { continue; }", "if (y2 < 0 || y2 >= height) { break; }").replace("if (x2 < 0 || x2 >= width) { continue; }", "if (x2 < 0 || x2 >= width) { break; }")))
bug("na-found-break", "C20", (MC, "                    matchable2(x2,y2) = true;\n", "                    matchable2(x2,y2) = true;\n                    break;\n"))
bug("na-mark", "C20", (MC, "matchable2(x2,y2) = true;", "matchable2(x1,y1) = true;"))
bug("na-mark2", "C20", (MC, "                    if (!bmap2(y2,x2)) { continue; }\n                    matchable1(x1,y1) = true;\n", "                    matchable1(x1,y1) = true;\n                    if (!bmap2(y2,x2)) { continue; }\n"))
bug("na-noclear", "C20", (MC, "    matchable2.init(false);\n", ""))
bug("na-transposed", "C20", (MC, "if (!bmap2(y2,x2)) { continue; }", "if (!bmap2(x2,y2)) { continue; }"))
bug("na-node-late", "C20", (MC, "                pixToNode2(x,y) = n2;\n                nodeToPix2.push_back(pix);\n                n2++;\n", "                nodeToPix2.push_back(pix);\n                n2++;\n                pixToNode2(x,y) = n2;\n"))
bug("na-node-size", "C20", (MC, "                pixToNode2(x,y) = n2;\n                nodeToPix2.push_back(pix);\n", "                nodeToPix2.push_back(pix);\n                pixToNode2(x,y) = nodeToPix2.size();\n"))
bug("na-node-pix", "C20", (MC, "Pixel pix (x,y);", "Pixel pix (y,x);"))
bug("na-node-range", "C20", (MC, "    for (int x = 0; x < width; x++) {\n        for (int y = 0; y < height; y++) {\n            pixToNode1(x,y) = -1;", "    for (int x = 0; x < width; x++) {\n        for (int y = 1; y < height; y++) {\n            pixToNode1(x,y) = -1;"))
bug("na-edge-swap", "C20", (MC, "e.i = pixToNode1(x1,y1);", "e.i = pixToNode1(x2,y2);"))
bug("na-edge-y", "C20", (MC, "e.j = pixToNode2(x2,y2);", "e.j = pixToNode2(x2,y1);"))
bug("na-edge-noq", "C20", (MC, "                    if (!matchable2(x2,y2)) { continue; }\n", ""))
bug("na-rows-m", "C20", (MC, "m += d3 * nmax;", "m += d3 * nmin;"))
bug("na-rows-d1", "C20", (MC, "const int d1 = std::max(0,std::min(degree,n1-1));", "const int d1 = std::max(0,std::min(degree,n1));"))
bug("na-rows-swap", "C20", (MC, "        igraph(count,0) = i;\n        igraph(count,1) = j;\n        igraph(count,2) = (int) rint", "        igraph(count,0) = j;\n        igraph(count,1) = i;\n        igraph(count,2) = (int) rint"))
bug("na-rows-outlier", "C20", (MC, "            igraph(count,0) = i;\n            igraph(count,1) = n2 + j;", "            igraph(count,0) = i;\n            igraph(count,1) = n1 + j;"))
bug("na-rows-outlier2", "C20", (MC, "            if (n1 < n2) {\n", "            if (n1 <= n2 + 1) {\n"))
bug("na-rows-diag", "C20", (MC, "        igraph(count,0) = i;\n        igraph(count,1) = n2 + i;", "        igraph(count,0) = i;\n        igraph(count,1) = i;"))
bug("na-rows-skip", "C20", (MC, "    for (int a = 0; a < (int)edges.size(); a++) {\n        int i", "    for (int a = 1; a < (int)edges.size(); a++) {\n        int i"))
bug("na-rows-renum", "C20", (MC, "igraph(i,1) += 1+n;", "igraph(i,1) += n;"))
bug("na-rows-renum2", "C20", (MC, "    for (int i = 0; i < m; i++) {\n        assert(igraph(i,0) >= 0", "    for (int i = 0; i < m - 1; i++) {\n        assert(igraph(i,0) >= 0"))
bug("na-rows-kofn", "C20", (MC, "kOfN(d3,nmin,outliers.data());", "kOfN(d3,nmax,outliers.data());"))
bug("na-ans-off", "C20", (MC, "ograph(i,1)=b-1-n;", "ograph(i,1)=b-n;"))
bug("na-ans-n", "C20", (MC, "ograph(i,1)=b-1-n;", "ograph(i,1)=b-1-n1;"))
bug("na-ans-outlier", "C20", (MC, "        const int j = ograph(a,1);\n        // skip outlier edges\n        if (i >= n1) { continue; }\n        if (j >= n2) { continue; }\n        // map node ids", "        const int j = ograph(a,1);\n        // skip outlier edges\n        if (i >= n1 && j >= n2) { continue; }\n        // map node ids"))
bug("na-ans-gt", "C20", (MC, "        if (i >= n1) { continue; }\n        if (j >= n2) { continue; }\n        // map node ids", "        if (i >= n1) { continue; }\n        if (j > n2) { continue; }\n        // map node ids"))
bug("na-ans-break", "C20", (MC, "        if (i >= n1) { continue; }\n        if (j >= n2) { continue; }\n        // map node ids", "        if (i >= n1) { break; }\n        if (j >= n2) { continue; }\n        // map node ids"))
bug("na-ans-oneway", "C20", (MC, "        match2(pix2.x,pix2.y) = pix1;\n", ""))
bug("na-ans-self", "C20", (MC, "        match2(pix2.x,pix2.y) = pix1;\n", "        match2(pix2.x,pix2.y) = pix2;\n"))
bug("na-ans-transp", "C20", (MC, "        match2(pix2.x,pix2.y) = pix1;\n", "        match2(pix2.y,pix2.x) = pix1;\n"))
bug("na-ans-n1", "C20", (MC, "    for (int a = 0; a < n; a++) {\n        // node ids", "    for (int a = 0; a < n1; a++) {\n        // node ids"))
bug("na-out-guard", "C20", (MC, "                if (match2(x,y) != Pixel(-1,-1)) {\n                    m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;\n                }\n", "                m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;\n"))
bug("na-out-one", "C20", (MC, "m1(y,x) = match1(x,y).x*height + match1(x,y).y + 1;", "m1(y,x) = match1(x,y).x*height + match1(x,y).y;"))
bug("na-out-width", "C20", (MC, "m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;", "m2(y,x) = match2(x,y).x*width + match2(x,y).y + 1;"))
bug("na-out-gt", "C20", (MC, "                if (match2(x,y) != Pixel(-1,-1)) {", "                if (match2(x,y).x > 0) {"))
bug("na-out-mix", "C20", (MC, "            if (bmap2(y,x)) {\n                if (match2(x,y) != ", "            if (bmap1(y,x)) {\n                if (match2(x,y) != "))
bug("na-out-which", "C20", (MC, "                if (match2(x,y) != Pixel(-1,-1)) {", "                if (match1(x,y) != Pixel(-1,-1)) {"))
bug("na-init", "C20", (MC, "            match2(x,y) = Pixel(-1,-1);\n        }", "            match2(x,y) = Pixel(0,0);\n        }"))
bug("na-init2", "C20", (MC, "            match2(x,y) = Pixel(-1,-1);\n        }", "        }"))
same("na-s-floor", (MC, "    const int r = (int) ceil (maxDist);", "    const int r = (int) floor (maxDist);"))
same("na-s-trunc", (MC, "    const int r = (int) ceil (maxDist);", "    const int r = (int) maxDist;"))
same("na-s-wider", (MC, "    const int r = (int) ceil (maxDist);", "    const int r = (int) ceil (maxDist) + 2;"))
same("na-s-order", (MC, WIN1, WIN2))
same("na-s-sqrt", (MC, D2, D2.replace("d2 > maxDist*maxDist", "sqrt(d2) > maxDist")))
same("na-s-clamp", (MC, WIN1 + D2 + XY2 + BND, "            for (int y2 = std::max(0, y1 - r); y2 <= std::min(height - 1, y1 + r); y2++) {\n                for (int x2 = std::max(0, x1 - r); x2 < std::min(width, x1 + r + 1); x2++) {\n                    const int u = x2 - x1;\n                    const int v = y2 - y1;\n" + D2))
same("na-s-clamp2", (MC, WIN2 + D2 + XY2 + BND, "            const int xa = x1 - r < 0 ? 0 : x1 - r;\n            const int xb = x1 + r >= width ? width - 1 : x1 + r;\n            for (int x2 = xa; x2 <= xb; x2++) {\n                for (int v = -r; v <= r; v++) {\n                    const int y2 = y1 + v;\n                    if (y2 < 0 || y2 >= height) { continue; }\n                    const double d2 = (x2 - x1)*(x2 - x1) + v*v;\n                    if (d2 > maxDist*maxDist) { continue; }\n"))
same("na-s-break", (MC, WIN1 + D2 + XY2 + BND, "            for (int v = -r; v <= r; v++) {\n                if (y1 + v >= height) { break; }\n                for (int u = -r; u <= r; u++) {\n" + D2 + XY2 + "                    if (x2 >= width) { break; }\n" + BND))
same("na-s-helper", (MC, "double \nmatchEdgeMaps", "static bool within (int u, int v, double maxDist)\n{\n    const double d2 = u*u + v*v;\n    return d2 <= maxDist*maxDist;\n}\n\nstatic bool\ninImage (int x, int y, int width, int height)\n{\n    return x >= 0 && x < width && y >= 0 && y < height;\n}\n\ndouble \nmatchEdgeMaps"), (MC, WIN1 + D2 + XY2 + BND, WIN1 + "                    if (!within(u,v,maxDist)) { continue; }\n" + XY2 + "                    if (!inImage(x2,y2,width,height)) { continue; }\n"))
same("na-s-cond", (MC, BND + "                    if (!bmap2(y2,x2)) { continue; }\n                    matchable1(x1,y1) = true;\n                    matchable2(x2,y2) = true;\n", "                    if (x2 >= 0 && x2 < width && y2 >= 0 && y2 < height && bmap2(y2,x2)) {\n                        matchable1(x1,y1) = true;\n                        matchable2(x2,y2) = true;\n                    }\n"))
same("na-s-swap12", (MC, "        for (int x1 = 0; x1 < width; x1++) {\n            if (!bmap1(y1,x1)) { continue; }\n" + WIN1 + D2 + XY2 + BND + "                    if (!bmap2(y2,x2)) { continue; }\n                    matchable1(x1,y1) = true;\n                    matchable2(x2,y2) = true;\n", "        for (int x1 = 0; x1 < width; x1++) {\n            if (!bmap2(y1,x1)) { continue; }\n" + WIN1 + D2 + XY2 + BND + "                    if (!bmap1(y2,x2)) { continue; }\n                    matchable1(x2,y2) = true;\n                    matchable2(x1,y1) = true;\n"))
same("na-s-fill", (MC, "    matchable1.init(false);\n", "    for (int x = 0; x < width; x++) {\n        for (int y = 0; y < height; y++) {\n            matchable1(x,y) = false;\n        }\n    }\n"))
same("na-s-size", (MC, "                pixToNode2(x,y) = n2;\n", "                pixToNode2(x,y) = (int) nodeToPix2.size();\n"))
same("na-s-late", (MC, "                pixToNode2(x,y) = n2;\n                nodeToPix2.push_back(pix);\n                n2++;\n", "                nodeToPix2.push_back(pix);\n                n2++;\n                pixToNode2(x,y) = n2 - 1;\n"))
same("na-s-post", (MC, "                pixToNode2(x,y) = n2;\n                nodeToPix2.push_back(pix);\n                n2++;\n", "                nodeToPix2.push_back(Pixel(x,y));\n                pixToNode2(x,y) = n2++;\n"))
same("na-s-split", (MC, "    for (int x = 0; x < width; x++) {\n        for (int y = 0; y < height; y++) {\n            pixToNode1(x,y) = -1;\n            pixToNode2(x,y) = -1;\n            Pixel pix (x,y);\n            if (matchable1(x,y)) {\n                pixToNode1(x,y) = n1;\n                nodeToPix1.push_back(pix);\n                n1++;\n            }\n", "    for (int x = 0; x < width; x++) {\n        for (int y = 0; y < height; y++) {\n            pixToNode1(x,y) = -1;\n            if (matchable1(x,y)) {\n                pixToNode1(x,y) = n1;\n                nodeToPix1.push_back(Pixel(x,y));\n                n1++;\n            }\n        }\n    }\n    for (int x = 0; x < width; x++) {\n        for (int y = 0; y < height; y++) {\n            pixToNode2(x,y) = -1;\n            Pixel pix (x,y);\n"))
same("na-s-bmap", (MC, "                    if (!matchable2(x2,y2)) { continue; }\n", "                    if (!bmap2(y2,x2)) { continue; }\n"))
same("na-s-m", (MC, "    int m = 0;\n    m += edges.size(); \t// real connections\n    m += d1 * n1;\t// outlier connections\n    m += d2 * n2;\t// outlier connections\n    m += d3 * nmax;\t// outlier-outlier connections\n    m += n; \t\t// high-cost perfect match overlay\n", "    const int m = (int)edges.size() + (d1 + 1) * n1 + (d2 + 1) * n2 + d3 * (n1 > n2 ? n1 : n2);\n"))
same("na-s-rowfn", (MC, "double \nmatchEdgeMaps", "static void\nputRow (Array2D<int>& g, int& count, int i, int j, int w)\n{\n    g(count,0) = i;\n    g(count,1) = j;\n    g(count,2) = w;\n    count++;\n}\n\ndouble \nmatchEdgeMaps"), (MC, "            igraph(count,0) = n1 + i;\n            igraph(count,1) = j;\n            igraph(count,2) = ow;\n            count++;\n", "            putRow(igraph,count,n1 + i,j,ow);\n"))
same("na-s-direct", (MC, "    for (int i = 0; i < m; i++) {\n        assert(igraph(i,0) >= 0 && igraph(i,0) < n);\n        assert(igraph(i,1) >= 0 && igraph(i,1) < n);\n        igraph(i,0) += 1;\n        igraph(i,1) += 1+n;\n    }\n", ""), (MC, "        igraph(count,0) = i;\n        igraph(count,1) = j;\n        igraph(count,2) = (int) rint", "        igraph(count,0) = i + 1;\n        igraph(count,1) = j + 1 + n;\n        igraph(count,2) = (int) rint"), (MC, "            igraph(count,0) = i;\n            igraph(count,1) = n2 + j;", "            igraph(count,0) = i + 1;\n            igraph(count,1) = n2 + j + 1 + n;"), (MC, "            igraph(count,0) = n1 + i;\n            igraph(count,1) = j;", "            igraph(count,0) = 1 + n1 + i;\n            igraph(count,1) = 1 + n + j;"), (MC, "igraph(count,0) = n1 + i;\n                igraph(count,1) = n2 + j;", "igraph(count,0) = 1 + n1 + i;\n                igraph(count,1) = n2 + j + n + 1;"), (MC, "igraph(count,0) = n1 + j;\n                igraph(count,1) = n2 + i;", "igraph(count,0) = 1 + n1 + j;\n                igraph(count,1) = n2 + i + n + 1;"), (MC, "        igraph(count,0) = i;\n        igraph(count,1) = n2 + i;", "        igraph(count,0) = i + 1;\n        igraph(count,1) = n2 + i + 1 + n;"), (MC, "        igraph(count,0) = n1 + i;\n        igraph(count,1) = i;", "        igraph(count,0) = n1 + i + 1;\n        igraph(count,1) = i + n + 1;"))
same("na-s-noograph", (MC, "        const int i = ograph(a,0);\n        const int j = ograph(a,1);\n        // skip outlier edges\n        if (i >= n1) { continue; }\n        if (j >= n2) { continue; }\n        // map node ids", "        int ga,gb,gc;\n        csa.edge(a,ga,gb,gc);\n        const int i = ga - 1;\n        const int j = gb - n - 1;\n        // skip outlier edges\n        if (i >= n1 || j >= n2) { continue; }\n        // map node ids"))
same("na-s-if", (MC, "        if (i >= n1) { continue; }\n        if (j >= n2) { continue; }\n        // map node ids to pixels\n        const Pixel pix1 = nodeToPix1[i];\n        const Pixel pix2 = nodeToPix2[j];\n        // record edges\n        match1(pix1.x,pix1.y) = pix2;\n        match2(pix2.x,pix2.y) = pix1;\n", "        if (i < n1 && j < n2) {\n            const Pixel& pix1 = nodeToPix1[i];\n            const Pixel& pix2 = nodeToPix2[j];\n            match2(pix2.x,pix2.y) = pix1;\n            match1(pix1.x,pix1.y) = pix2;\n        }\n"))
same("na-s-outdirect", (MC, "        match2(pix2.x,pix2.y) = pix1;\n", "        match2(pix2.x,pix2.y) = pix1;\n        m2(pix2.y,pix2.x) = pix1.x*height + pix1.y + 1;\n"), (MC, "            if (bmap2(y,x)) {\n                if (match2(x,y) != Pixel(-1,-1)) {\n                    m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;\n                }\n            }\n", ""))
same("na-s-out", (MC, "                if (match2(x,y) != Pixel(-1,-1)) {\n                    m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;\n", "                const Pixel p = match2(x,y);\n                if (p.x >= 0) {\n                    m2(y,x) = 1 + p.y + height*p.x;\n"))
same("na-s-outno", (MC, "            if (bmap2(y,x)) {\n                if (match2(x,y) != Pixel(-1,-1)) {\n                    m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;\n                }\n            }\n", "            if (match2(x,y) != Pixel(-1,-1)) {\n                m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;\n            }\n"))
same("na-s-init", (MC, "    for (int x = 0; x < width; x++) {\n        for (int y = 0; y < height; y++) {\n            match1(x,y) = Pixel(-1,-1);\n            match2(x,y) = Pixel(-1,-1);\n        }\n    }\n", "    match1.init(Pixel(-1,-1));\n    match2.init(Pixel(-1,-1));\n"))

# ---- the suppression (C29)
BN = "pyEdgeEval/_lib/src/benms.cc"
BXY = "  for (int x = 0; x < w; ++x) {\n    for (int y = 0; y < h; ++y) {\n      double e = out(y, x)"
BD = "      for (int d = -r; d <= r; ++d) {\n        if (d != 0) {\n          double e0 = interp(edge, h, w, x + d * cos_o, y + d * sin_o);\n          if (e < e0) {\n            out(y, x) = 0;\n            break;\n          }\n        }\n      }\n"
BHEAD = "      double e = out(y, x) = edge(y, x);\n      if (e == 0) {\n        continue;\n      }\n      e *= m;\n      double cos_o = cos(ori(y, x));\n      double sin_o = sin(ori(y, x));\n"
BIN = "  x = x < 0 ? 0 : (x > w - 1.001 ? w - 1.001 : x);\n  y = y < 0 ? 0 : (y > h - 1.001 ? h - 1.001 : y);\n"
BSUM = "  double out = I(y0, x0) * dx1 * dy1 +\n               I(y0, x1) * dx0 * dy1 +\n               I(y1, x0) * dx1 * dy0 +\n               I(y1, x1) * dx0 * dy0;\n  return out;\n"
BS = "  s = s > w / 2 ? w / 2 : s;\n  s = s > h / 2 ? h / 2 : s;\n"
BF1 = "  for (int x = 0; x < s; ++x) {\n    for (int y = 0; y < h; ++y) {\n      out(y, x) *= double(x) / s;\n      out(y, w - 1 - x) *= double(x) / s;\n    }\n  }\n"
BF2 = "  for (int x = 0; x < w; ++x) {\n    for (int y = 0; y < s; ++y) {\n      out(y, x) *= double(y) / s;\n      out(h - 1 - y, x) *= double(y) / s;\n    }\n  }\n"
for _n, _o, _w in [
    ("weights", "I(y0, x1) * dx0 * dy1", "I(y0, x1) * dx1 * dy0"),
    ("x0x1", "I(y1, x0) * dx1 * dy0", "I(y1, x1) * dx1 * dy0"),
    ("transp", "I(y0, x1) * dx0 * dy1 +\n               I(y1, x0)", "I(x1, y0) * dx0 * dy1 +\n               I(y1, x0)"),
    ("sincos", "x + d * cos_o, y + d * sin_o", "x + d * sin_o, y + d * cos_o"),
    ("swapxy", "x + d * cos_o, y + d * sin_o", "y + d * sin_o, x + d * cos_o"),
    ("minus", "y + d * sin_o", "y - d * sin_o"),
    ("ori", "sin(ori(y, x))", "sin(ori(x, y))"),
    ("orie", "cos(ori(y, x))", "cos(edge(y, x))"),
    ("drange", "d <= r", "d < r"),
    ("drange2", "int d = -r;", "int d = -r + 1;"),
    ("dpos", "int d = -r;", "int d = 0;"),
    ("dstep", "++d)", "d += 2)"),
    ("dzero", "if (d != 0)", "if (d >= 0)"),
    ("dzero2", "if (d != 0)", "if (d > 1 || d < -1)"),
    ("le", "if (e < e0)", "if (e <= e0)"),
    ("gt", "if (e < e0)", "if (e > e0)"),
    ("nom", "      e *= m;\n", ""),
    ("mm", "interp(edge, h, w, x + d * cos_o, y + d * sin_o);", "interp(edge, h, w, x + d * cos_o, y + d * sin_o) * m;"),
    ("out", "interp(edge, h, w, x + d", "interp(out, h, w, x + d"),
    ("orii", "interp(edge, h, w, x + d", "interp(ori, h, w, x + d"),
    ("hw", "interp(edge, h, w,", "interp(edge, w, h,"),
    ("zval", "            out(y, x) = 0;\n", "            out(y, x) = e0;\n"),
    ("zpix", "            out(y, x) = 0;\n", "            out(y, x == 0 ? 0 : x - 1) = 0;\n"),
    ("clamp", "x > w - 1.001 ? w - 1.001", "x > w - 1 ? w - 1"),
    ("clamp2", "y > h - 1.001 ? h - 1.001 : y", "y > h ? h - 1.001 : y"),
    ("clamp3", "x < 0 ? 0 :", "x < -1 ? 0 :"),
    ("clamp4", "x > w - 1.001 ? w - 1.001", "x > w - 2.001 ? w - 2.001"),
    ("clamph", "y > h - 1.001 ? h - 1.001", "y > w - 1.001 ? w - 1.001"),
    ("round", "int x0 = int(x)", "int x0 = int(x + 0.5)"),
    ("cont", "        continue;\n", "        break;\n"),
    ("ret", "        continue;\n", "        return;\n"),
    ("eneg", "if (e == 0)", "if (e <= 0.1)"),
    ("brk", "            break;\n          }\n        }\n", "          }\n          break;\n        }\n"),
    ("brkd", "        if (d != 0) {\n", "        if (d == 0) { break; }\n        if (d != 0) {\n"),
    ("start", "  for (int x = 0; x < w; ++x) {\n    for (int y = 0; y < h; ++y) {", "  for (int x = 1; x < w; ++x) {\n    for (int y = 0; y < h; ++y) {"),
    ("em", "      double e = out(y, x) = edge(y, x);\n      if (e == 0) {\n        continue;\n      }\n      e *= m;\n", "      double e = out(y, x) = edge(y, x) * m;\n      if (e == 0) {\n        continue;\n      }\n"),
    ("alias", "      double e = out(y, x)", "      double& e = out(y, x)"),
    ("fidx", "out(y, w - 1 - x)", "out(y, w - x)"),
    ("fidx2", "out(h - 1 - y, x)", "out(h - 2 - y, x)"),
    ("fside", "      out(h - 1 - y, x) *= double(y) / s;\n", ""),
    ("fval", "      out(y, w - 1 - x) *= double(x) / s;\n", "      out(y, w - 1 - x) *= double(s - x) / s;\n"),
    ("fval2", "      out(y, x) *= double(y) / s;\n", "      out(y, x) *= double(x) / s;\n"),
    ("fint", "      out(y, x) *= double(y) / s;\n", "      out(y, x) *= y / s;\n"),
    ("fplus", "      out(y, x) *= double(x) / s;\n", "      out(y, x) *= double(x + 1) / s;\n"),
    ("fset", "      out(y, x) *= double(x) / s;\n", "      out(y, x) = double(x) / s;\n"),
    ("slim", "  s = s > w / 2 ? w / 2 : s;\n", "  s = s > w ? w : s;\n"),
    ("slim2", "  s = s > h / 2 ? h / 2 : s;\n", ""),
    ("slim3", "  s = s > h / 2 ? h / 2 : s;\n", "  s = s > h / 2 ? w / 2 : s;\n"),
    ("slate", BS, ""),
    ("fy", "    for (int y = 0; y < s; ++y) {\n", "    for (int y = 0; y < h; ++y) {\n"),
    ("fbound", "  for (int x = 0; x < s; ++x) {\n", "  for (int x = 0; x <= s; ++x) {\n"),
    ("fedge", "      out(h - 1 - y, x) *= double(y) / s;\n", "      out(h - 1 - y, x) = edge(h - 1 - y, x) * double(y) / s;\n"),
    ("oob", "x1 = x0 + 1,", "x1 = x0 + 2,"),
]:
    bug("nb-" + _n, "C29", (BN, _o, _w))
same("nb-s-helper", (BN, "inline double interp", "static double limit(double v, double top)\n{\n  if (v < 0) return 0;\n  if (v > top) return top;\n  return v;\n}\n\ninline double interp"), (BN, BIN, "  x = limit(x, w - 1.001);\n  y = limit(y, h - 1.001);\n"))
same("nb-s-lerp", (BN, BSUM, "  double a = I(y0, x0) + (I(y0, x1) - I(y0, x0)) * dx0;\n  double b = I(y1, x0) * dx1 + I(y1, x1) * dx0;\n  return a * (1 - dy0) + b * dy0;\n"))
same("nb-s-minmax", (BN, "#include <assert.h>\n", "#include <assert.h>\n#include <algorithm>\n"), (BN, BIN, "  x = std::min(std::max(x, 0.0), w - 1.001);\n  y = std::max(0.0, std::min(y, h - 1.001));\n"), (BN, BS, "  s = std::min(s, std::min(w / 2, h / 2));\n"))
same("nb-s-if", (BN, BIN, "  if (x < 0) {\n    x = 0;\n  } else if (x > w - 1.001) {\n    x = w - 1.001;\n  }\n  if (y < 0) y = 0;\n  if (y > h - 1.001) y = h - 1.001;\n"))
same("nb-s-order", (BN, BXY, "  for (int y = 0; y < h; ++y) {\n    for (int x = 0; x < w; ++x) {\n      double e = out(y, x)"))
same("nb-s-flag", (BN, BD, "      bool keep = true;\n      for (int d = -r; d <= r; ++d) {\n        if (d == 0) {\n          continue;\n        }\n        if (e < interp(edge, h, w, x + d * cos_o, y + d * sin_o)) {\n          keep = false;\n        }\n      }\n      if (!keep) {\n        out(y, x) = 0;\n      }\n"))
same("nb-s-flagbreak", (BN, BD, "      bool weak = false;\n      for (int d = -r; d <= r && !weak; ++d) {\n        if (d != 0) {\n          weak = e < interp(edge, h, w, x + d * cos_o, y + d * sin_o);\n        }\n      }\n      if (weak) {\n        out(y, x) = 0;\n      }\n"))
same("nb-s-flagbrk", (BN, BD, "      bool weak = false;\n      for (int d = -r; d <= r; ++d) {\n        if (d != 0 && e < interp(edge, h, w, x + d * cos_o, y + d * sin_o)) {\n          weak = true;\n          break;\n        }\n      }\n      if (weak) {\n        out(y, x) = 0;\n      }\n"))
same("nb-s-pm", (BN, BD, "      for (int d = 1; d <= r; ++d) {\n        double a = interp(edge, h, w, x - d * cos_o, y - d * sin_o);\n        double b = interp(edge, h, w, x + d * cos_o, y + d * sin_o);\n        if (e < a || e < b) {\n          out(y, x) = 0;\n          break;\n        }\n      }\n"))
same("nb-s-two", (BN, BD, "      for (int d = 1; d <= r; ++d) {\n        if (e < interp(edge, h, w, x - d * cos_o, y - d * sin_o)) {\n          out(y, x) = 0;\n        }\n      }\n      for (int d = r; d >= 1; --d) {\n        if (e < interp(edge, h, w, x + d * cos_o, y + d * sin_o)) {\n          out(y, x) = 0;\n        }\n      }\n"))
same("nb-s-copy", (BN, "  out = Matrix(h, w);\n", "  out = edge;\n"), (BN, "double e = out(y, x) = edge(y, x);", "double e = edge(y, x);"))
same("nb-s-retfn", (BN, "void benms(", "static bool beaten(const Matrix& edge, int h, int w, int x, int y, double e, double c, double s, int r)\n{\n  for (int d = -r; d <= r; ++d) {\n    if (d == 0) {\n      continue;\n    }\n    if (interp(edge, h, w, x + d * c, y + d * s) > e) {\n      return true;\n    }\n  }\n  return false;\n}\n\nvoid benms("), (BN, BD, "      if (beaten(edge, h, w, x, y, e, cos_o, sin_o, r)) {\n        out(y, x) = 0;\n      }\n"))
same("nb-s-select", (BN, BHEAD + BD, "      const double e = edge(y, x);\n      bool keep = true;\n      const double o = ori(y, x);\n      for (int d = -r; d <= r; ++d) {\n        if (d != 0 && m * e < interp(edge, h, w, x + d * cos(o), y + d * sin(o))) {\n          keep = false;\n          break;\n        }\n      }\n      out(y, x) = keep ? e : 0;\n"))
same("nb-s-nozero", (BN, "      if (e == 0) {\n        continue;\n      }\n", ""))
same("nb-s-nest", (BN, BHEAD + BD, "      double e = edge(y, x);\n      out(y, x) = e;\n      if (e != 0) {\n        const double t = e * m;\n        const double a = ori(y, x);\n        for (int d = -r; d < r + 1; d++) {\n          if (d == 0) continue;\n          const double px = x + d * cos(a), py = y + d * sin(a);\n          if (interp(edge, h, w, px, py) > t) {\n            out(y, x) = 0;\n            break;\n          }\n        }\n      }\n"))
same("nb-s-edgesig", (BN, "inline double interp(const Matrix& I, int h, int w, double x, double y)\n{\n", "inline double interp(const Matrix& I, double x, double y)\n{\n  const int h = I.nrows(), w = I.ncols();\n"), (BN, "interp(edge, h, w, x", "interp(edge, x"))
same("nb-s-fadeif", (BN, BF1, "  for (int x = 0; x < w; ++x) {\n    if (x >= s) break;\n    for (int y = 0; y < h; ++y) {\n      out(y, x) *= double(x) / s;\n      out(y, w - 1 - x) *= double(x) / s;\n    }\n  }\n"))
same("nb-s-fadeif2", (BN, BF1, "  for (int x = 0; x < w; ++x) {\n    for (int y = 0; y < h; ++y) {\n      if (x < s) {\n        out(y, x) *= double(x) / s;\n      }\n      if (x >= w - s) {\n        out(y, x) *= double(w - 1 - x) / s;\n      }\n    }\n  }\n"))
same("nb-s-fadestore", (BN, BF1 + BF2, "  const double step = 1.0 / s;\n  for (int k = 0; k < s; ++k) {\n    const double f = k * step;\n    for (int x = 0; x < w; ++x) {\n      out(k, x) = out(k, x) * f;\n      out(h - 1 - k, x) *= f;\n    }\n    for (int y = 0; y < h; ++y) {\n      out(y, k) *= f;\n      out(y, w - k - 1) = f * out(y, w - k - 1);\n    }\n  }\n"))
same("nb-s-fadefn", (BN, "void benms(", "static void fade(double& v, int k, int s)\n{\n  v *= double(k) / s;\n}\n\nvoid benms("), (BN, BF1, "  for (int x = 0; x < s; ++x) {\n    for (int y = 0; y < h; ++y) {\n      fade(out(y, x), x, s);\n      fade(out(y, w - 1 - x), x, s);\n    }\n  }\n"))
same("nb-s-limif", (BN, BS, "  const int border = w < h ? w / 2 : h / 2;\n  if (s > border) {\n    s = border;\n  }\n"))
same("nb-s-while", (BN, "  for (int x = 0; x < s; ++x) {\n    for (int y = 0; y < h; ++y) {\n      out(y, x) *= double(x) / s;", "  for (int x = s - 1; x >= 0; --x) {\n    for (int y = h - 1; y >= 0; --y) {\n      out(y, x) *= double(x) / s;"))
same("nb-s-floor", (BN, "int x0 = int(x), y0 = int(y);", "int x0 = (int) floor(x), y0 = static_cast<int>(y);"))

# ---- a further batch over the less travelled files
DSB = "pyEdgeEval/datasets/bsds.py"
DSG = "pyEdgeEval/datasets/generic_binary.py"
DSS = "pyEdgeEval/datasets/sbd.py"
DSO = "pyEdgeEval/datasets/otf_cityscapes.py"
MPF = "pyEdgeEval/edge_tools/mask2edge_mp.py"
TFM = "pyEdgeEval/edge_tools/transforms.py"
EVO = "pyEdgeEval/evaluators/otf_cityscapes.py"
bug("nx-bsds-lastgt", "C08,C01,C13", (DSB, "for i in range(num_gts)]\n\n\ndef load_predictions", "for i in range(num_gts - 1)]\n\n\ndef load_predictions"))
bug("nx-bsds-first", "C08,C01,C13", (DSB, "        gts=gts,\n", "        gts=gts[:1],\n"))
bug("nx-bsds-scale", "C15,C27,C13", (DSB, "    return img_as_float(img)\n", "    return img / 256\n"))
bug("nx-bsds-nms", "C13,C02", (DSB, "        apply_nms=apply_nms,\n", "        apply_nms=apply_thinning,\n"))
bug("nx-bsds-nmskw", "C13,C34,C02", (DSB, "            m=1.01,\n", "            m=1.1,\n"))
bug("nx-gen-first", "C08,C01", (DSG, "        gts=gt,\n", "        gts=gt[0:1],\n"))
bug("nx-gen-max", "C13,C26,C01", (DSG, "        max_dist=max_dist,\n", "        max_dist=0.0075,\n"))
bug("nx-gen-thr", "C13,C27", (DSG, "    thresholds = check_thresholds(thresholds)\n", "    thresholds = check_thresholds(99)\n"))
bug("nx-sbd-cat", "C10", (DSS, "    cat_idx = category - 1\n", "    cat_idx = category % num_classes\n"))
bug("nx-sbd-hw", "C15", (DSS, "    edge, (height, width) = load_scaled_edge(edge_path, scale)\n", "    edge, (width, height) = load_scaled_edge(edge_path, scale)\n"))
bug("nx-sbd-255", "C15", (DSS, "    pred = (pred / 255).astype(float)\n", "    pred = (pred // 255).astype(float)\n"))
bug("nx-sbd-border", "C02,C01,C15", (DSS, "border_px=5, ignore_id=0)", "border_px=5, ignore_id=1)"))
bug("nx-sbd-border2", "C02,C01,C15,C13", (DSS, "    pred = add_ignore_pixel(pred, border_px=5, ignore_id=0)\n", "    if apply_thinning:\n        pred = add_ignore_pixel(pred, border_px=5, ignore_id=0)\n"))
bug("nx-sbd-seg", "C10", (DSS, "        cat_seg = seg == category\n", "        cat_seg = seg == cat_idx\n"))
bug("nx-sbd-segnot", "C10,C26,C13", (DSS, "        cat_seg = seg == category\n", "        cat_seg = seg != category\n"))
bug("nx-sbd-skip", "C13", (DSS, "        skip_if_nonexistent=skip_if_nonexistent,\n        apply_nms", "        skip_if_nonexistent=kill_internal,\n        apply_nms"))
bug("nx-mp-range", "C16", (MPF, "        pool.map(_worker_func, range(num_labels))", "        pool.map(_worker_func, range(1, num_labels))"))
bug("nx-mp-range2", "C16", (MPF, "        pool.map(_instance_worker_func, range(num_labels))", "        pool.map(_instance_worker_func, sorted(label_inst))"))
bug("nx-mp-ignore", "C16", (MPF, "    if label in ignore_indices:\n        return None\n", "", ))
bug("nx-mp-ign2", "C16", (MPF, "    for i in ignore_indices:\n        ignore_mask += mask[i]\n", "    for i in ignore_indices:\n        ignore_mask = mask[i]\n"))
bug("nx-mp-async", "C16", (MPF, "        pool.map(_worker_func, range(num_labels))", "        pool.map_async(_worker_func, range(num_labels))"))
bug("nx-mp-zero", "C16", (MPF, "    np.copyto(np_mask, mask)\n    np.copyto(np_edge, edge)\n    np.copyto(np_ignore_mask, ignore_mask)\n\n    args = dict(\n        mask=mp_mask,\n        mask_dtype=mask.dtype,\n        mask_shape=mask.shape,\n        edge=", "    np.copyto(np_mask, mask)\n    np.copyto(np_edge, mask)\n    np.copyto(np_ignore_mask, ignore_mask)\n\n    args = dict(\n        mask=mp_mask,\n        mask_dtype=mask.dtype,\n        mask_shape=mask.shape,\n        edge="))
bug("nx-mp-noignore", "C16", (MPF, "    np.copyto(np_edge, edge)\n    np.copyto(np_ignore_mask, ignore_mask)\n", "    np.copyto(np_edge, edge)\n"))
bug("nx-mp-instmin", "C16", (MPF, "        if inst_label < inst_labels[0] * 1000:", "        if inst_label <= inst_labels[0] * 1000:"))
bug("nx-mp-instmax", "C16", (MPF, "        if inst_label < inst_labels[0] * 1000:", "        if inst_label < inst_labels[-1] * 1000:"))
bug("nx-mp-instor", "C16", (MPF, "            dist = dist | mask2bdry(", "            dist = dist & mask2bdry("))
bug("nx-mp-instrep", "C16", (MPF, "            dist = dist | mask2bdry(", "            dist = mask2bdry("))
bug("nx-mp-inst1", "C16", (MPF, "            label_inst[_label] = [_inst]\n", "            label_inst[_label] = []\n"))
bug("nx-mp-instzero", "C16,C32", (MPF, "            iid = int(str(label) + str(instance).zfill(3))", "            iid = int(str(label) + str(instance).zfill(2))"))
bug("nx-tf-quality", "C16,C17,C25", (TFM, "            quality=quality,\n        )\n", "            quality=radius,\n        )\n"))
bug("nx-tf-ign", "C16", (TFM, "            ignore_indices=self.ignore_indices,\n            **self._mask2bdry_kwargs,\n        )\n\n        if self.label2trainId:\n            # for convinence, we will convert both mask and edge to trainId\n            edge = edge_label2trainId(\n                edge=edge, label2trainId=self.label2trainId\n            )\n            mask = mask_label2trainId(\n                mask=mask, label2trainId=self.label2trainId\n            )\n\n        return dict(\n            edge=edge,\n            mask=mask,\n        )\n\n\nclass Inst", "            ignore_indices=[],\n            **self._mask2bdry_kwargs,\n        )\n\n        if self.label2trainId:\n            # for convinence, we will convert both mask and edge to trainId\n            edge = edge_label2trainId(\n                edge=edge, label2trainId=self.label2trainId\n            )\n            mask = mask_label2trainId(\n                mask=mask, label2trainId=self.label2trainId\n            )\n\n        return dict(\n            edge=edge,\n            mask=mask,\n        )\n\n\nclass Inst"))
bug("nx-tf-order", "C16,C31", (TFM, "            edge = edge_label2trainId(\n                edge=edge, label2trainId=self.label2trainId\n            )\n            mask = mask_label2trainId(\n                mask=mask, label2trainId=self.label2trainId\n            )\n\n        return dict(\n            edge=edge,\n            mask=mask,\n        )\n\n\nclass Inst", "            mask = mask_label2trainId(\n                mask=mask, label2trainId=self.label2trainId\n            )\n            edge = edge_label2trainId(\n                edge=onehot_mask, label2trainId=self.label2trainId\n            )\n\n        return dict(\n            edge=edge,\n            mask=mask,\n        )\n\n\nclass Inst"))
bug("nx-tf-is", "C16", (TFM, "            instance_sensitive=True,\n            mask=onehot_mask,\n            inst_mask=inst_mask,\n            inst_labelIds=self.inst_labelIds,\n", "            instance_sensitive=False,\n            mask=onehot_mask,\n"))
bug("nx-tf-dispatch", "C16", (TFM, "        if instance_sensitive:\n            return mp_instance_mask2edge(**kwargs)\n        else:\n            return mp_mask2edge(**kwargs)", "        return mp_mask2edge(**kwargs)"))
bug("nx-otf-radius", "C30,C11,C16,C13,C12", (EVO, "        if self.thin:\n            radius = 1\n        else:\n            radius = 2\n", "        if self.apply_thinning:\n            radius = 1\n        else:\n            radius = 2\n"))
bug("nx-otf-radius2", "C30,C11,C16,C13,C12", (EVO, "            radius = 1\n        else:\n            radius = 2\n", "            radius = 2\n        else:\n            radius = 1\n"))
bug("nx-otf-zero", "C24", (EVO, "            0 < category < len(self.CLASSES) + 1\n", "            0 <= category < len(self.CLASSES) + 1\n"))
bug("nx-otf-inst", "C11,C14,C16", (EVO, 'INST_SUFFIX = "_gtFine_instanceIds.png"', 'INST_SUFFIX = "_gtFine_labelIds.png"'))
bug("nx-otf-name", "C14", (EVO, "            category_dir = f\"class_{str(category).zfill(3)}\"\n", "            category_dir = f\"class_{str(category).zfill(2)}\"\n"))

# ------------------------------------------------------------------ refactorings of files touched less
SBD_D, BSDS_D, GB_D = "pyEdgeEval/datasets/sbd.py", "pyEdgeEval/datasets/bsds.py", "pyEdgeEval/datasets/generic_binary.py"
OTF_E, BS_E, EB, ES = ("pyEdgeEval/evaluators/otf_cityscapes.py", "pyEdgeEval/evaluators/bsds.py",
                       "pyEdgeEval/helpers/evaluate_bsds500.py", "pyEdgeEval/helpers/evaluate_sbd.py")
TFM, LOG, NMSX, PB = ("pyEdgeEval/edge_tools/transforms.py", "pyEdgeEval/utils/logger.py", "pyEdgeEval/_lib/nms.pyx",
                      "pyEdgeEval/utils/progressbar.py")
SBD_PRED = """    pred = Image.open(pred_path)
    pred = pred.resize((width, height), Image.Resampling.NEAREST)
    pred = np.array(pred)
    pred = (pred / 255).astype(float)
"""
SBD_NMS = """        nms_kwargs=dict(
            r=1,
            s=5,
            m=1.01,
            half_prec=False,
        ),
"""
same("rf-sbd-load", (SBD_D, SBD_PRED, "    pred = _load_pred(pred_path, width, height)\n"), (SBD_D, "def _evaluate_single(", '''def _load_pred(path, width, height):
    with Image.open(path) as img:
        resized = img.resize((width, height), Image.Resampling.NEAREST)
        values = np.asarray(resized)
    return values.astype(float) / 255.0


def _evaluate_single('''))
same("rf-sbd-const", (SBD_D, SBD_NMS, "        nms_kwargs=NMS_KWARGS,\n"), (SBD_D, "def _evaluate_single(", "NMS_KWARGS = dict(r=1, s=5, m=1.01, half_prec=False)\nBORDER_PX = 5\n\n\ndef _evaluate_single("), (SBD_D, "border_px=5", "border_px=BORDER_PX"))
same("rf-sbd-ret", (SBD_D, "    count_r, sum_r, count_p, sum_p = evaluate_boundaries_threshold(", "    return evaluate_boundaries_threshold("), (SBD_D, "    )\n\n    return count_r, sum_r, count_p, sum_p\n", "    )\n"))
same("rf-sbd-cat", (SBD_D, "    cat_idx = category - 1\n    cat_edge = edge[cat_idx, :, :]\n", "    cat_edge = edge[category - 1]\n"))
same("rf-sbd-seg", (SBD_D, """    if kill_internal:
        # load segmentation map
        seg = Image.open(seg_path)
        seg = seg.resize((width, height), Image.Resampling.NEAREST)
        seg = np.array(seg)
        assert edge.shape[1:] == seg.shape
""", """    cat_seg = None
    if kill_internal:
        size = (width, height)
        seg = np.array(
            Image.open(seg_path).resize(size, Image.Resampling.NEAREST)
        )
        if seg.shape != edge.shape[1:]:
            raise AssertionError("segmentation and edges differ in size")
"""), (SBD_D, "        cat_seg = seg == category\n    else:\n        cat_seg = None\n", "        cat_seg = np.equal(seg, category)\n"))
same("rf-sbd-order", (SBD_D, "    # checks and converts thresholds\n    thresholds = check_thresholds(thresholds)\n\n", ""), (SBD_D, "    # evaluate multi-label boundaries\n", "    thresholds = check_thresholds(thresholds)\n"))
same("rf-sbd-kw", (SBD_D, "    return _evaluate_single(**kwargs)\n", "    params = dict(kwargs)\n    return _evaluate_single(**params)\n"))
same("rf-bsds-list", (BSDS_D, """        num_gts = gt.shape[1]
        return [gt[0, i]["Boundaries"][0, 0] for i in range(num_gts)]
""", """        boundaries = []
        for i in range(gt.shape[1]):
            annotator = gt[0, i]
            boundaries.append(annotator["Boundaries"][0, 0])
        return boundaries
"""))
same("rf-bsds-row", (BSDS_D, """        num_gts = gt.shape[1]
        return [gt[0, i]["Boundaries"][0, 0] for i in range(num_gts)]
""", """        return [g["Boundaries"][0, 0] for g in gt[0]]
"""))
same("rf-bsds-flat", (BSDS_D, "    else:\n        # FIXME: confusing data organization with scipy\n        gt = loadmat(path, False)[\"groundTruth\"]  # np.ndarray\n        num_gts = gt.shape[1]\n        return [gt[0, i][\"Boundaries\"][0, 0] for i in range(num_gts)]\n", "\n    gt = loadmat(path, False)[\"groundTruth\"]\n    _, num_gts = gt.shape\n    return [gt[0, i][\"Boundaries\"][0, 0] for i in range(num_gts)]\n"))
same("rf-bsds-if", (BSDS_D, """    assert (
        img.dtype == np.uint8
    ), f"ERR: img needs to be uint8, but got{img.dtype}"
    return img_as_float(img)
""", """    if img.dtype != np.uint8:
        raise AssertionError(f"ERR: img needs to be uint8, but got{img.dtype}")
    pred = img_as_float(img)
    return pred
"""))
same("rf-bsds-ret", (BSDS_D, "    count_r, sum_r, count_p, sum_p = evaluate_boundaries_threshold_multiple_gts(\n", "    counts = evaluate_boundaries_threshold_multiple_gts(\n"), (BSDS_D, "    return count_r, sum_r, count_p, sum_p\n", "    return counts\n"))
same("rf-bsds-nms", (BSDS_D, SBD_NMS, '        nms_kwargs={"r": 1, "s": 5, "m": 1.01, "half_prec": False},\n'))
same("rf-bsds-lambda", (BSDS_D, 'def bsds_eval_single(kwargs):\n    """Wrapper function to unpack all the kwargs"""\n    return _evaluate_single(**kwargs)\n', 'def bsds_eval_single(sample):\n    """Wrapper function to unpack all the kwargs"""\n    result = _evaluate_single(**sample)\n    return result\n'))
same("rf-gb-dup", (GB_D, "    gt = load_bsds_gt_boundaries(gt_path)\n", "    gts = load_bsds_gt_boundaries(gt_path)\n"), (GB_D, "        gts=gt,\n", "        gts=gts,\n"))
OTF_RAD = """        if self.thin:
            radius = 1
        else:
            radius = 2

"""
same("rf-otf-rad", (OTF_E, OTF_RAD, "        radius = 1 if self.thin else 2\n\n"))
same("rf-otf-rad2", (OTF_E, OTF_RAD, "        radius = 2\n        if self.thin:\n            radius = 1\n\n"))
same("rf-otf-radp", (OTF_E, OTF_RAD, ""), (OTF_E, "            radius=radius,\n", "            radius=self._edge_radius,\n"), (OTF_E, "    @property\n    def eval_params(self):", "    @property\n    def _edge_radius(self):\n        return {True: 1, False: 2}[bool(self.thin)]\n\n    @property\n    def eval_params(self):"))
same("rf-otf-upd", (OTF_E, """        return dict(
            scale=self.scale,
            apply_thinning=self.apply_thinning,
            apply_nms=self.apply_nms,
            max_dist=self.max_dist,
            kill_internal=self.kill_internal,
            skip_if_nonexistent=self.skip_if_nonexistent,
            radius=radius,
            num_labels=34,
            ignore_labels=[2, 3],
            num_classes=len(self.CLASSES),  # not used
        )
""", """        params = {
            name: getattr(self, name)
            for name in (
                "scale",
                "apply_thinning",
                "apply_nms",
                "max_dist",
                "kill_internal",
                "skip_if_nonexistent",
            )
        }
        params.update(
            radius=radius,
            num_labels=34,
            ignore_labels=[2, 3],
            num_classes=len(self.CLASSES),
        )
        return params
"""))
same("rf-otf-job", (OTF_E, """        data = []
        for sample_name in self.sample_names:

            # FIXME: naming scheme differs sometimes
            category_dir = f"class_{str(category).zfill(3)}"
""", """        data = []
        category_dir = "class_{:03d}".format(category)
        for sample_name in self.sample_names:
"""))
same("rf-otf-jobf", (OTF_E, """            if self.instance_sensitive:
                inst_path = osp.join(
                    self.gtFine_root,
                    f"{sample_name}{self.INST_SUFFIX}",
                )
                assert osp.exists(inst_path), f"ERR: {inst_path} is not valid"
            else:
                inst_path = None
""", """            inst_path = self._inst_path(sample_name)
"""), (OTF_E, "    def evaluate_category(", """    def _inst_path(self, sample_name):
        if not self.instance_sensitive:
            return None
        path = osp.join(self.gtFine_root, sample_name + self.INST_SUFFIX)
        assert osp.exists(path), f"ERR: {path} is not valid"
        return path

    def evaluate_category("""))
same("rf-otf-range", (OTF_E, "            0 < category < len(self.CLASSES) + 1\n", "            1 <= category <= len(self.CLASSES)\n"))
same("rf-otf-res", (OTF_E, "        (sample_metrics, threshold_metrics, overall_metric) = calculate_metrics(", "        results = calculate_metrics("), (OTF_E, "        # save metrics\n        if save_dir:", "        sample_metrics, threshold_metrics, overall_metric = results\n        if save_dir:"))
same("rf-bse-names", (BS_E, """            for fn in files:
                dir, filename = osp.split(fn)
                name, ext = osp.splitext(filename)
                if ext.lower() == ".mat":
                    # split/12345.mat
                    sample_names.append(osp.join(self.split, name))
""", """            for fn in files:
                name, ext = osp.splitext(osp.basename(fn))
                if ext.lower() != ".mat":
                    continue
                # split/12345.mat
                sample_names.append(osp.join(self.split, name))
"""))
same("rf-bse-comp", (BS_E, """            for fn in files:
                dir, filename = osp.split(fn)
                name, ext = osp.splitext(filename)
                if ext.lower() == ".mat":
                    # split/12345.mat
                    sample_names.append(osp.join(self.split, name))
""", """            stems = [osp.splitext(osp.split(fn)[1]) for fn in files]
            sample_names = [
                osp.join(self.split, name)
                for name, ext in stems
                if ext.lower() == ".mat"
            ]
"""))
same("rf-bse-pred", (BS_E, """            if no_split_dir:
                _sample_name = sample_name.replace(f"{self.split}/", "")
                pred_path = osp.join(
                    self.pred_root, f"{_sample_name}{self.PRED_SUFFIX}"
                )
            else:
                pred_path = osp.join(
                    self.pred_root, f"{sample_name}{self.PRED_SUFFIX}"
                )
""", """            pred_name = sample_name
            if no_split_dir:
                pred_name = sample_name.replace(f"{self.split}/", "")
            pred_path = osp.join(
                self.pred_root, f"{pred_name}{self.PRED_SUFFIX}"
            )
"""))
same("rf-bse-params", (BS_E, "            data.append(\n                dict(\n                    name=sample_name,\n                    thresholds=thresholds,\n                    gt_path=gt_path,\n                    pred_path=pred_path,\n                    **self.eval_params,\n                )\n            )\n", "            job = self.eval_params\n            job.update(\n                name=sample_name,\n                thresholds=thresholds,\n                gt_path=gt_path,\n                pred_path=pred_path,\n            )\n            data.append(job)\n"))
EB_TH = """    thresholds = thresholds.strip()
    try:
        n_thresholds = int(thresholds)
        thresholds = n_thresholds
    except ValueError:
        try:
            if thresholds.startswith("[") and thresholds.endswith("]"):
                thresholds = thresholds[1:-1]
                thresholds = [float(t.strip()) for t in thresholds.split(",")]
            else:
                print(
                    "Bad threshold format; should be a python list of floats (`[a, b, c]`)"
                )
                return
        except ValueError:
            print(
                "Bad threshold format; should be a python list of ints (`[a, b, c]`)"
            )
            return
"""
EB_HELP = '''def _parse_thresholds(text):
    text = text.strip()
    try:
        return int(text)
    except ValueError:
        pass
    if not (text.startswith("[") and text.endswith("]")):
        return None
    try:
        return [float(t.strip()) for t in text[1:-1].split(",")]
    except ValueError:
        return None


'''
EB_NEW = '''    thresholds = _parse_thresholds(thresholds)
    if thresholds is None:
        print("Bad threshold format; should be an int or `[a, b, c]`")
        return
'''
same("rf-eb-parse", (EB, EB_TH, EB_NEW), (EB, "def evaluate(\n", EB_HELP + "def evaluate(\n"))
same("rf-es-parse", (ES, EB_TH, "@all@" + EB_NEW), (ES, "def evaluate(\n", EB_HELP + "def evaluate(\n"))
same("rf-es-cats", (ES, """    for cat in categories:
        assert (
            0 < cat < 21
        ), f"category needs to be between 1 ~ 19, but got {cat}"
""", """    assert all(0 < cat < 21 for cat in categories), "bad categories"
"""))
same("rf-eb-inl", (EB, '    split = "val" if use_val else "test"\n', '    if use_val:\n        split = "val"\n    else:\n        split = "test"\n'))
same("rf-eb-kw", (EB, "    apply_thinning = not args.raw\n\n", ""), (EB, "        apply_thinning=apply_thinning,\n        apply_nms=args.apply_nms", "        apply_thinning=not args.raw,\n        apply_nms=args.apply_nms"))
TF_MAP = """        if self.label2trainId:
            # for convinence, we will convert both mask and edge to trainId
            edge = edge_label2trainId(
                edge=edge, label2trainId=self.label2trainId
            )
            mask = mask_label2trainId(
                mask=mask, label2trainId=self.label2trainId
            )

        return dict(
            edge=edge,
            mask=mask,
        )
"""
same("rf-tf-help", (TFM, TF_MAP, "@all@        return self._to_train_ids(edge, mask)\n"), (TFM, "    def __call__(self, mask):\n", """    def _to_train_ids(self, edge, mask):
        table = self.label2trainId
        if not table:
            return dict(edge=edge, mask=mask)
        return dict(
            edge=edge_label2trainId(edge=edge, label2trainId=table),
            mask=mask_label2trainId(mask=mask, label2trainId=table),
        )

    def __call__(self, mask):
"""))
same("rf-tf-disp", (TFM, """    if run_type == "loop":
        if instance_sensitive:
            return loop_instance_mask2edge(**kwargs)
        else:
            return loop_mask2edge(**kwargs)
    elif run_type == "mp":
        if instance_sensitive:
            return mp_instance_mask2edge(**kwargs)
        else:
            return mp_mask2edge(**kwargs)
    else:
        raise ValueError(f"{run_type} is not a valid run type")
""", """    if run_type == "loop":
        func = loop_instance_mask2edge if instance_sensitive else loop_mask2edge
    elif run_type == "mp":
        func = mp_instance_mask2edge if instance_sensitive else mp_mask2edge
    else:
        raise ValueError(f"{run_type} is not a valid run type")
    return func(**kwargs)
"""))
same("rf-tf-table", (TFM, """    if run_type == "loop":
        if instance_sensitive:
            return loop_instance_mask2edge(**kwargs)
        else:
            return loop_mask2edge(**kwargs)
    elif run_type == "mp":
        if instance_sensitive:
            return mp_instance_mask2edge(**kwargs)
        else:
            return mp_mask2edge(**kwargs)
    else:
        raise ValueError(f"{run_type} is not a valid run type")
""", """    funcs = {
        "loop": (loop_mask2edge, loop_instance_mask2edge),
        "mp": (mp_mask2edge, mp_instance_mask2edge),
    }
    if run_type not in funcs:
        raise ValueError(f"{run_type} is not a valid run type")
    plain, instance = funcs[run_type]
    if instance_sensitive:
        return instance(**kwargs)
    return plain(**kwargs)
"""))
same("rf-tf-super", (TFM, "        self.inst_labelIds = inst_labelIds\n\n        super().__init__(**kwargs)\n", "        super().__init__(**kwargs)\n        self.inst_labelIds = inst_labelIds\n"))
same("rf-mp-wrap", (MP, """    np_mask = np.frombuffer(mp_mask, dtype=mask.dtype).reshape(mask.shape)
    np_edge = np.frombuffer(mp_edge, dtype=edge.dtype).reshape(edge.shape)
    np_ignore_mask = np.frombuffer(
        mp_ignore_mask, dtype=ignore_mask.dtype
    ).reshape(ignore_mask.shape)
""", """    np_mask = _as_array(mp_mask, mask.dtype, mask.shape)
    np_edge = _as_array(mp_edge, edge.dtype, edge.shape)
    np_ignore_mask = _as_array(
        mp_ignore_mask, ignore_mask.dtype, ignore_mask.shape
    )
"""), (MP, "def _init_worker(data_dict):", "def _as_array(buf, dtype, shape):\n    return np.frombuffer(buf, dtype=dtype).reshape(shape)\n\n\ndef _init_worker(data_dict):"))
same("rf-mp-early", (MP, """    mask = mask[label]

    if label in ignore_indices:
        return None

    # if there are no class labels in the mask
    if not np.count_nonzero(mask):
        return None

    edge[label] = mask2bdry(
        mask=mask,
        ignore_mask=ignore_mask,
        **mask2bdry_kwargs,
    )
    return None
""", """    if label not in ignore_indices and mask[label].any():
        edge[label] = mask2bdry(
            mask=mask[label],
            ignore_mask=ignore_mask,
            **mask2bdry_kwargs,
        )
"""))
same("rf-mp-setdef", (MP, """        if _label not in label_inst.keys():
            label_inst[_label] = [_inst]
        else:
            label_inst[_label].append(_inst)
""", """        label_inst.setdefault(_label, []).append(_inst)
"""))
same("rf-mp-get", (MP, """    if label in label_inst.keys():
        instances = label_inst[label]  # list
        for instance in instances:
            iid = int(str(label) + str(instance).zfill(3))
            _mask = inst_mask == iid
            dist = dist | mask2bdry(
                mask=_mask,
                ignore_mask=ignore_mask,
                **mask2bdry_kwargs,
            )
""", """    for instance in label_inst.get(label, []):
        iid = label * 1000 + instance
        dist |= mask2bdry(
            mask=inst_mask == iid,
            ignore_mask=ignore_mask,
            **mask2bdry_kwargs,
        )
"""))
same("rf-mp-ign", (MP, "    for i in ignore_indices:\n        ignore_mask += mask[i]\n", "    for index in ignore_indices:\n        ignore_mask = ignore_mask + mask[index]\n"))
same("rf-mp-close", (MP, """    with Pool(
        processes=nproc, initializer=_init_worker, initargs=[args]
    ) as pool:
        # order doesn't really matter since we specify which index to compute
        pool.map(_worker_func, range(num_labels))
""", """    pool = Pool(processes=nproc, initializer=_init_worker, initargs=(args,))
    try:
        pool.map(_worker_func, list(range(num_labels)))
    finally:
        pool.close()
        pool.join()
"""))

bug("ny-mkdir-exist", "C33", ("pyEdgeEval/utils/path.py", "os.makedirs(dir_name, mode=mode, exist_ok=True)", "os.makedirs(dir_name, mode=mode, exist_ok=False)"))
bug("ny-mkdir-del", "C33", ("pyEdgeEval/utils/path.py", "    os.makedirs(dir_name, mode=mode, exist_ok=True)", "    if not osp.exists(osp.dirname(dir_name)):\n        os.makedirs(dir_name, mode=mode, exist_ok=True)"))

# defaults of the command line
bug("cd-dist", "C13", ("pyEdgeEval/helpers/evaluate_cityscapes.py", "default=0.0035", "default=0.0075"))
bug("cd-thr", "C13", ("pyEdgeEval/helpers/evaluate_sbd.py", 'default="99"', 'default="9"'))
bug("cd-flag", "C13", ("pyEdgeEval/helpers/evaluate_bsds500.py", '"--apply-nms",\n        action="store_true"', '"--apply-nms",\n        action="store_false"'))
same("cs-flag", ("pyEdgeEval/helpers/evaluate_bsds500.py", '"--raw",\n        action="store_true"', '"--raw",\n        dest="thin",\n        action="store_false"'),
     ("pyEdgeEval/helpers/evaluate_bsds500.py", "not args.raw", "args.thin"))
MET = "pyEdgeEval/common/metrics.py"
bug("me-stale-prec", "C03", (MET, "                best_prec = p\n", ""))
bug("me-stale-f1", "C03,C04", (MET, "                best_f1 = f\n", ""))
bug("me-stale-rec", "C03", (MET, "                best_rec = r\n", ""))
bug("me-stale-thr", "C03,C04", (MET, "                best_threshold = t\n", ""))
bug("cd-suffix-not", "C14", ("pyEdgeEval/evaluators/sbd.py", "        if pred_suffix:\n", "        if not pred_suffix:\n"))
bug("cd-suffix-lost", "C14", ("pyEdgeEval/evaluators/cityscapes.py", "            self.PRED_SUFFIX = pred_suffix\n", "            pass\n"))
bug("cd-gtdir-lost", "C14", ("pyEdgeEval/evaluators/sbd.py", "            self.GT_DIR = gt_dir\n", "            pass\n"))
bug("tr-undef", "C16", ("pyEdgeEval/edge_tools/transforms.py", 'run_type == "mp"', 'instance_sensitive == "mp"'))
bug("cv-swapped", "C33", ("scripts/convert_datasets/sbd.py", "track_parallel_progress(thin_routine, sample_names, nproc)", "track_parallel_progress(sample_names, thin_routine, nproc)"))

# prices of the matching
MC = "pyEdgeEval/_lib/src/match.cc"
PX = "pyEdgeEval/_lib/correspond_pixels.pyx"
bug("pr-square", "C38", (MC, "e.w = sqrt(d2);", "e.w = d2;"))
bug("pr-manhattan", "C38", (MC, "e.w = sqrt(d2);", "e.w = abs(u) + abs(v);"))
bug("pr-u", "C38", (MC, "e.w = sqrt(d2);", "e.w = sqrt((double)(u*u));"))
bug("pr-unscaled", "C38", (MC, "igraph(count,2) = (int) rint (edges[a].w * multiplier);", "igraph(count,2) = (int) rint (edges[a].w);"))
bug("pr-trunc", "C38", (MC, "igraph(count,2) = (int) rint (edges[a].w * multiplier);", "igraph(count,2) = (int) (edges[a].w * multiplier);"))
bug("pr-free", "C38", (MC, "const int ow = (int) ceil (outlierCost * multiplier);", "const int ow = (int) ceil (maxDist * multiplier);"))
bug("pr-ow", "C38", (MC, "const int ow = (int) ceil (outlierCost * multiplier);", "const int ow = (int) ceil (outlierCost);"))
bug("pr-overlay", "C38", (MC, "        igraph(count,2) = ow * multiplier;\n        count++;\n    }\n    for (int i = 0; i < n2", "        igraph(count,2) = ow;\n        count++;\n    }\n    for (int i = 0; i < n2"))
bug("pr-outlier0", "C38", (MC, "            igraph(count,0) = n1 + i;\n            igraph(count,1) = j;\n            igraph(count,2) = ow;", "            igraph(count,0) = n1 + i;\n            igraph(count,1) = j;\n            igraph(count,2) = 0;"))
bug("pr-cost-half", "C38", (MC, "cost += 0.5 * sqrt (dx*dx + dy*dy);", "cost += sqrt (dx*dx + dy*dy);"))
bug("pr-cost-mix", "C38", (MC, "                if (match2(x,y) == Pixel(-1,-1)) {\n                    cost", "                if (match1(x,y) == Pixel(-1,-1)) {\n                    cost"))
bug("pr-cost-zero", "C38", (MC, "                if (match2(x,y) == Pixel(-1,-1)) {\n                    cost += outlierCost;", "                if (match2(x,y) == Pixel(-1,-1)) {\n                    cost += 0;"))
bug("pr-cost-gate", "C38", (MC, "            if (bmap2(y,x)) {\n                if (match2(x,y) == Pixel(-1,-1)) {\n                    cost", "            else if (bmap2(y,x)) {\n                if (match2(x,y) == Pixel(-1,-1)) {\n                    cost"))
bug("pr-px-diag", "C38", (PX, "cdef double oc = outlier_cost * max_dist * idiag", "cdef double oc = outlier_cost * max_dist"))
bug("pr-px-guard", "C38", (PX, "if outlier_cost <= 1:", "if outlier_cost <= 0:"))
bug("pr-px-swap", "C38", (PX, "return o0, o1, cost, oc", "return o0, o1, oc, cost"))
same("ps-hypot", (MC, "e.w = sqrt(d2);", "e.w = hypot(u, v);"))
same("ps-floor", (MC, "igraph(count,2) = (int) rint (edges[a].w * multiplier);", "const double price = edges[a].w * multiplier;\n        igraph(count,2) = (int) floor (price + 0.5);"))
same("ps-big", (MC, "        igraph(count,2) = ow * multiplier;\n        count++;\n    }\n    for (int i = 0; i < n2", "        const int big = multiplier * ow;\n        igraph(count,2) = big;\n        count++;\n    }\n    for (int i = 0; i < n2"))
same("ps-half", (MC, "cost += 0.5 * sqrt (dx*dx + dy*dy);", "const double d = sqrt (dx*dx + dy*dy);\n                    cost += d / 2;"))
same("ps-ternary", (MC, "                if (match2(x,y) == Pixel(-1,-1)) {\n                    cost += outlierCost;\n                } else {\n                    const int dx = x - match2(x,y).x;\n                    const int dy = y - match2(x,y).y;\n                    cost += 0.5 * sqrt (dx*dx + dy*dy);\n                }",
    "                const Pixel q = match2(x,y);\n                cost += (q.x == -1 && q.y == -1) ? outlierCost : 0.5 * sqrt ((double)((q.x-x)*(q.x-x) + (q.y-y)*(q.y-y)));"))
same("ps-px", (PX, "cdef double oc = outlier_cost * max_dist * idiag", "cdef double radius = max_dist * idiag\n    cdef double oc = radius * outlier_cost"))

# stored boundary annotations
CS = "pyEdgeEval/helpers/convert_sbd.py"
bug("sb-prev", "C39", (CS, "            np_boundaries[cat] = sparse2numpy(boundaries[cat][0])", "            np_boundaries[cat] = sparse2numpy(boundaries[cat - 1][0])"))
bug("sb-seg", "C39", (CS, '        gt = loadmat(path, False)["GTinst"][0, 0]\n        segmentation = gt[0]', '        gt = loadmat(path, False)["GTinst"][0, 0]\n        segmentation = gt[2]'))
bug("sb-cats", "C39", (CS, 'present_categories = gt["CategoriesPresent"]', 'present_categories = gt["Segmentation"]'))
bug("sb-xor", "C39", (CS, "        new_bdry[inst_cat - 1] = new_bdry[inst_cat - 1] | _inst_bdry", "        new_bdry[inst_cat - 1] = new_bdry[inst_cat - 1] ^ _inst_bdry"))
bug("sb-bycat", "C39", (CS, "        _inst_bdry = inst_bdry[i]\n", "        _inst_bdry = inst_bdry[inst_cat - 1]\n"))
bug("sb-noback", "C39", (CS, "        new_bdry[inst_cat - 1] = new_bdry[inst_cat - 1] | _inst_bdry", "        new_bdry[inst_cat] = new_bdry[inst_cat] | _inst_bdry"))
bug("sb-instcats", "C39", (CS, "    inst_bdry, _, inst_cats = load_sbd_gt_inst_mat(inst_path, new_loader)\n", "    inst_bdry, _, inst_cats = load_sbd_gt_inst_mat(inst_path, new_loader)\n    inst_cats = present_cats\n"))
bug("sb-oldonly", "C39", (CS, "    return load_sbd_gt_cls_mat(cls_path, new_loader)\n", "    return load_sbd_gt_cls_mat(cls_path, False)\n"))
bug("sb-skiplast", "C39", (CS, "        for cat in range(num_categories):\n            np_boundaries[cat] = sparse2numpy(boundaries[cat])\n", "        for cat in range(num_categories - 1):\n            np_boundaries[cat] = sparse2numpy(boundaries[cat])\n"))
same("ss-stack", (CS, "        np_boundaries = np.zeros([num_categories, h, w], dtype=np.uint8)\n        for cat in range(num_categories):\n            np_boundaries[cat] = sparse2numpy(boundaries[cat])\n",
    "        np_boundaries = np.stack([sparse2numpy(boundaries[cat]) for cat in range(num_categories)]).astype(np.uint8)\n"))
same("ss-enum", (CS, "        for cat in range(num_categories):\n            np_boundaries[cat] = sparse2numpy(boundaries[cat][0])\n", "        for cat, b in enumerate(boundaries):\n            np_boundaries[cat] = sparse2numpy(b[0])\n"))
same("ss-atleast", (CS, "        if categories.ndim == 0:\n            # single value, or no instances\n            categories = categories[None]\n        assert", "        categories = np.atleast_1d(categories)\n        assert"))
same("ss-ior", (CS, "        new_bdry[inst_cat - 1] = new_bdry[inst_cat - 1] | _inst_bdry", "        new_bdry[inst_cat - 1] |= _inst_bdry"))
same("ss-zip", (CS, "    for i, inst_cat in enumerate(inst_cats):\n        _inst_bdry = inst_bdry[i]\n", "    for _inst_bdry, inst_cat in zip(inst_bdry, inst_cats):\n"))
same("ss-ravel", (CS, '        categories = gt["Categories"]\n        if isinstance(categories, int):\n            categories = np.array([categories])\n        if categories.ndim == 0:\n            # single value, or no instances\n            categories = categories[None]\n', '        categories = np.asarray(gt["Categories"]).reshape(-1)\n'))

# ---- native containers
bug("nc-stride", "C40", ('pyEdgeEval/_lib/include/Array.hh', 'unsigned index = i * _dim[1] + j;', '@all@unsigned index = i * _dim[0] + j;'))
bug("nc-alloc", "C40", ('pyEdgeEval/_lib/include/Array.hh', '_n = d0 * d1;\n        _dim[0]', '_n = d0 * (d1 - 1);\n        _dim[0]'))
bug("nc-swapdim", "C40", ('pyEdgeEval/_lib/include/Array.hh', '_dim[0] = d0;\n        _dim[1] = d1;\n        _array', '_dim[0] = d1;\n        _dim[1] = d0;\n        _array'))
bug("nc-init1", "C40", ('pyEdgeEval/_lib/include/Array.hh', 'for (unsigned i = 0; i < _n; i++) {', '@all@for (unsigned i = 1; i < _n; i++) {'))
bug("nc-initd", "C40", ('pyEdgeEval/_lib/include/Array.hh', 'for (unsigned i = 0; i < _n; i++) {', '@all@for (unsigned i = 0; i + 1 < _n; i++) {'))
bug("nc-mrow", "C40", ('pyEdgeEval/_lib/src/Matrix.cc', '    int index = col*_rows + row;\n    return _data[index];\n}\n\nvoid', '    int index = row*_cols + col;\n    return _data[index];\n}\n\nvoid'))
bug("nc-malloc", "C40", ('pyEdgeEval/_lib/src/Matrix.cc', '_data = (double*) calloc (_n, sizeof(*_data));\n            break;\n        case ones', '_data = (double*) malloc (_n * sizeof(*_data));\n            break;\n        case ones'))
bug("nc-undef", "C40", ('pyEdgeEval/_lib/include/Matrix.hh', 'Matrix (int rows, int cols, FillType type = zeros);', 'Matrix (int rows, int cols, FillType type = undef);'))
bug("nc-memcpy", "C40", ('pyEdgeEval/_lib/src/Matrix.cc', 'memcpy (_data, that._data, _n*sizeof(*_data));', 'memcpy (_data, that._data, _n*sizeof(float));'))
bug("nc-memcpy2", "C40", ('pyEdgeEval/_lib/src/Matrix.cc', 'memcpy (_data, that._data, _n*sizeof(*_data));', 'memcpy (_data, that._data, _rows*sizeof(*_data));'))
bug("nc-nodims", "C40", ('pyEdgeEval/_lib/src/Matrix.cc', '        _rows = that._rows;\n        _cols = that._cols;\n        memcpy', '        memcpy'))
bug("nc-share", "C40", ('pyEdgeEval/_lib/src/Matrix.cc', 'memcpy (_data, that._data, _n*sizeof(*_data));', '_data = that._data;'))
bug("nc-refused", "C40", ('pyEdgeEval/_lib/src/Matrix.cc', 'if ((unsigned)row >= (unsigned)_rows ', 'if ((unsigned)row >= (unsigned)_cols '))
bug("nc-nrows", "C40", ('pyEdgeEval/_lib/src/Matrix.cc', 'Matrix::nrows () const \n{ \n    return _rows;', 'Matrix::nrows () const \n{ \n    return _cols;'))
bug("nc-noalloc", "C40", ('pyEdgeEval/_lib/src/Matrix.cc', '        _delete();\n        _alloc(that._rows,that._cols,undef);\n        *this = that;', '        _alloc(that._cols,that._rows,undef);\n        *this = that;\n        _rows = that._cols; _cols = that._rows;'))
bug("nc-clip", "C40", ('pyEdgeEval/_lib/src/Matrix.cc', '    rows = std::max(0,rows);\n    cols = std::max(0,cols);\n    _alloc(rows,cols,type);\n}\n\nMatrix::Matrix (const', '    rows = std::max(1,rows);\n    cols = std::max(1,cols);\n    _alloc(rows,cols,type);\n}\n\nMatrix::Matrix (const'))
same("ncs-loopcopy", ('pyEdgeEval/_lib/src/Matrix.cc', 'memcpy (_data, that._data, _n*sizeof(*_data));', 'for (int i = 0; i < that._n; ++i) { _data[i] = that._data[i]; }'))
same("ncs-stdcopy", ('pyEdgeEval/_lib/src/Matrix.cc', 'memcpy (_data, that._data, _n*sizeof(*_data));', 'std::copy (that._data, that._data + _n, _data);'))
same("ncs-memset", ('pyEdgeEval/_lib/src/Matrix.cc', '_data = (double*) calloc (_n, sizeof(*_data));\n            break;\n        case ones', '_data = (double*) malloc (_n * sizeof(*_data));\n            memset(_data, 0, _n*sizeof(double));\n            break;\n        case ones'))
same("ncs-helper", ('pyEdgeEval/_lib/include/Array.hh', 'unsigned index = i * _dim[1] + j;', '@all@unsigned index = at(i, j);'), ('pyEdgeEval/_lib/include/Array.hh', '    Elem& operator() (unsigned i, unsigned j) {', '    unsigned at (unsigned i, unsigned j) const { return j + _dim[1] * i; }\n    Elem& operator() (unsigned i, unsigned j) {'))
same("ncs-ptr", ('pyEdgeEval/_lib/include/Array.hh', 'unsigned index = i * _dim[1] + j;\n        assert (index < _n);\n        return _array[index];', '@all@return *(_array + i * _dim[1] + j);'))
same("ncs-fill", ('pyEdgeEval/_lib/include/Array.hh', 'for (unsigned i = 0; i < _n; i++) {\n            _array[i] = elem;\n        }', '@all@std::fill(_array, _array + _n, elem);'), ('pyEdgeEval/_lib/include/Array.hh', '#include <assert.h>', '#include <assert.h>\n#include <algorithm>'))
same("ncs-early", ('pyEdgeEval/_lib/src/Matrix.cc', '    if (_n == that._n) {\n        _rows', '    if (this == &that) { return; }\n    if (_n == that._n) {\n        _rows'))
same("ncs-index", ('pyEdgeEval/_lib/src/Matrix.cc', '    int index = col*_rows + row;\n    return _data[index];', '    return *(_data + row + _rows*col);'))
same("ncs-realloc", ('pyEdgeEval/_lib/src/Matrix.cc', '    if (_n == that._n) {\n        _rows = that._rows;\n        _cols = that._cols;\n        memcpy (_data, that._data, _n*sizeof(*_data));\n    } else {\n        _delete();\n        _alloc(that._rows,that._cols,undef);\n        *this = that;\n    }', '    if (_n != that._n) {\n        _delete();\n        _alloc(that._rows,that._cols,undef);\n    }\n    _rows = that._rows;\n    _cols = that._cols;\n    memcpy (_data, that._data, _n*sizeof(*_data));'))
bug("kn-top", "C40", ('pyEdgeEval/_lib/src/kofn.cc', 'Random::rand.i32 (0, n - 1)', 'Random::rand.i32 (0, n)'))
bug("kn-top1", "C40", ('pyEdgeEval/_lib/src/kofn.cc', 'Random::rand.i32 (0, n - 1)', 'Random::rand.i32 (1, n)'))
bug("kn-x", "C40", ('pyEdgeEval/_lib/src/kofn.cc', 'Random::rand.i32 (0, n - i - 1)', 'Random::rand.i32 (0, n - 1)'))
bug("kn-cmp", "C40", ('pyEdgeEval/_lib/src/kofn.cc', 'if (x < leftN - leftK)', 'if (x <= leftN - leftK)'))
bug("kn-shiftk", "C40", ('pyEdgeEval/_lib/src/kofn.cc', 'values[i] += leftN;', 'values[i] += leftK;'))
bug("kn-shift1", "C40", ('pyEdgeEval/_lib/src/kofn.cc', 'for (int i = leftK; i < k; i++) {', 'for (int i = leftK + 1; i < k; i++) {'))
bug("kn-rec", "C40", ('pyEdgeEval/_lib/src/kofn.cc', 'values + leftK); }', 'values + leftN); }'))
bug("kn-recn", "C40", ('pyEdgeEval/_lib/src/kofn.cc', '_kOfN_smallK (rightK, rightN', '_kOfN_smallK (rightK, leftN + 1'))
bug("kn-prob", "C40", ('pyEdgeEval/_lib/src/kofn.cc', '(double) (k - j) / (n - i)', '(double) (k - j) / n'))
bug("kn-probk", "C40", ('pyEdgeEval/_lib/src/kofn.cc', '(double) (k - j) / (n - i)', '(double) k / n'))
bug("kn-lej", "C40", ('pyEdgeEval/_lib/src/kofn.cc', 'if (x < prob) {', 'if (x <= prob) {'))
bug("kn-order", "C40", ('pyEdgeEval/_lib/src/kofn.cc', '_kOfN_smallK (k, n, values);\n    } else', '_kOfN_smallK (n, k, values);\n    } else'))
bug("kn-i32", "C40", ('pyEdgeEval/_lib/include/Random.hh', 'return (int32_t) floor (x * ((double)b - (double)a + 1) + a);', 'return (int32_t) floor (x * ((double)b - (double)a + 1) + a + 1);'))
bug("kn-ceil", "C40", ('pyEdgeEval/_lib/include/Random.hh', 'return (int32_t) floor (x * ((double)b - (double)a + 1) + a);', 'return (int32_t) floor (x * ((double)b - (double)a + 2) + a);'))
same("kns-flip", ('pyEdgeEval/_lib/src/kofn.cc', '        if (x < leftN - leftK) {\n            leftK++; \n        } else {\n            rightK++;\n        }', '        if (x >= leftN - leftK) {\n            rightK += 1;\n        } else {\n            leftK += 1;\n        }'))
same("kns-one", ('pyEdgeEval/_lib/src/kofn.cc', '    int rightK = 0;\n    for', '    for'), ('pyEdgeEval/_lib/src/kofn.cc', '            rightK++;\n', ''), ('pyEdgeEval/_lib/src/kofn.cc', '    if (leftK > 0) {', '    const int rightK = k - leftK;\n    if (leftK > 0) {'))
same("kns-noprob", ('pyEdgeEval/_lib/src/kofn.cc', 'if (x < prob) {', 'if (prob > x) {'), ('pyEdgeEval/_lib/src/kofn.cc', 'values[j++] = i;', 'values[j] = i;\n            ++j;'))
same("kns-right", ('pyEdgeEval/_lib/src/kofn.cc', 'values[i] += leftN;', 'values[i] = values[i] + leftN;'))
same("kns-shiftloop", ('pyEdgeEval/_lib/src/kofn.cc', 'for (int i = leftK; i < k; i++) {\n        values[i] += leftN;', 'for (int i = 0; i < rightK; i++) {\n        values[leftK + i] += leftN;'))
same("kns-choose", ('pyEdgeEval/_lib/src/kofn.cc', 'if (klogk < n / 2) {', 'if (2 * klogk < n) {'))
same("kns-inline", ('pyEdgeEval/_lib/src/kofn.cc', '        double x = Random::rand.fp ();\n        if (x < prob) {', '        if (Random::rand.fp () < prob) {'))
same("kns-early", ('pyEdgeEval/_lib/src/kofn.cc', '    int leftN = n / 2;', '    const int half = n / 2;\n    int leftN = n - half;'))

# ---------------------------------------------------------------- C41 suppression of directories
FN = "pyEdgeEval/preprocess/nms/fast_nms.py"
bug("bn-break", "C41", (FN, "exists... skipping\")\n            continue", "exists... skipping\")\n            break"))
bug("bn-overwrite", "C41", (FN, "                model_save_dir, \"{}.png\".format(os.path.splitext(file)[0])\n            )\n            if os.path.isfile(save_name):\n                continue\n", "                model_save_dir, \"{}.png\".format(os.path.splitext(file)[0])\n            )\n"))
bug("bn-firstdot", "C41", (FN, "\"{}.png\".format(os.path.splitext(file)[0])", "\"{}.png\".format(file.split('.')[0])"))
bug("bn-shareddir", "C41", (FN, "            save_name = os.path.join(\n                model_save_dir,", "            save_name = os.path.join(\n                save_dir,"))
bug("bn-format", "C41", (FN, "if os.path.splitext(file)[-1] != file_format:\n                continue", "if os.path.splitext(file)[-1] not in (\".mat\", \".npy\"):\n                continue"))
bug("bn-radius", "C41", (FN, "            out = fast_nms(image, r=1, s=5, m=1.01, return_as_uint8=True)", "            out = fast_nms(image, r=1, s=4, m=1.01, return_as_uint8=True)"))
bug("bn-float", "C41", (FN, "        out = fast_nms(img, r=1, s=5, m=1.01, return_as_uint8=True)\n        # save", "        out = fast_nms(img, r=1, s=5, m=1.01)\n        # save"))
bug("bn-half", "C41", (FN, "    out = fast_nms(img, r=1, s=5, m=1.01, return_as_uint8=True)\n\n    if save", "    out = fast_nms(img, 1, 5, 1.01, True, True)\n\n    if save"))
bug("bn-input", "C41", (FN, "cv2.imwrite(save_path, out)", "cv2.imwrite(save_path, img)"))
bug("bn-nosave", "C41", (FN, "    if save:\n        # remove", "    if save_path is not None:\n        # remove"))
bug("bn-samefile", "C41", (FN, "img_path = os.path.join(result_dir, file)", "img_path = os.path.join(result_dir, os.listdir(result_dir)[0])"))
bug("bn-first", "C41", (FN, "    for file in os.listdir(result_dir):\n        save_name = os.path.join(save_dir", "    for file in os.listdir(result_dir)[1:]:\n        save_name = os.path.join(save_dir"))
bug("bn-nodir", "C41", (FN, "            os.makedirs(model_save_dir)", "            os.makedirs(save_dir, exist_ok=True)"))
bug("bn-dirlate", "C41", (FN, "        if not os.path.isdir(model_save_dir):\n            os.makedirs(model_save_dir)\n", ""))
bug("bn-existsin", "C41", (FN, "            if os.path.isfile(save_name):\n                continue\n\n", "            if os.path.isfile(os.path.join(save_dir, file)):\n                continue\n\n"))
bug("bn-listed", "C41", (FN, "        model_name_list = [model_name_list]", "        model_name_list = list(model_name_list)"))
bug("bn-key", "C41", (FN, "image = loadmat(abs_path)[key]", "image = loadmat(abs_path)[model_name]"))
bug("bn-jpg", "C41", (FN, "assert os.path.splitext(save_path)[-1] == \".png\"", "assert os.path.splitext(save_path)[-1] != \"\""))
bug("bn-done", "C41", (FN, "    for model_name in model_name_list:\n", "    for model_name in model_name_list:\n        if os.path.isdir(os.path.join(save_dir, model_name)):\n            continue\n"))
same("bns-sorted", (FN, "    for file in os.listdir(result_dir):\n        save_name = os.path.join(save_dir", "    for file in sorted(os.listdir(result_dir)):\n        save_name = os.path.join(save_dir"))
same("bns-stem", (FN, "f\"{os.path.splitext(file)[0]}.png\"", "os.path.splitext(file)[0] + \".png\""))
same("bns-mkdir", (FN, "        if not os.path.isdir(model_save_dir):\n            os.makedirs(model_save_dir)\n", "        os.makedirs(model_save_dir, exist_ok=True)\n"))
same("bns-order", (FN, "            if os.path.isfile(save_name):\n                continue\n\n            if os.path.splitext(file)[-1] != file_format:\n                continue\n", "            if os.path.splitext(file)[-1] != file_format:\n                continue\n            if os.path.exists(save_name):\n                continue\n"))
same("bns-one", (FN, "            out = fast_nms(image, r=1, s=5, m=1.01, return_as_uint8=True)\n            # save output\n            cv2.imwrite(save_name, out)", "            nms_process_one_image(image, save_path=save_name)"))
same("bns-endswith", (FN, "if os.path.splitext(file)[-1] != file_format:", "_, ext = os.path.splitext(file)\n            if not ext == file_format:"))
same("bns-todo", (FN, "    for file in os.listdir(result_dir):\n        save_name = os.path.join(save_dir", "    todo = [f for f in os.listdir(result_dir)]\n    for file in todo:\n        save_name = os.path.join(save_dir"))
same("bns-nested", (FN, "            if os.path.isfile(save_name):\n                continue\n\n            if os.path.splitext(file)[-1] != file_format:\n                continue\n", "            done = os.path.isfile(save_name)\n            if done or os.path.splitext(file)[-1] != file_format:\n                continue\n"))
same("bns-loader", (FN, "            if file_format == \".mat\":\n                assert key is not None\n                image = loadmat(abs_path)[key]\n            elif file_format == \".npy\":\n                image = np.load(abs_path)\n            else:\n                raise NotImplementedError\n", "            image = np.load(abs_path) if file_format == \".npy\" else loadmat(abs_path)[key]\n"))
bug("rw-break", "C22", ("pyEdgeEval/common/binary_label/io.py", "                    f1=res[\"f1\"],\n                )\n            )\n", "                    f1=res[\"f1\"],\n                )\n            )\n            if res[\"f1\"] == 0:\n                break\n"))
bug("rw-return", "C22", ("pyEdgeEval/common/multi_label/io.py", "        for res in threshold_metrics:\n", "        for res in threshold_metrics:\n            if res[\"recall\"] == 0:\n                return\n"))
bug("rw-continue", "C22", ("pyEdgeEval/common/multi_label/io.py", "        for res in sample_metrics:\n", "        for res in sample_metrics:\n            if res[\"f1\"] == 0:\n                continue\n"))
bug("rw-once", "C22", ("pyEdgeEval/common/multi_label/io.py", "        for res in sample_metrics:\n            f.write(", "        for k, res in enumerate(sample_metrics):\n            if k and res[\"name\"] == sample_metrics[k - 1][\"name\"]:\n                continue\n            f.write("))
bug("sp-stale", "C14", ("pyEdgeEval/evaluators/cityscapes.py", "        self.PRED_SUFFIX = suffix\n", "        if self.PRED_SUFFIX is None:\n            self.PRED_SUFFIX = suffix\n"))
same("sps-strip", ("pyEdgeEval/evaluators/cityscapes.py", "        self.PRED_SUFFIX = suffix\n", "        setattr(self, 'PRED_SUFFIX', suffix)\n"))
bug("cl-ignore", "C25", ("pyEdgeEval/edge_tools/transforms.py", "            ignore_indices=self.ignore_indices,\n", "", ))
bug("cl-initarg", "C25", ("pyEdgeEval/edge_tools/mask2edge_mp.py", "        ignore_mask=mp_ignore_mask,\n", ""))
bug("df-otf-gate", "C13", ("pyEdgeEval/datasets/otf_cityscapes.py", "    if kill_internal:\n        # load", "    if skip_if_nonexistent:\n        # load"))
bug("df-bsds-nms", "C13", ("pyEdgeEval/evaluators/bsds.py", "apply_nms: bool = False,", "apply_nms: bool = True,"))
bug("df-sbd-dist", "C13", ("pyEdgeEval/evaluators/sbd.py", "max_dist: float = 0.02", "max_dist: float = 0.002"))
bug("df-reanno-dist", "C13", ("pyEdgeEval/evaluators/sbd.py", "max_dist: float = 0.0075", "max_dist: float = 0.02"))
bug("df-half-dist", "C13", ("pyEdgeEval/evaluators/half_cityscapes.py", "max_dist: float = 0.0035", "max_dist: float = 0.007"))
bug("df-reanno-out", "C13", ("pyEdgeEval/helpers/evaluate_sbd.py", "    if output_path is None:\n        timestamp = time.strftime(\"%Y%m%d_%H%M%S\", time.localtime())\n        output_path = osp.join(\n            osp.normpath(pred_path), f\"edge_results_{timestamp}\"\n        )\n\n    mkdir_or_exist(output_path)\n\n    timestamp", "    if output_path == \"\":\n        timestamp = time.strftime(\"%Y%m%d_%H%M%S\", time.localtime())\n        output_path = osp.join(\n            osp.normpath(pred_path), f\"edge_results_{timestamp}\"\n        )\n\n    mkdir_or_exist(output_path)\n\n    timestamp"))
bug("df-gt-out", "C13", ("pyEdgeEval/helpers/evaluate_cityscapes.py", "            osp.normpath(pred_path), f\"edge_results_{timestamp}\"", "            osp.normpath(cityscapes_path), f\"edge_results_{timestamp}\""))
bug("df-nokey", "C04", ("pyEdgeEval/common/binary_label/calculate_metrics.py", "        OIS_recall=rec_best,\n", ""))
same("dfs-out", ("pyEdgeEval/helpers/evaluate_cityscapes.py", "        output_path = osp.join(\n            osp.normpath(pred_path), f\"edge_results_{timestamp}\"\n        )", "        output_path = osp.normpath(pred_path) + osp.sep + \"edge_results_\" + timestamp"))
same("dfs-out2", ("pyEdgeEval/helpers/evaluate_bsds500.py", "            osp.normpath(pred_path), f\"edge_results_{timestamp}\"", "            pred_path, f\"results_{timestamp}\""))
same("dfs-const", ("pyEdgeEval/evaluators/bsds.py", "max_dist: float = 0.0075", "max_dist: float = 75e-4"))
bug("mp-firstinst", "C16,C32", ("pyEdgeEval/edge_tools/mask2edge_mp.py", "            label_inst[_label].append(_inst)", "            pass"))


# ------------------------------------------------------------------ accepted and refused inputs
TR = "pyEdgeEval/edge_tools/transforms.py"
THB = "pyEdgeEval/preprocess/thin/bwmorph_thin.py"
bug("ac-radius", "C42", (TR, "assert radius >= 1,", "assert radius > 1,"))
bug("ac-radius0", "C42", (TR, "assert radius >= 1,", "assert radius >= 0,"))
bug("ac-labels", "C42", (TR, "assert len(labelIds) > 0,", "assert len(labelIds) > 1,"))
bug("ac-nolabels", "C42", (TR, "        assert len(labelIds) > 0, \"ERR: there should be more than 1 labels\"\n", ""), (CF, "len(labels) > 0", "len(labels) >= 0"))
bug("ac-ignore", "C42", (TR, "        self.ignore_indices = ignore_indices\n", "        assert all(ignore_indices)\n        self.ignore_indices = ignore_indices\n"))
bug("ac-rank", "C42", (CF, "len(edge.shape) == 3", "len(edge.shape) == 4"))
bug("ac-inst-shape", "C42", (TR, "        assert mask.shape == inst_mask.shape\n", "        assert mask.size == inst_mask.size\n"))
bug("ac-instlist", "C42", (TR, "assert isinstance(inst_labelIds, (list, tuple))", "assert isinstance(inst_labelIds, list)"))
bug("ac-instnone", "C42", (TR, "assert isinstance(inst_labelIds, (list, tuple))", "assert isinstance(inst_labelIds, (list, tuple)) and len(inst_labelIds) > 1"))
bug("ac-last", "C42", (DO, "    assert label < num_labels\n    ignore_mask", "    assert label < num_labels - 1\n    ignore_mask"))
bug("ac-first", "C42", (DO, "    assert label < num_labels\n    ignore_mask", "    assert 0 < label < num_labels\n    ignore_mask"))
bug("ac-single", "C42", (FN, "    assert (img.dtype == np.float64) or (\n        img.dtype == np.float32\n    ), f\"ERR: input dtype should be float64 or float32 but got {img.dtype}\"", "    assert img.dtype == np.float64"))
bug("ac-iters", "C42", (THB, "elif n_iter <= 0:", "elif n_iter <= 1:"))
bug("ac-outlier", "C42", (CPX, "if outlier_cost <= 1:", "if outlier_cost <= 10:"))
bug("ac-dist", "C42", (CPX, "if max_dist <= 0.0:", "if max_dist <= 0.001:"))
bug("ac-channel", "C42", (CF, "        assert c == 1,", "        assert c in (1, 3),"))
bug("ac-loop-rank", "C42", (LP, "    assert mask.ndim == 3\n    num_labels, h, w = mask.shape\n", "    assert mask.ndim == 3 and mask.shape[0] > 1\n    num_labels, h, w = mask.shape\n"))
bug("ac-names", "C42", (BV, "len(names) == n", "len(names) >= n"))
bug("ac-format", "C42", (FN, "            if file_format == \".mat\":\n                assert key is not None", "            assert key is not None\n            if file_format == \".mat\":"))
bug("ac-tasks", "C42", (PB, "        assert isinstance(tasks[1], int)\n        task_num = tasks[1]\n        tasks = tasks[0]\n    elif isinstance(tasks, Iterable):\n        task_num = len(tasks)\n    else:\n        raise TypeError(\n            '\"tasks\" must be an iterable object or a (iterator, int) tuple'\n        )\n    pool", "        assert isinstance(tasks[1], float)\n        task_num = tasks[1]\n        tasks = tasks[0]\n    elif isinstance(tasks, Iterable):\n        task_num = len(tasks)\n    else:\n        raise TypeError(\n            '\"tasks\" must be an iterable object or a (iterator, int) tuple'\n        )\n    pool"))
same("ac-helper", (TR, "class Mask2Edge(object):", "def _positive(n):\n    if n < 1:\n        raise ValueError(n)\n\n\nclass Mask2Edge(object):"), (TR, "        assert radius >= 1, \"ERR: radius should be equal or greater than 1\"\n", "        _positive(radius)\n"))
same("ac-notempty", (TR, "assert len(labelIds) > 0,", "assert len(labelIds) != 0,"))
same("ac-shape", (TR, "        assert mask.ndim == 2\n        assert mask.shape == inst_mask.shape\n", "        assert len(mask.shape) == 2 and inst_mask.shape == mask.shape\n"))
same("ac-raise", (LP, "    assert mask.ndim == 3\n    num_labels, h, w = mask.shape\n", "    if mask.ndim != 3:\n        raise ValueError(mask.shape)\n    num_labels, h, w = mask.shape\n"))
same("ac-unpack", (LP, "    assert mask.ndim == 3\n    num_labels, h, w = mask.shape\n", "    (num_labels, h, w) = shape = mask.shape\n    assert len(shape) == 3\n"))
same("ac-dtypes", (FN, "    assert (img.dtype == np.float64) or (\n        img.dtype == np.float32\n    ), f\"ERR: input dtype should be float64 or float32 but got {img.dtype}\"", "    assert img.dtype in (np.float64, np.float32)"))
same("ac-kind", (FN, "    assert (img.dtype == np.float64) or (\n        img.dtype == np.float32\n    ), f\"ERR: input dtype should be float64 or float32 but got {img.dtype}\"", "    if not np.issubdtype(img.dtype, np.floating):\n        raise TypeError(img.dtype)"))
same("ac-label", (DO, "    assert label < num_labels\n    ignore_mask", "    if label >= num_labels:\n        raise IndexError(label)\n    ignore_mask"))
same("ac-outer", (TR, "        assert radius >= 1, \"ERR: radius should be equal or greater than 1\"\n        self.radius = radius\n", "        self.radius = radius\n        assert not self.radius < 1\n"))
same("ma-run", (TR, """    if run_type == "loop":
        if instance_sensitive:
            return loop_instance_mask2edge(**kwargs)
        else:
            return loop_mask2edge(**kwargs)
    elif run_type == "mp":
        if instance_sensitive:
            return mp_instance_mask2edge(**kwargs)
        else:
            return mp_mask2edge(**kwargs)
    else:
        raise ValueError(f"{run_type} is not a valid run type")
""", """    match (run_type, bool(instance_sensitive)):
        case ("loop", True):
            return loop_instance_mask2edge(**kwargs)
        case ("loop", _):
            return loop_mask2edge(**kwargs)
        case ("mp", inst) if inst:
            return mp_instance_mask2edge(**kwargs)
        case ("mp", False):
            return mp_mask2edge(**kwargs)
        case _:
            raise ValueError(f"{run_type} is not a valid run type")
"""))
bug("ma-swap", "C16", (TR, """    if run_type == "loop":
        if instance_sensitive:
            return loop_instance_mask2edge(**kwargs)
        else:
            return loop_mask2edge(**kwargs)
    elif run_type == "mp":
        if instance_sensitive:
            return mp_instance_mask2edge(**kwargs)
        else:
            return mp_mask2edge(**kwargs)
    else:
        raise ValueError(f"{run_type} is not a valid run type")
""", """    match run_type:
        case "loop" if instance_sensitive:
            return loop_instance_mask2edge(**kwargs)
        case "loop":
            return loop_mask2edge(**kwargs)
        case "mp" if not instance_sensitive:
            return mp_instance_mask2edge(**kwargs)
        case "mp":
            return mp_mask2edge(**kwargs)
        case _:
            raise ValueError(f"{run_type} is not a valid run type")
"""))
GBD = "pyEdgeEval/datasets/generic_binary.py"
bug("an-new", "C08", (GBD, 'return [gt[i]["Boundaries"] for i in range(num_gts)]', 'return [gt[i]["Boundaries"] for i in range(num_gts - 1)]'))
bug("an-new2", "C08", (DB, 'return [gt[i]["Boundaries"] for i in range(num_gts)]', 'return [gt[0]["Boundaries"] for i in range(num_gts)]'))
bug("an-new3", "C08", (DB, 'return [gt[i]["Boundaries"] for i in range(num_gts)]', 'return [gt[i]["Segmentation"] for i in range(num_gts)]'))
same("an-each", (DB, 'return [gt[i]["Boundaries"] for i in range(num_gts)]', 'return [g["Boundaries"] for g in gt]'))
bug("ac-bin", "C42", (CC, '    elif save_format == ".bin":', '    elif save_format == ".raw":'))
bug("ac-bin2", "C42", (CC, '    assert save_format in (".png", ".tif", ".bin")', '    assert save_format in (".png", ".tif")'))
bug("ac-thin", "C42", (CC, "        assert radius == 1,", "        assert radius == 2,"))
bug("ac-ext", "C42", (CC, '    assert ext in ("png", "bin", "tif"), f"extention', '    assert ext in ("png", "tif"), f"extention'))
bug("ac-scan", "C42", (PTH, "isinstance(suffix, (str, tuple))", "isinstance(suffix, str)"))
same("ac-ext2", (CC, '    assert ext in ("png", "bin", "tif"), f"extention {ext} is not supported"', '    if ext not in {"png", "bin", "tif"}:\n        raise ValueError(ext)'))
same("ac-formats", (CC, '    assert save_format in (".png", ".tif", ".bin")', '    assert save_format[1:] in ("png", "tif", "bin"), save_format'))
# refactorings, further batch
HALF = "pyEdgeEval/evaluators/half_cityscapes.py"
MIO = "pyEdgeEval/common/multi_label/io.py"
BIO = "pyEdgeEval/common/binary_label/io.py"
PRC = "pyEdgeEval/visualization/pr_curve.py"
DT = "pyEdgeEval/utils/distance_transforms.py"
ECS = "pyEdgeEval/helpers/evaluate_cityscapes.py"
same("rg-half-props", (HALF, """        return dict(
            scale=1,  # don't tamper with scale since we're using half scale already
            apply_thinning=self.apply_thinning,
            apply_nms=self.apply_nms,
            max_dist=self.max_dist,
            kill_internal=self.kill_internal,
            skip_if_nonexistent=self.skip_if_nonexistent,
            num_classes=len(self.CLASSES),
        )
""", """        names = (
            "apply_thinning",
            "apply_nms",
            "max_dist",
            "kill_internal",
            "skip_if_nonexistent",
        )
        params = {name: getattr(self, name) for name in names}
        params.update(scale=1, num_classes=len(self.CLASSES))
        return params
"""))
same("rg-half-mode", (HALF, """            self.max_dist = max_dist
            if instance_sensitive:
                # instance-sensitive
                self.instance_sensitive = True
                self.kill_internal = False
                self.skip_if_nonexistent = False
            else:
                self.instance_sensitive = False
                self.kill_internal = True
                self.skip_if_nonexistent = True
""", """            self.max_dist = max_dist
            self.instance_sensitive = bool(instance_sensitive)
            self.kill_internal = not instance_sensitive
            self.skip_if_nonexistent = not instance_sensitive
"""))
same("rg-half-set", (HALF, """            self.max_dist = max_dist
            self.kill_internal = kill_internal
            self.skip_if_nonexistent = skip_if_nonexistent
            self.instance_sensitive = instance_sensitive

        if""", """            custom = dict(
                max_dist=max_dist,
                kill_internal=kill_internal,
                skip_if_nonexistent=skip_if_nonexistent,
                instance_sensitive=instance_sensitive,
            )
            for key, value in custom.items():
                setattr(self, key, value)

        if"""))
same("rg-gb-loop", (GBD, "        return [gt[0, i][\"Boundaries\"][0, 0] for i in range(num_gts)]", """        boundaries = []
        for annotation in gt[0]:
            boundaries.append(annotation["Boundaries"][0, 0])
        return boundaries"""))
same("rg-gb-nms", (GBD, """        nms_kwargs=dict(
            r=1,
            s=5,
            m=1.01,
            half_prec=False,
        ),
""", """        nms_kwargs={"half_prec": False, "m": 1.01, "r": 1, "s": 5},
"""))
for _f, _t in ((MIO, "rg-mio"), (BIO, "rg-bio")):
    same(_t + "-join", (_f, """    tmp_line = "{thrs:<10.6f} {rec:<10.6f} {prec:<10.6f} {f1:<10.6f}\\n"
    with open(file_path, "w") as f:
        for res in threshold_metrics:
            f.write(
                tmp_line.format(
                    thrs=res["threshold"],
                    rec=res["recall"],
                    prec=res["precision"],
                    f1=res["f1"],
                )
            )
""", """    keys = ("threshold", "recall", "precision", "f1")
    lines = [
        " ".join(f"{res[key]:<10.6f}" for key in keys) + "\\n"
        for res in threshold_metrics
    ]
    with open(file_path, "w") as f:
        f.writelines(lines)
"""))
    same(_t + "-fstr", (_f, """            f.write(
                tmp_line.format(
                    name=res["name"],
                    thrs=res["threshold"],
                    rec=res["recall"],
                    prec=res["precision"],
                    f1=res["f1"],
                )
            )
""", """            f.write(
                f"{res['name']} {res['threshold']:<10.6f} {res['recall']:<10.6f} "
                f"{res['precision']:<10.6f} {res['f1']:<10.6f}\\n"
            )
"""))
    same(_t + "-keys", (_f, """        f.write(
            "{:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f}".format(
                overall_metric["ODS_threshold"],
                overall_metric["ODS_recall"],
                overall_metric["ODS_precision"],
                overall_metric["ODS_f1"],
                overall_metric["OIS_recall"],
                overall_metric["OIS_precision"],
                overall_metric["OIS_f1"],
                overall_metric["AUC"],
                overall_metric["AP"],
            )
        )
""", """        keys = [
            "ODS_threshold",
            "ODS_recall",
            "ODS_precision",
            "ODS_f1",
            "OIS_recall",
            "OIS_precision",
            "OIS_f1",
            "AUC",
            "AP",
        ]
        f.write(" ".join("{:<10.6f}".format(overall_metric[k]) for k in keys))
"""))
    same(_t + "-star", (_f, """    with open(file_path, "w") as f:
        f.write(
            "{:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f}".format(
                overall""", """    with open(file_path, "w") as f:
        f.write(
            " ".join(["{:<10.6f}"] * 9).format(
                overall"""))
same("rg-pr-rev", (PRC, "    for i in range(n - 1, -1, -1):", "    for i in reversed(range(n)):"))
same("rg-pr-flip", (PRC, "    o = np.argsort(res[:, 3])[::-1]", "    o = np.flip(np.argsort(res[:, 3]))"))
same("rg-pr-hs", (PRC, "        hs[i] = ax.plot(", "        (hs[i],) = ax.plot("), (PRC, "            color=colors[i],\n        )[0]", "            color=colors[i],\n        )"))
same("rg-dt-and", (DT, """    dist = outer + inner

    dist[dist > radius] = 0
    dist = (dist > 0).astype(np.uint8)
    return dist


def _scipy""", """    dist = outer + inner
    return np.logical_and(dist > 0, dist <= radius).astype(np.uint8)


def _scipy"""))
same("rg-dt-help", (DT, """    inner = _scipy_distance((m + ignore_mask) > 0)
    outer = _scipy_distance(1.0 - m)
    dist = outer + inner

    dist[dist > radius] = 0
    dist = (dist > 0).astype(np.uint8)
    return dist
""", """    return _near(
        _scipy_distance(1.0 - m) + _scipy_distance((m + ignore_mask) > 0), radius
    )


def _near(dist, radius):
    dist = np.where(dist > radius, 0, dist)
    return (dist > 0).astype(np.uint8)
"""))
same("rg-dt-ret", (DT, """    if use_cv2:
        return cv2_mask2bdry(
            m=mask,
            ignore_mask=ignore_mask,
            radius=radius,
            quality=quality,
        )
    else:
        return scipy_mask2bdry(
            m=mask,
            ignore_mask=ignore_mask,
            radius=radius,
        )
""", """    if not use_cv2:
        return scipy_mask2bdry(mask, ignore_mask, radius)
    return cv2_mask2bdry(mask, ignore_mask, radius, quality)
"""))
same("rg-ecs-parse", (ECS, """    # string evaluation for thresholds
    thresholds = thresholds.strip()
    try:
        n_thresholds = int(thresholds)
        thresholds = n_thresholds
    except ValueError:
        try:
            if thresholds.startswith("[") and thresholds.endswith("]"):
                thresholds = thresholds[1:-1]
                thresholds = [float(t.strip()) for t in thresholds.split(",")]
            else:
                print(
                    "Bad threshold format; should be a python list of floats (`[a, b, c]`)"
                )
                return
        except ValueError:
            print(
                "Bad threshold format; should be a python list of ints (`[a, b, c]`)"
            )
            return
""", """    # string evaluation for thresholds
    thresholds = _parse_thresholds(thresholds)
    if thresholds is None:
        return
"""), (ECS, "def evaluate(\n", '''def _parse_thresholds(text):
    text = text.strip()
    try:
        return int(text)
    except ValueError:
        pass
    if not (text.startswith("[") and text.endswith("]")):
        print(
            "Bad threshold format; should be a python list of floats (`[a, b, c]`)"
        )
        return None
    try:
        return [float(t) for t in text[1:-1].split(",")]
    except ValueError:
        print(
            "Bad threshold format; should be a python list of ints (`[a, b, c]`)"
        )
        return None


def evaluate(
'''))
same("rg-ecs-shared", (ECS, """    evaluate(
        gt_dir=gt_dir,
        cityscapes_path=args.cityscapes_path,
        pred_path=args.pred_path,
        output_path=args.output_path,
        categories=args.categories,
        thin=True,
        pre_seal=args.pre_seal,
        nonIS=args.nonIS,
        max_dist=args.max_dist,
        scale=0.5,  # doesn't matter since we're using half
        apply_thinning=True,  # apply thinning on preds
        apply_nms=args.apply_nms,
        thresholds=args.thresholds,
        half=True,  # use HalfCityscapesEvaluator
        nproc=args.nproc,
    )""", """    _evaluate_args(args, gt_dir, thin=True, scale=0.5, half=True)


def _evaluate_args(args, gt_dir, *, thin, scale, half):
    evaluate(
        gt_dir=gt_dir,
        cityscapes_path=args.cityscapes_path,
        pred_path=args.pred_path,
        output_path=args.output_path,
        categories=args.categories,
        thin=thin,
        pre_seal=args.pre_seal,
        nonIS=args.nonIS,
        max_dist=args.max_dist,
        scale=scale,
        apply_thinning=thin,
        apply_nms=args.apply_nms,
        thresholds=args.thresholds,
        half=half,
        nproc=args.nproc,
    )"""), (ECS, """    evaluate(
        gt_dir=gt_dir,
        cityscapes_path=args.cityscapes_path,
        pred_path=args.pred_path,
        output_path=args.output_path,
        categories=args.categories,
        thin=False,
        pre_seal=args.pre_seal,
        nonIS=args.nonIS,
        max_dist=args.max_dist,
        scale=args.scale,
        apply_thinning=False,
        apply_nms=args.apply_nms,
        thresholds=args.thresholds,
        half=args.half,
        nproc=args.nproc,
    )""", """    _evaluate_args(args, gt_dir, thin=False, scale=args.scale, half=args.half)"""))
same("rg-ecs-vars", (ECS, """    args = thin_eval_parse_args()
    evaluate(
        gt_dir=gt_dir,
        cityscapes_path=args.cityscapes_path,
        pred_path=args.pred_path,
        output_path=args.output_path,
        categories=args.categories,
        thin=True,
        pre_seal=args.pre_seal,
        nonIS=args.nonIS,
        max_dist=args.max_dist,
        scale=0.5,  # doesn't matter since we're using half
        apply_thinning=True,  # apply thinning on preds
        apply_nms=args.apply_nms,
        thresholds=args.thresholds,
        half=True,  # use HalfCityscapesEvaluator
        nproc=args.nproc,
    )""", """    kwargs = vars(thin_eval_parse_args())
    kwargs.update(thin=True, scale=0.5, apply_thinning=True, half=True)
    evaluate(gt_dir=gt_dir, **kwargs)"""))
MCM = "pyEdgeEval/common/multi_label/calculate_metrics.py"
MEB = "pyEdgeEval/common/multi_label/evaluate_boundaries.py"
BAS = "pyEdgeEval/evaluators/base.py"
MET = "pyEdgeEval/common/metrics.py"
_loop = open("/repo/" + MCM).read()
_loop = _loop[_loop.index("    # initialize array\n"):_loop.index("    # Computer overall")] if "    # initialize array\n" in _loop and "    # Computer overall" in _loop else "?"
same("rg-cm-rows", (MCM, _loop, """    stats = []
    best_stats = []
    sample_results = []
    n_thresh = len(thresholds)
    for sample_data, counts in zip(samples, sample_metrics):
        rec, prec, f1 = compute_rec_prec_f1(*counts)
        best_ndx = np.argmax(f1)
        stats.append(counts)
        best_stats.append([c[best_ndx] for c in counts])
        sample_results.append(
            dict(
                name=sample_data["name"],
                threshold=thresholds[best_ndx],
                recall=rec[best_ndx],
                precision=prec[best_ndx],
                f1=f1[best_ndx],
            )
        )
    count_r_overall, sum_r_overall, count_p_overall, sum_p_overall = (
        sum(column) for column in zip(*stats)
    )
    count_r_best, sum_r_best, count_p_best, sum_p_best = (
        sum(column) for column in zip(*best_stats)
    )

"""))
same("rg-cm-helper", (MCM, """        sample_results.append(
            dict(
                name=sample_data["name"],
                threshold=thresholds[best_ndx],
                recall=rec[best_ndx],
                precision=prec[best_ndx],
                f1=f1[best_ndx],
            )
        )
""", """        sample_results.append(
            _row(thresholds, rec, prec, f1, best_ndx, name=sample_data["name"])
        )
"""), (MCM, """        threshold_results.append(
            dict(
                threshold=thresholds[thresh_i],
                recall=rec_overall[thresh_i],
                precision=prec_overall[thresh_i],
                f1=f1_overall[thresh_i],
            )
        )
""", """        threshold_results.append(
            _row(thresholds, rec_overall, prec_overall, f1_overall, thresh_i)
        )
"""), (MCM, "def calculate_metrics(\n", '''def _row(thresholds, rec, prec, f1, index, **extra):
    return {
        **extra,
        "threshold": thresholds[index],
        "recall": rec[index],
        "precision": prec[index],
        "f1": f1[index],
    }


def calculate_metrics(
'''))
same("rg-cm-zipthr", (MCM, """    threshold_results = []
    for thresh_i in range(n_thresh):
        threshold_results.append(
            dict(
                threshold=thresholds[thresh_i],
                recall=rec_overall[thresh_i],
                precision=prec_overall[thresh_i],
                f1=f1_overall[thresh_i],
            )
        )
""", """    threshold_results = [
        dict(zip(("threshold", "recall", "precision", "f1"), row))
        for row in zip(thresholds, rec_overall, prec_overall, f1_overall)
    ]
"""))
same("rg-cm-ap", (MCM, """    ap = 0
    for t in np.linspace(0, 1, num=101):
        _r = rec_overall >= t
        p = np.max(prec_overall[_r], initial=0)
        ap = ap + p / 101
""", """    ap = sum(
        np.max(prec_overall[rec_overall >= t], initial=0)
        for t in np.linspace(0, 1, num=101)
    ) / 101
"""))
same("rg-cm-auc", (MCM, """    if rec_unique.shape[0] > 1:
        prec_interp = np.interp(
            np.arange(0, 1, prec_inc),
            rec_unique,
            prec_unique,
            left=0.0,
            right=0.0,
        )
        area_pr = prec_interp.sum() * prec_inc
    else:
        area_pr = 0.0
""", """    area_pr = 0.0
    if len(rec_unique) > 1:
        grid = np.arange(0, 1, prec_inc)
        area_pr = prec_inc * np.sum(
            np.interp(grid, rec_unique, prec_unique, left=0.0, right=0.0)
        )
"""))
same("rg-eb-filter", (MEB, """            match1, match2, cost, oc = correspond_pixels(
                _pred, gt, max_dist=max_dist
            )
            match1 = match1 > 0
            match2 = match2 > 0

            # Recall
            sum_r[i_t] = gt.sum()
            count_r[i_t] = match2.sum()

            # Precision
            sum_p[i_t] = _pred.sum()
            count_p[i_t] = match1.sum()
        else:
            sum_r[i_t] = 0
            count_r[i_t] = 0
            sum_p[i_t] = _pred.sum()  # keep track of false positives
            count_p[i_t] = 0
""", """            sum_r[i_t] = gt.sum()
            count_r[i_t], count_p[i_t] = _count_matches(_pred, gt, max_dist)

        # keep track of false positives as well
        sum_p[i_t] = _pred.sum()
"""), (MEB, "def evaluate_boundaries_threshold(\n", '''def _count_matches(pred, gt, max_dist):
    """Returns the number of matched GT and predicted pixels"""
    match_pred, match_gt, *_ = correspond_pixels(pred, gt, max_dist=max_dist)
    return np.count_nonzero(match_gt > 0), np.count_nonzero(match_pred > 0)


def evaluate_boundaries_threshold(
'''))
same("rg-eb-hoist", (MEB, "    for i_t, thresh in enumerate(list(thresholds)):\n", """    has_gt = gt.any()
    n_gt = gt.sum()
    for i_t, thresh in enumerate(thresholds):
"""), (MEB, "        if gt.any():\n", "        if has_gt:\n"), (MEB, "            sum_r[i_t] = gt.sum()\n", "            sum_r[i_t] = n_gt\n"))
same("rg-eb-rows", (MEB, """    sum_p = np.zeros(thresholds.shape)
    count_p = np.zeros(thresholds.shape)
    sum_r = np.zeros(thresholds.shape)
    count_r = np.zeros(thresholds.shape)
""", """    sum_p, count_p, sum_r, count_r = (
        np.zeros_like(thresholds, dtype=float) for _ in range(4)
    )
"""))
same("rg-ba-append", (BAS, """            for k, v in overall_metric.items():
                if k in ret_metrics.keys():
                    ret_metrics[k].append(v)
                else:
                    ret_metrics[k] = [v]
""", """            for k, v in overall_metric.items():
                ret_metrics.setdefault(k, []).append(v)
"""))
same("rg-ba-collect", (BAS, """        ret_metrics = OrderedDict()
        for category in categories:
            # do a single category evaluation
            overall_metric = self.evaluate_category(
                category=category,
                thresholds=thresholds,
                nproc=nproc,
                save_dir=save_dir,
            )
            for k, v in overall_metric.items():
                if k in ret_metrics.keys():
                    ret_metrics[k].append(v)
                else:
                    ret_metrics[k] = [v]
""", """        overall_metrics = [
            self.evaluate_category(
                category=category,
                thresholds=thresholds,
                nproc=nproc,
                save_dir=save_dir,
            )
            for category in categories
        ]
        ret_metrics = OrderedDict(
            (k, [metric[k] for metric in overall_metrics])
            for k in overall_metrics[0]
        )
"""))
same("rg-ba-mean", (BAS, """        if save_dir:
            # output basic metrics (unformatted)
            ret_metrics_out = OrderedDict(
                {
                    ret_metric: np.round(np.nanmean(ret_metric_value), 6)
                    for ret_metric, ret_metric_value in ret_metrics.items()
                }
            )
""", """        if save_dir:
            # output basic metrics (unformatted)
            ret_metrics_out = OrderedDict()
            for ret_metric in ret_metrics:
                mean = np.nanmean(ret_metrics[ret_metric])
                ret_metrics_out[ret_metric] = np.round(mean, 6)
"""))
same("rg-ba-keep", (BAS, """        # each class table
        remove_metrics = ["OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP"]
        for m in remove_metrics:
            ret_metrics.pop(m, None)
""", """        # each class table
        ret_metrics = OrderedDict(
            (m, v)
            for m, v in ret_metrics.items()
            if m not in ("OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP")
        )
"""))
same("rg-me-interp", (MET, """    best_threshold = thresholds[0]
    best_rec = rec[0]
    best_prec = prec[0]
    best_f1 = f1(best_prec, best_rec)

    for i in range(1, len(thresholds)):
        for d in np.linspace(0, 1, num=101):
            t = thresholds[i] * d + thresholds[i - 1] * (1 - d)
            r = rec[i] * d + rec[i - 1] * (1 - d)
            p = prec[i] * d + prec[i - 1] * (1 - d)
            f = f1(p, r)
            if f > best_f1:
                best_threshold = t
                best_rec = r
                best_prec = p
                best_f1 = f

    return best_threshold, best_rec, best_prec, best_f1""", """    best = (thresholds[0], rec[0], prec[0], f1(prec[0], rec[0]))

    for i in range(len(thresholds) - 1):
        for d in np.linspace(0, 1, num=101):
            t, r, p = (
                values[i + 1] * d + values[i] * (1 - d)
                for values in (thresholds, rec, prec)
            )
            f = f1(p, r)
            if f > best[3]:
                best = (t, r, p, f)

    return best"""))
same("rg-me-lerp", (MET, """            t = thresholds[i] * d + thresholds[i - 1] * (1 - d)
            r = rec[i] * d + rec[i - 1] * (1 - d)
            p = prec[i] * d + prec[i - 1] * (1 - d)
            f = f1(p, r)
            if f > best_f1:
""", """            t = _lerp(thresholds[i - 1], thresholds[i], d)
            r = _lerp(rec[i - 1], rec[i], d)
            p = _lerp(prec[i - 1], prec[i], d)
            f = f1(p, r)
            if best_f1 < f:
"""), (MET, "def interpolated_max_scores(\n", """def _lerp(a, b, d):
    return (1 - d) * a + d * b


def interpolated_max_scores(
"""))
same("rg-me-ratio", (MET, "    return count_r / (sum_r + (sum_r == 0))", "    return _ratio(count_r, sum_r)"), (MET, "    return count_p / (sum_p + (sum_p == 0))", "    return _ratio(count_p, sum_p)"), (MET, "def recall(\n", """def _ratio(count, total):
    empty = total == 0
    return count / (total + empty)


def recall(
"""))
CSB = "pyEdgeEval/helpers/convert_sbd.py"
bug("rd-dim", "C39", (CSB, """            categories = categories.squeeze()
        if categories.ndim == 0:""", """            categories = categories.squeeze()
        if categories.ndim == 1:"""))
bug("rd-dim2", "C39", (CSB, "            present_categories = np.array([present_categories])", "            present_categories = np.array([[present_categories]])"))
bug("rd-dim3", "C39", (CSB, """        if categories.ndim > 1:
            categories = categories.squeeze()
""", """        if categories.ndim > 2:
            categories = categories.squeeze()
"""))
bug("rd-dim4", "C39", (CSB, """            categories = categories.squeeze()
        if categories.ndim == 0:
            # single value, or no instances
            categories = categories[None]

        assert len(segmentation.shape) == 2
        h, w""", """            categories = categories.squeeze()
        if categories.ndim == 0:
            # single value, or no instances
            categories = categories[None]

        assert len(segmentation.shape) == 3
        h, w"""))
same("rd-flat", (CSB, """        if categories.ndim > 1:
            categories = categories.squeeze()
        if categories.ndim == 0:
            # single value, or no instances
            categories = categories[None]
""", """        categories = categories.reshape(-1)
"""))
same("rd-ravel", (CSB, """        if categories.ndim > 1:
            categories = categories.squeeze()
        if categories.ndim == 0:
            # single value, or no instances
            categories = categories[None]
""", """        categories = categories.ravel()
"""))
same("rd-atleast", (CSB, """        if isinstance(categories, int):
            categories = np.array([categories])
        if categories.ndim == 0:
            # single value, or no instances
            categories = categories[None]
""", """        categories = np.atleast_1d(categories)
"""))
same("rd-help", (CSB, """        if isinstance(categories, int):
            categories = np.array([categories])
        if categories.ndim == 0:
            # single value, or no instances
            categories = categories[None]
""", """        categories = _one_row(categories)
"""), (CSB, """        if categories.ndim > 1:
            categories = categories.squeeze()
        if categories.ndim == 0:
            # single value, or no instances
            categories = categories[None]
""", """        categories = _one_row(categories)
"""), (CSB, "def load_sbd_gt_cls_mat(", '''def _one_row(values):
    if isinstance(values, int):
        return np.array([values])
    if values.ndim > 1:
        values = np.squeeze(values)
    return values if values.ndim else values[np.newaxis]


def load_sbd_gt_cls_mat('''))
bug("re-names", "C11", ("pyEdgeEval/evaluators/sbd.py", 'RAW_EDGE_SUFFIX = "_reanno_raw_edge.png"', 'RAW_EDGE_SUFFIX = "_raw_edge.png"'))
bug("cl-slice", "C13", ("pyEdgeEval/helpers/evaluate_sbd.py", "thresholds = thresholds[1:-1]", "thresholds = thresholds[2:-1]"))
bug("rg-cm-rows2", "C03", (MCM, _loop, """    best_stats = []
    sample_results = []
    n_thresh = len(thresholds)
    for sample_data, counts in zip(samples, sample_metrics):
        rec, prec, f1 = compute_rec_prec_f1(*counts)
        best_ndx = np.argmax(f1)
        best_stats.append([c[best_ndx] for c in counts])
        sample_results.append(
            dict(
                name=sample_data["name"],
                threshold=thresholds[best_ndx],
                recall=rec[best_ndx],
                precision=prec[best_ndx],
                f1=f1[best_ndx],
            )
        )
    count_r_overall, sum_r_overall, count_p_overall, sum_p_overall = (
        sum(column) for column in zip(*sample_metrics[:-1])
    )
    count_r_best, sum_r_best, count_p_best, sum_p_best = (
        sum(column) for column in zip(*best_stats)
    )

"""))
same("rg-cm-cols", (MCM, _loop, """    count_r_overall, sum_r_overall, count_p_overall, sum_p_overall = [
        np.sum(column, axis=0) for column in zip(*sample_metrics)
    ]
    count_r_best = sum_r_best = count_p_best = sum_p_best = 0
    sample_results = []
    n_thresh = len(thresholds)
    for sample_data, (count_r, sum_r, count_p, sum_p) in zip(samples, sample_metrics):
        rec, prec, f1 = compute_rec_prec_f1(count_r, sum_r, count_p, sum_p)
        best_ndx = np.argmax(f1)
        count_r_best += count_r[best_ndx]
        sum_r_best += sum_r[best_ndx]
        count_p_best += count_p[best_ndx]
        sum_p_best += sum_p[best_ndx]
        sample_results.append(
            dict(
                name=sample_data["name"],
                threshold=thresholds[best_ndx],
                recall=rec[best_ndx],
                precision=prec[best_ndx],
                f1=f1[best_ndx],
            )
        )

"""))
EVB = "pyEdgeEval/evaluators/bsds.py"
bug("bl-name", "C33", (EVB, "sample_names.append(osp.join(self.split, name))", "sample_names.append(osp.join(self.split, dir))"))
bug("bl-ext", "C33", (EVB, 'if ext.lower() == ".mat":', 'if ext == ".mat":'))
bug("bl-ext2", "C33", (EVB, 'if ext.lower() == ".mat":', 'if ext.lower() != ".db":'))
bug("bl-dir", "C33", (EVB, "files = os.listdir(osp.join(self.GT_root, self.split))", 'files = os.listdir(osp.join(self.GT_root, "val"))'))
bug("bl-stem", "C33", (EVB, "                name, ext = osp.splitext(filename)", '                name, ext = osp.splitext(filename)\n                name = name.split(".")[0]'))
same("bl-comp", (EVB, """            for fn in files:
                dir, filename = osp.split(fn)
                name, ext = osp.splitext(filename)
                if ext.lower() == ".mat":
                    # split/12345.mat
                    sample_names.append(osp.join(self.split, name))
""", """            stems = [osp.splitext(osp.basename(fn)) for fn in files]
            sample_names = [
                osp.join(self.split, name)
                for name, ext in stems
                if ext.lower() == ".mat"
            ]
"""))
same("bl-cont", (EVB, """                if ext.lower() == ".mat":
                    # split/12345.mat
                    sample_names.append(osp.join(self.split, name))
""", """                if not filename.lower().endswith(".mat"):
                    continue
                sample_names.append(f"{self.split}/{name}")
"""))
same("bl-sort", (EVB, "            for fn in files:\n", "            for fn in sorted(files):\n"))
same("rg-cm-stack", (MCM, _loop, """    count_r_overall, sum_r_overall, count_p_overall, sum_p_overall = np.array(
        sample_metrics
    ).sum(axis=0)
    count_r_best = sum_r_best = count_p_best = sum_p_best = 0
    sample_results = []
    n_thresh = len(thresholds)
    for sample_data, (count_r, sum_r, count_p, sum_p) in zip(samples, sample_metrics):
        rec, prec, f1 = compute_rec_prec_f1(count_r, sum_r, count_p, sum_p)
        best_ndx = np.argmax(f1)
        count_r_best += count_r[best_ndx]
        sum_r_best += sum_r[best_ndx]
        count_p_best += count_p[best_ndx]
        sum_p_best += sum_p[best_ndx]
        sample_results.append(
            dict(
                name=sample_data["name"],
                threshold=thresholds[best_ndx],
                recall=rec[best_ndx],
                precision=prec[best_ndx],
                f1=f1[best_ndx],
            )
        )

"""))
ESB = "pyEdgeEval/helpers/evaluate_sbd.py"
bug("cl-zero", "C13", (ESB, "0 < cat < 21", "0 <= cat < 21"))
bug("cl-gtdir", "C13", (ESB, "        thin=apply_thinning,\n        gt_dir=gt_dir,\n    )", "        thin=apply_thinning,\n    )"))
same("rg-me-asarray", (MET, "    return count_p / (sum_p + (sum_p == 0))", "    total = np.asarray(sum_p, dtype=float)\n    return count_p / (total + (total == 0))"))
bug("rg-me-int", "C07", (MET, "    return count_p / (sum_p + (sum_p == 0))", "    total = np.asarray(sum_p, dtype=float)\n    return count_p // (total + (total == 0))"))
SSB = "scripts/convert_datasets/sbd.py"
SCY = "scripts/convert_datasets/cityscapes.py"
same("sr-run", (SSB, """        if nproc > 1:
            print(">>> ", split, " raw")
            track_parallel_progress(raw_routine, sample_names, nproc)
            print(">>> ", split, " thin")
            track_parallel_progress(thin_routine, sample_names, nproc)
        else:
            print(">>> ", split, " raw")
            track_progress(raw_routine, sample_names)
            print(">>> ", split, " thin")
            track_progress(thin_routine, sample_names)
""", """        for kind, func in (("raw", raw_routine), ("thin", thin_routine)):
            print(">>> ", split, f" {kind}")
            _run(func, sample_names, nproc)
"""), (SSB, """        if nproc > 1:
            print(">>> reanno raw")
            track_parallel_progress(raw_reanno_routine, raw_list, nproc)
            print(">>> reanno thin")
            track_parallel_progress(thin_reanno_routine, thin_list, nproc)
        else:
            print(">>> reanno raw")
            track_progress(raw_reanno_routine, raw_list)
            print(">>> reanno thin")
            track_progress(thin_reanno_routine, thin_list)
""", """        print(">>> reanno raw")
        _run(raw_reanno_routine, raw_list, nproc)
        print(">>> reanno thin")
        _run(thin_reanno_routine, thin_list, nproc)
"""), (SSB, "if __name__ == \"__main__\":\n", """def _run(func, tasks, nproc):
    if nproc > 1:
        track_parallel_progress(func, tasks, nproc)
    else:
        track_progress(func, tasks)


if __name__ == "__main__":
"""))
same("sr-common", (SSB, """    thin_routine = partial(
        routine,
        data_dir=data_dir,
        save_dir=save_dir,
        radius=radius,
        thin=True,
        edge_suffix=thin_edge_suffix,
        isedge_suffix=thin_isedge_suffix,
        label_suffix=label_suffix,
        train_suffix=train_suffix,
        inst_suffix=inst_suffix,
        save_segs=False,  # already saved by raw
    )
""", """    thin_routine = partial(
        raw_routine,
        thin=True,
        edge_suffix=thin_edge_suffix,
        isedge_suffix=thin_isedge_suffix,
        save_segs=False,  # already saved by raw
    )
"""))
same("sr-dict", (SSB, """    thin_routine = partial(
        routine,
        data_dir=data_dir,
        save_dir=save_dir,
        radius=radius,
        thin=True,
        edge_suffix=thin_edge_suffix,
        isedge_suffix=thin_isedge_suffix,
        label_suffix=label_suffix,
        train_suffix=train_suffix,
        inst_suffix=inst_suffix,
        save_segs=False,  # already saved by raw
    )
""", """    common = dict(
        data_dir=data_dir,
        save_dir=save_dir,
        radius=radius,
        label_suffix=label_suffix,
        train_suffix=train_suffix,
        inst_suffix=inst_suffix,
    )
    thin_routine = partial(
        routine,
        thin=True,
        save_segs=False,
        edge_suffix=thin_edge_suffix,
        isedge_suffix=thin_isedge_suffix,
        **common,
    )
"""))
same("sr-join", (SSB, """            f.writelines(s + "\\n" for s in raw_list)""", """            f.write("".join(f"{s}\\n" for s in raw_list))"""))
same("sr-print", (SSB, """            f.writelines(s + "\\n" for s in raw_list)""", """            for name in raw_list:
                print(name, file=f)"""))
same("sr-loopw", (SSB, """            f.writelines(s + "\\n" for s in raw_list)""", """            for name in raw_list:
                f.write(name)
                f.write("\\n")"""))
same("sr-lambda", (SSB, """    raw_routine = partial(
        routine,
        data_dir=data_dir,
        save_dir=save_dir,
        radius=radius,
        thin=False,
""", """    raw_routine = partial(
        routine, data_dir=data_dir, save_dir=save_dir, radius=radius, thin=False,
"""))
same("sr-city", (SCY, """    if not args.test_mode:
        convert_cityscapes(
            proc_dirname=args.out_dir,
            cityscapes_root=args.root,
            inst_sensitive=(not args.nonIS),
            ext=args.ext,
            save_half_val=(not args.only_full_scale),
            train_radius=2,
            raw_val_radius=2,
            thin_val_radius=1,
            nproc=args.nproc,
        )
    else:
        print(">>> testing!")
        test_against_matlab(
            proc_dirname=args.out_dir,
            matlab_proc_dirname="gtProc",
            cityscapes_root=args.root,
            inst_sensitive=(not args.nonIS),
            ext=args.ext,
            nproc=args.nproc,
        )
""", """    common = dict(
        proc_dirname=args.out_dir,
        cityscapes_root=args.root,
        inst_sensitive=not args.nonIS,
        ext=args.ext,
        nproc=args.nproc,
    )
    if args.test_mode:
        print(">>> testing!")
        test_against_matlab(matlab_proc_dirname="gtProc", **common)
        return

    radii = {"train_radius": 2, "raw_val_radius": 2, "thin_val_radius": 1}
    convert_cityscapes(save_half_val=not args.only_full_scale, **radii, **common)
"""))
bug("sr-b-common", "C11,C30", (SSB, """    thin_routine = partial(
        routine,
        data_dir=data_dir,
        save_dir=save_dir,
        radius=radius,
        thin=True,
        edge_suffix=thin_edge_suffix,
        isedge_suffix=thin_isedge_suffix,
        label_suffix=label_suffix,
        train_suffix=train_suffix,
        inst_suffix=inst_suffix,
        save_segs=False,  # already saved by raw
    )
""", """    thin_routine = partial(
        raw_routine,
        edge_suffix=thin_edge_suffix,
        isedge_suffix=thin_isedge_suffix,
        save_segs=False,  # already saved by raw
    )
"""))
bug("sr-b-list", "C33", (SSB, """            f.writelines(s + "\\n" for s in raw_list)""", """            f.writelines(s + "\\n" for s in raw_list[1:])"""))
bug("sr-b-list2", "C33", (SSB, """            f.writelines(s + "\\n" for s in raw_list)""", """            f.writelines(s for s in raw_list)"""))
CCY = "pyEdgeEval/helpers/convert_cityscapes.py"
same("sc-half", (CCY, """                convert_half = partial(
                    convert_routine_wrapper,
                    label_files=label_files,
                    nproc=nproc,
                    inst_sensitive=inst_sensitive,
                    proc_dir=proc_dirname,
                    label_suffix=labelIds_suffix,
                    inst_suffix=instIds_suffix,
                    scale=0.5,
                )
""", """                convert_half = partial(convert_full, scale=0.5)
"""))
same("sc-names", (CCY, """    if inst_sensitive:
        print(">>> Instance Sensitive")
        raw_edge_name = "raw_isedge"
        thin_edge_name = "thin_isedge"

        train_edge_suffix = f"_gtProc_isedge.{ext}"
        raw_edge_suffix = f"_gtProc_{raw_edge_name}.{ext}"
        thin_edge_suffix = f"_gtProc_{thin_edge_name}.{ext}"
        half_raw_edge_suffix = f"_gtProc_half_{raw_edge_name}.{ext}"
        half_thin_edge_suffix = f"_gtProc_half_{thin_edge_name}.{ext}"
    else:
        print(">> non-Instance Sensitive")
        raw_edge_name = "raw_edge"
        thin_edge_name = "thin_edge"

        train_edge_suffix = f"_gtProc_edge.{ext}"
        raw_edge_suffix = f"_gtProc_{raw_edge_name}.{ext}"
        thin_edge_suffix = f"_gtProc_{thin_edge_name}.{ext}"
        half_raw_edge_suffix = f"_gtProc_half_{raw_edge_name}.{ext}"
        half_thin_edge_suffix = f"_gtProc_half_{thin_edge_name}.{ext}"
""", """    kind = "isedge" if inst_sensitive else "edge"
    print(">>> Instance Sensitive" if inst_sensitive else ">> non-Instance Sensitive")
    train_edge_suffix = "_gtProc_{}.{}".format(kind, ext)
    raw_edge_suffix, thin_edge_suffix, half_raw_edge_suffix, half_thin_edge_suffix = [
        f"_gtProc_{scale}{t}_{kind}.{ext}"
        for scale in ("", "half_")
        for t in ("raw", "thin")
    ]
"""))
same("sc-split", (CCY, """    poly_files = []
    for split in split_names:
        if split == "test":
            continue
        gt_split_dir = osp.join(gt_dir, split)
        for poly in scandir(gt_split_dir, polygons_suffix, recursive=True):
            poly_file = osp.join(gt_split_dir, poly)
            poly_files.append(poly_file)
""", """    poly_files = []
    for split in ("train", "val"):
        poly_files += _find(osp.join(gt_dir, split), polygons_suffix)
"""), (CCY, """        label_files = []
        gt_split_dir = osp.join(gt_dir, split)
        for label in scandir(gt_split_dir, labelIds_suffix, recursive=True):
            label_file = osp.join(gt_split_dir, label)
            label_files.append(label_file)
""", """        label_files = _find(osp.join(gt_dir, split), labelIds_suffix)
"""), (CCY, "def convert_cityscapes(\n", '''def _find(root, suffix):
    return [osp.join(root, name) for name in scandir(root, suffix, recursive=True)]


def convert_cityscapes(
'''))
same("sc-runs", (CCY, """            # raw
            print(f">>> generating raw {split}")
            convert_full(edge_suffix=raw_edge_suffix, radius=raw_val_radius)

            # thin
            print(f">>> generating thin {split}")
            convert_full(
                edge_suffix=thin_edge_suffix, radius=thin_val_radius, thin=True
            )
""", """            for suffix, radius, thin in (
                (raw_edge_suffix, raw_val_radius, False),
                (thin_edge_suffix, thin_val_radius, True),
            ):
                print(f">>> generating {'thin' if thin else 'raw'} {split}")
                convert_full(edge_suffix=suffix, radius=radius, thin=thin)
"""))
same("sc-resize", (CCY, """        height, width = int(h * scale + 0.5), int(w * scale + 0.5)
        num_classes = len(CITYSCAPES_label2trainId)
        new_edge_trainIds = np.zeros(
            (num_classes, height, width), dtype=np.uint8
        )
        for cat in range(num_classes):
            new_edge_trainIds[cat, :, :] = resize_np(
                edge_trainIds[cat, :, :], scale=scale
            )
        edge_trainIds = new_edge_trainIds
""", """        edge_trainIds = np.stack(
            [
                resize_np(edge_trainIds[cat], scale=scale)
                for cat in range(len(CITYSCAPES_label2trainId))
            ]
        )
"""))
same("sc-save", (CCY, """    if save_format == ".png":
        edges = rgb_multilabel_encoding(edge_trainIds)
        edges_img = Image.fromarray(edges)
        edges_img.save(proc_file)
    elif save_format == ".tif":
        edges = default_multilabel_encoding(edge_trainIds)
        edges = edges.view(np.int32)
        edges_img = Image.fromarray(edges)
        edges_img.save(proc_file)
    elif save_format == ".bin":
        edges = default_multilabel_encoding(edge_trainIds)
        edges.astype(np.uint32).tofile(proc_file)
    else:
        raise ValueError()
""", """    _save_edges(edge_trainIds, proc_file, save_format)
"""), (CCY, "def convert_routine_wrapper(", '''def _save_edges(edges, path, save_format):
    if save_format == ".png":
        Image.fromarray(rgb_multilabel_encoding(edges)).save(path)
        return
    encoded = default_multilabel_encoding(edges)
    if save_format == ".tif":
        Image.fromarray(encoded.view(np.int32)).save(path)
    elif save_format == ".bin":
        encoded.astype(np.uint32).tofile(path)
    else:
        raise ValueError()


def convert_routine_wrapper('''))
same("sc-mask", (CCY, """        edge_ids = loop_instance_mask2edge(
            mask=m,
            inst_mask=inst_mask,
            inst_labelIds=CITYSCAPES_inst_labelIds,
            ignore_indices=ignore_indices,
            radius=radius,
            thin=thin,
        )
    else:
        edge_ids = loop_mask2edge(
            mask=m,
            ignore_indices=ignore_indices,
            radius=radius,
            thin=thin,
        )
""", """        to_edges = partial(
            loop_instance_mask2edge,
            inst_mask=inst_mask,
            inst_labelIds=CITYSCAPES_inst_labelIds,
        )
    else:
        to_edges = loop_mask2edge
    edge_ids = to_edges(
        mask=m, ignore_indices=ignore_indices, radius=radius, thin=thin
    )
"""))
PGB = "pyEdgeEval/utils/progressbar.py"
_total = '''    if isinstance(tasks, tuple):
        assert len(tasks) == 2
        assert isinstance(tasks[0], Iterable)
        assert isinstance(tasks[1], int)
        task_num = tasks[1]
        tasks = tasks[0]
    elif isinstance(tasks, Iterable):
        task_num = len(tasks)
    else:
        raise TypeError(
            '"tasks" must be an iterable object or a (iterator, int) tuple'
        )
'''
_help = '''def _total(tasks):
    if isinstance(tasks, tuple):
        items, task_num = tasks
        assert isinstance(items, Iterable) and isinstance(task_num, int)
        return items, task_num
    if not isinstance(tasks, Iterable):
        raise TypeError(
            '"tasks" must be an iterable object or a (iterator, int) tuple'
        )
    return tasks, len(tasks)


def track_progress('''
same("pb-total", (PGB, _total + "    if not no_bar:\n        prog_bar = ProgressBar(task_num, bar_width, file=file)\n    results = []\n    for task",
     "    tasks, task_num = _total(tasks)\n    if not no_bar:\n        prog_bar = ProgressBar(task_num, bar_width, file=file)\n    results = []\n    for task"),
    (PGB, _total + "    pool = init", "    tasks, task_num = _total(tasks)\n    pool = init"), (PGB, "def track_progress(", _help))
same("pb-with", (PGB, """    results = []
    if keep_order:
        gen = pool.imap(func, tasks, chunksize)
    else:
        gen = pool.imap_unordered(func, tasks, chunksize)
    for result in gen:
""", """    run = pool.imap if keep_order else pool.imap_unordered
    results = []
    for result in run(func, tasks, chunksize):
"""))
same("pb-count", (PGB, """        if skip_first:
            if len(results) < nproc * chunksize:
                continue
            elif len(results) == nproc * chunksize:
                if not no_bar:
                    prog_bar.start()
                continue
        if not no_bar:
            prog_bar.update()
""", """        warm_up = nproc * chunksize if skip_first else 0
        if no_bar or len(results) < warm_up:
            continue
        if skip_first and len(results) == warm_up:
            prog_bar.start()
        else:
            prog_bar.update()
"""))
same("pb-gen", (PGB, """    results = []
    for task in tasks:
        results.append(func(task, **kwargs))
        if not no_bar:
            prog_bar.update()
    if not no_bar:
        prog_bar.file.write("\\n")
    return results
""", """    results = []
    for task in tasks:
        result = func(task, **kwargs)
        results += [result]
        if not no_bar:
            prog_bar.update()
    if not no_bar:
        prog_bar.file.write("\\n")
    return results
"""))
same("pb-try", (PGB, """    for result in gen:
        results.append(result)
        if skip_first:
            if len(results) < nproc * chunksize:
                continue
            elif len(results) == nproc * chunksize:
                if not no_bar:
                    prog_bar.start()
                continue
        if not no_bar:
            prog_bar.update()
    if not no_bar:
        prog_bar.file.write("\\n")
    pool.close()
    pool.join()
    return results
""", """    try:
        for result in gen:
            results.append(result)
            if skip_first:
                if len(results) < nproc * chunksize:
                    continue
                elif len(results) == nproc * chunksize:
                    if not no_bar:
                        prog_bar.start()
                    continue
            if not no_bar:
                prog_bar.update()
        if not no_bar:
            prog_bar.file.write("\\n")
    finally:
        pool.close()
        pool.join()
    return results
"""))
same("pb-ctx", (PGB, """    pool.close()
    pool.join()
    return results
""", """    pool.terminate()
    pool.join()
    return results
"""))
bug("pb-skip", "C06", (PGB, """    for result in gen:
        results.append(result)
        if skip_first:""", """    for n, result in enumerate(gen):
        if n >= nproc * chunksize or not skip_first or not results:
            results.append(result)
        if skip_first:"""))
bug("pb-map", "C06", (PGB, "        gen = pool.imap(func, tasks, chunksize)", "        gen = (r for k in range(nproc) for r in pool.imap(func, tasks[k::nproc], chunksize))"))
