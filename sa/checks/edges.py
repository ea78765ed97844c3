"""C09, C16, C17, C31, C32: label maps, edges and their encodings."""
import os
from ..core import *
from .. import terms as X
from .. import norms, layout
from ..terms import mk, const, num, NONE, TRUE, FALSE

ML = "pyEdgeEval.common.multi_label."
U = "pyEdgeEval.utils."
ET = "pyEdgeEval.edge_tools."
EN = norms.chain(norms.no_zeros, norms.five_digit_ids)
OPQ = ["pyEdgeEval.utils.mask2bdry", "pyEdgeEval.preprocess.binary_thin"]


def spec(c):
    c.driver("spec.edges", open(os.path.join(VERIF, "sa", "specs", "edges.py")).read())


def where(c, path):
    r = c.ix.need(path)
    return (c.ix.modules[r[3]].rel, r[2].lineno)


# ------------------------------------------------------------------ C09
def coefficients(t, E, n):
    """{class: coefficient}, [(class, coefficient, operand bits)] of an encoded plane."""
    out, ops = {}, []

    def plane(x):
        """class index of an operand and the width it is computed in"""
        if x.op in ("asarray", "copied"):
            return plane(x.a[0])
        if x.op == "astype":
            p = plane(x.a[0])
            w = layout.WIDTH.get(layout.dtype_name(x.a[1]))
            if p is None or w is None:
                return None
            return p[0], w
        if x.op == "index" and x.a[0] is E and x.a[1].op == "num":
            return int(x.a[1].a[0]) % n, 8
        if x.op == "index" and x.a[0] is E and x.a[1].op == "tuple" and x.a[1].a and x.a[1].a[0].op == "num" and all(
                y.op == "ellipsis" or y.op == "slice" and all(z.op == "none" for z in y.a) for y in x.a[1].a[1:]):
            return int(x.a[1].a[0].a[0]) % n, 8
        if x.op == "index" and x.a[0].op in ("astype", "asarray", "copied"):
            inner = x.a[0]
            p = plane(mk("index", inner.a[0], x.a[1]))
            if p is None:
                return None
            w = layout.WIDTH.get(layout.dtype_name(inner.a[1])) if inner.op == "astype" else p[1]
            return (p[0], w) if w else None
        return None

    def go(x, scale, width):
        if x.op == "zeros":
            return True
        if x.op in ("asarray", "copied"):
            return go(x.a[0], scale, width)
        if x.op == "bor":
            return all(go(y, scale, width) for y in x.a)
        p = plane(x)
        if p is not None:
            out[p[0]] = out.get(p[0], 0) + scale
            ops.append((p[0], scale, p[1] if width is None else max(p[1], width)))
            return True
        if x.op == "astype":
            w = layout.WIDTH.get(layout.dtype_name(x.a[1]))
            if w is None:
                return False
            k0 = dict(out)
            if not go(x.a[0], scale, width):
                return False
            for k in out:
                if out[k] != k0.get(k) and out[k] >= 2 ** w:
                    ops.append((k, out[k], w))
            return True
        if x.op == "poly":
            for m, cf in X.poly_of(x).items():
                if m == ():
                    out["no class"] = out.get("no class", 0) + scale * cf
                    continue
                if len(m) != 1 or m[0][1] != 1:
                    return False
                if not go(m[0][0], scale * cf, width):
                    return False
            return True
        return False

    return (out, ops) if go(t, 1, None) else None


def check_plane(c, name, t, E, n, want, wh, rule):
    r = coefficients(t, E, n)
    if r is None:
        c.undecided(name, X.pretty(t)[:300])
        return
    got, ops = r
    got = {k: v for k, v in got.items() if v != 0}
    if "no class" in got:
        f, l = term_loc(t) or wh
        c.violate(name, f, l, rule, f"{name}: a pixel of no class is encoded as {got['no class']}", key=name)
        return
    if got != want:
        bad = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        f, l = term_loc(t) or wh
        c.violate(name, f, l, rule,
                  f"{name}: class {bad[0]} has weight {got.get(bad[0], 0)}, required {want.get(bad[0], 0)}",
                  key=name)
        return
    over = [(k, s, w) for k, s, w in ops if s >= 2 ** w]
    if over:
        f, l = term_loc(t) or wh
        k, s, w = over[0]
        c.violate(name, f, l, "no class may be lost to integer overflow",
                  f"{name}: class {k} is weighted {s} in {w}-bit arithmetic", key=name)
        return
    c.ok(name)


def encoders(c):
    E = S("edges", "array")
    rule = "class k is bit k of the encoded pixel"
    big = (1, 2, 8, 9, 19, 20, 24, 31, 32) if c.tier != "thorough" else range(1, 33)
    for p in (ML + "default_multilabel_encoding", U + "edge_onehot2multilabel"):
        for n in big:
            X.SHAPES[E] = mk("tuple", num(n), S("h", "int"), S("w", "int"))
            g = c.run(p, [E], unroll=64)
            name = f"{p.rsplit('.', 1)[-1]}: {n} classes"
            if g.raises:
                f, l = where(c, p)
                c.violate(name, f, l, rule, f"{name} are refused")
                continue
            check_plane(c, name, g.value, E, n, {k: 2 ** k for k in range(n)}, where(c, p), rule)
    p = ML + "rgb_multilabel_encoding"
    full = mk("slice", NONE, NONE, NONE)
    for n in (1, 7, 8, 9, 15, 16, 17, 19, 20, 23, 24) if c.tier != "thorough" else range(1, 25):
        X.SHAPES[E] = mk("tuple", num(n), S("h", "int"), S("w", "int"))
        g = c.run(p, [E], unroll=64)
        if g.raises:
            f, l = where(c, p)
            c.violate(f"rgb: {n} classes", f, l, rule, f"{n} classes are refused")
            continue
        for ch in range(3):
            t = channel(g.value, ch)
            lo = (2 - ch) * 8
            check_plane(c, f"rgb_multilabel_encoding: {n} classes, channel {ch}", t, E, n,
                        {k: 2 ** (k - lo) for k in range(lo, min(lo + 8, n))}, where(c, p), rule)
    X.SHAPES[E] = mk("tuple", num(25), S("h", "int"), S("w", "int"))
    g = c.run(p, [E], unroll=64)
    f, l = where(c, p)
    if not g.raises and has_unknown(g):
        c.undecided("rgb_multilabel_encoding: 25 classes refused", "not interpreted")
    else:
        c.require(g.raises, "rgb_multilabel_encoding: 25 classes refused", f, l,
                  "more classes than bits are refused", "25 classes are accepted")
    X.SHAPES.clear()


def has_unknown(g):
    return contains(g.value, lambda x: x.op in UNKNOWN_OPS)


def channel(v, ch):
    full = mk("slice", NONE, NONE, NONE)
    if v.op in ("asarray", "copied"):
        return channel(v.a[0], ch)
    if v.op == "astype":
        return X.astype(channel(v.a[0], ch), v.a[1])
    if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] in ("numpy.stack", "numpy.dstack"):
        ps = v.a[1].a[0]
        ax = None
        if v.a[0].a[0] == "numpy.stack":
            ax = v.a[1].a[1] if len(v.a[1].a) > 1 else None
            for i in range(0, len(v.a[2].a), 2):
                ax = v.a[2].a[i + 1]
        if ps.op in ("list", "tuple") and len(ps.a) == 3 and (
                v.a[0].a[0] == "numpy.dstack" or ax is not None and ax.op == "num" and ax.a[0] in (2, -1)):
            return ps.a[ch]
    for i in (mk("tuple", full, full, num(ch)), mk("tuple", full, full, num(ch - 3)),
              mk("tuple", mk("ellipsis"), num(ch)), mk("tuple", mk("ellipsis"), num(ch - 3))):
        x = X.index(v, i)
        if x.op != "index":
            return x
    if v.op == "transpose" and v.a[1].op == "tuple" and [y.a[0] for y in v.a[1].a] == [1, 2, 0]:
        w = v.a[0]
        while w.op in ("asarray", "copied"):
            w = w.a[0]
        x = X.index(w, num(ch))
        if x.op != "index":
            return x
    return mk("index", v, num(ch))


def decoders(c):
    rule = "class k is read from bit k, rows and columns stay"
    img = S("edge", "image")
    rgb = lambda x: layout.Lay(("h", "w", 3), {(i,): ("byte", i) for i in range(3)}, 8) if x is img else None
    word = lambda x: layout.Lay(("h", "w"), {(): ("word",)}, 32) if x is img else None

    def flat(x):
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "numpy.fromfile":
            dt = [x.a[2].a[i + 1] for i in range(0, len(x.a[2].a), 2) if x.a[2].a[i].a[0] == "dtype"] if all(
                isinstance(q, T) for q in x.a[2].a) else None
            for i in range(0, len(x.a[2].a), 2):
                k = x.a[2].a[i]
                k = k.a[0] if isinstance(k, T) else k
                if k == "dtype":
                    dt = x.a[2].a[i + 1]
            if isinstance(dt, list):
                dt = dt[0] if dt else None
            if dt is None and len(x.a[1].a) > 1:
                dt = x.a[1].a[1]
            if dt is not None and layout.WIDTH.get(layout.dtype_name(dt)) == 32:
                return layout.Lay(("flat",), {(): ("word",)}, 32)
        return None
    cases = [("decode_png", lambda n: [img, num(n)], rgb, 24, lambda k: ("bit", 2 - k // 8, k % 8)),
             ("decode_tif", lambda n: [img, num(n)], word, 32, lambda k: ("bit", k // 8, k % 8)),
             ("binary_multilabel_decoding",
              lambda n: [S("path", "str"), S("h", "int"), S("w", "int"), num(n)], flat, 32,
              lambda k: ("bit", k // 8, k % 8))]
    for fn, args, leaf, cap, want in cases:
        p = ML + fn
        f, l = where(c, p)
        for n in range(1, cap + 1) if c.tier == "thorough" else sorted({1, 8, 9, 16, 17, 19, 20, 24, cap}):
            name = f"{fn}: {n} classes"
            if n > cap:
                continue
            g = c.run(p, args(n))
            try:
                v = layout.evaluate(layout.platform(g.value), leaf)
            except (layout.Unknown, KeyError, IndexError, AttributeError, ValueError) as e:
                c.undecided(name, f"{type(e).__name__}: {e}")
                continue
            w = {(k,): want(k) for k in range(n)}
            bad = None
            if v.axes != (n, "h", "w"):
                bad = f"axes are {v.axes}, required ({n}, h, w)"
            elif v.data != w:
                k = next(k for k in range(n) if v.data.get((k,)) != w[(k,)])
                bad = f"class {k} is read from {v.data.get((k,))}, required {w[(k,)]}"
            c.require(bad is None, name, *(term_loc(g.value) or (f, l)), rule, bad)


def C09(c):
    encoders(c)
    decoders(c)
    files(c)
    return ("bit weight of every class in every encoded plane (with operand widths) and bit position "
            "read for every class by every decoder, per class count; file format dispatch")


def files(c):
    """The converter stores the encoding that belongs to the file extension."""
    p = "pyEdgeEval.helpers.convert_cityscapes.convert_label_to_semantic_edges"
    f, l = where(c, p)
    opq = ["pyEdgeEval.edge_tools.loop_instance_mask2edge", "pyEdgeEval.edge_tools.loop_mask2edge",
           ML + "rgb_multilabel_encoding", ML + "default_multilabel_encoding",
           "pyEdgeEval.utils.edge_label2trainId", "pyEdgeEval.utils.mask2onehot"]
    rule = "the stored encoding must fit the file format"
    for ext, enc in ((".png", "rgb_multilabel_encoding"), (".tif", "default_multilabel_encoding"),
                     (".bin", "default_multilabel_encoding")):
        g = c.run(p, [const("d/gtFine/x_gtFine_labelIds.png")],
                  dict(inst_sensitive=FALSE, edge_suffix=const("_e" + ext)), opaque=opq)
        called = [e for e in g.events if e.kind == "call" and str(e.name).endswith("_encoding")
                  and e.guard is not FALSE]
        names = sorted({str(e.name).rsplit(".", 1)[-1] for e in called})
        if not names:
            c.undecided(f"encoding of {ext} files", "no encoder call found")
            continue
        c.require(names == [enc], f"encoding of {ext} files", f, called[0].line, rule,
                  f"{ext} files are written with {names}, required {enc}")


# ------------------------------------------------------------------ C16
def C16(c):
    spec(c)
    base = dict(mask=S("mask", "array"), ignore_indices=S("ign", "list"), radius=S("radius", "int"),
                use_cv2=S("cv2", "bool"), quality=S("q", "int"))
    inst = dict(inst_mask=S("inst", "array"), inst_labelIds=S("ids", "list"))
    rule = "every class channel is the boundary of its own mask (and of its instances)"
    for thin in (TRUE, FALSE):
        for io in (TRUE, FALSE):
            cfg = f"thin={thin is TRUE} internal={io is TRUE}"
            kw = dict(base, thin=thin, internal_only=io)
            for fn, ref, more in (("loop_mask2edge", "edges", {}),
                                  ("loop_instance_mask2edge", "instance_edges", inst)):
                g = c.run(ET + fn, [], dict(kw, **more), opaque=OPQ)
                w = c.run("spec.edges." + ref, [], dict(kw, **more), opaque=OPQ)
                c.compare(f"{fn} [{cfg}]", g.value, w.value, rule, where(c, ET + fn), norm=EN)
    n = S("nproc", "int")
    for fn, ref, more in (("mp_mask2edge", "edges", {}), ("mp_instance_mask2edge", "instance_edges", inst)):
        g = c.run(ET + fn, [], dict(base, thin=FALSE, nproc=n, **more), opaque=OPQ)
        w = c.run("spec.edges." + ref, [], dict(base, thin=FALSE, internal_only=FALSE, **more), opaque=OPQ)
        c.compare(f"{fn} (any worker count)", g.value, w.value, rule, where(c, ET + fn), norm=EN)
        late = [e for _, _, e, _ in g.I.pending]
        c.require(not late, f"{fn}: every label is finished before the edges are read", late[0].file if late else "",
                  late[0].line if late else 0, rule, "the pool's tasks are started and not waited for")
        g = c.run(ET + fn, [], dict(base, thin=TRUE, nproc=n, **more), opaque=OPQ)
        if not g.raises:
            w = c.run("spec.edges." + ref, [], dict(base, thin=TRUE, internal_only=FALSE, **more), opaque=OPQ)
            c.compare(f"{fn} (thin)", g.value, w.value, rule, where(c, ET + fn), norm=EN)
        else:
            c.ok(f"{fn} (thin) is refused")
    transforms(c, base, inst, rule)
    return ("edge stacks of the looped and the pooled generators and of the transforms built on them, as terms, against "
            "the reference")


def transforms(c, base, inst, rule):
    """mask2edge and the callable transforms."""
    c.driver("spec.transforms", TRANSFORMS)
    n = S("nproc", "int")
    for run in ("loop", "mp"):
        for IS in (FALSE, TRUE):
            kw = dict(base, **(inst if IS is TRUE else {}), **({} if run == "loop" else {"nproc": n}))
            fn = f"mask2edge({run!r}, instance_sensitive={IS is TRUE})"
            g = c.run("spec.transforms.dispatch", [], dict(kw, run_type=const(run), instance_sensitive=IS), opaque=OPQ)
            w = c.run("spec.edges." + ("instance_edges" if IS is TRUE else "edges"), [],
                      dict({k: v for k, v in kw.items() if k != "nproc"}, thin=FALSE, internal_only=FALSE), opaque=OPQ)
            c.compare(fn, g.value, w.value, rule, where(c, ET + "mask2edge"), norm=EN)
    m = S("mask", "array")
    settings = {k: v for k, v in base.items() if k != "mask"}
    L, D = S("labels", "list"), S("table", "dict")
    N = norms.chain(EN, norms.label_stacks)
    for IS in (False, True):
        cls = ET + ("InstanceMask2Edge" if IS else "Mask2Edge")
        for table, other in ((NONE, ""), (D, ""), (NONE, "_among_others")):
            kw = dict(settings, mask=m, labelIds=L, label2trainId=table, **(inst if IS else {}))
            p = "instance" if IS else "plain"
            g = c.run(f"spec.transforms.{p}{other}", [], kw, opaque=OPQ)
            w = c.run(f"spec.transforms.{p}_wanted", [], kw, opaque=OPQ)
            for k, what in ((0, "edges"), (1, "mask")):
                name = f"{cls.rsplit('.', 1)[1]}{'' if table is NONE else ' (renumbered)'}" \
                       f"{', with other transforms in use' if other else ''}: {what}"
                if g.value is None or g.value.op != "tuple":
                    c.undecided(name, "the result is not a dictionary with an edge and a mask")
                    continue
                c.compare(name, g.value.a[k], w.value.a[k], rule, where(c, cls), norm=N)


TRANSFORMS = """
from pyEdgeEval.edge_tools import Mask2Edge, InstanceMask2Edge, mask2edge
from spec.edges import edges, instance_edges, onehot, edge_remap, mask_remap


def dispatch(**kwargs):
    return mask2edge(**kwargs)


def plain(mask, labelIds, ignore_indices, label2trainId, radius, use_cv2, quality):
    r = Mask2Edge(labelIds=labelIds, ignore_indices=ignore_indices, label2trainId=label2trainId, radius=radius,
                  use_cv2=use_cv2, quality=quality)(mask)
    return r["edge"], r["mask"]


def instance(mask, inst_mask, labelIds, inst_labelIds, ignore_indices, label2trainId, radius, use_cv2, quality):
    r = InstanceMask2Edge(labelIds=labelIds, inst_labelIds=inst_labelIds, ignore_indices=ignore_indices,
                          label2trainId=label2trainId, radius=radius, use_cv2=use_cv2, quality=quality)(mask, inst_mask)
    return r["edge"], r["mask"]


OTHER = [21, 22, 23]


def others():
    Mask2Edge(labelIds=OTHER, ignore_indices=[9], radius=77, use_cv2=False, quality=5)
    InstanceMask2Edge(labelIds=OTHER, inst_labelIds=[23], ignore_indices=[9], radius=77, use_cv2=False, quality=5)


def plain_among_others(mask, labelIds, ignore_indices, label2trainId, radius, use_cv2, quality):
    others()
    t = Mask2Edge(labelIds=labelIds, ignore_indices=ignore_indices, label2trainId=label2trainId, radius=radius,
                  use_cv2=use_cv2, quality=quality)
    others()
    r = t(mask)
    return r["edge"], r["mask"]


def instance_among_others(mask, inst_mask, labelIds, inst_labelIds, ignore_indices, label2trainId, radius, use_cv2,
                          quality):
    others()
    t = InstanceMask2Edge(labelIds=labelIds, inst_labelIds=inst_labelIds, ignore_indices=ignore_indices,
                          label2trainId=label2trainId, radius=radius, use_cv2=use_cv2, quality=quality)
    others()
    r = t(mask, inst_mask)
    return r["edge"], r["mask"]


def finish(edge, mask, label2trainId):
    if label2trainId:
        return edge_remap(edge, label2trainId), mask_remap(mask, label2trainId)
    return edge, mask


def plain_wanted(mask, labelIds, ignore_indices, label2trainId, radius, use_cv2, quality):
    return finish(edges(onehot(mask, labelIds), ignore_indices, radius, False, False, use_cv2, quality), mask,
                  label2trainId)


def instance_wanted(mask, inst_mask, labelIds, inst_labelIds, ignore_indices, label2trainId, radius, use_cv2, quality):
    return finish(instance_edges(onehot(mask, labelIds), inst_mask, inst_labelIds, ignore_indices, radius, False, False,
                                 use_cv2, quality), mask, label2trainId)
"""


def entries(c):
    """The generators and transforms with arbitrary arguments: name -> what to interpret."""
    spec(c)
    c.driver("spec.transforms", TRANSFORMS)
    base = dict(mask=S("mask", "array"), ignore_indices=S("ign", "list"), radius=S("radius", "int"),
                use_cv2=S("cv2", "bool"), quality=S("q", "int"))
    inst = dict(inst_mask=S("inst", "array"), inst_labelIds=S("ids", "list"))
    for IS in (FALSE, TRUE):
        for run in ("loop", "mp"):
            kw = dict(base, **(inst if IS is TRUE else {}), **({} if run == "loop" else {"nproc": S("nproc", "int")}))
            yield f"mask2edge({run!r}, instance_sensitive={IS is TRUE})", lambda kw=kw, run=run, IS=IS: c.run(
                "spec.transforms.dispatch", [], dict(kw, run_type=const(run), instance_sensitive=IS))
        p = "instance" if IS is TRUE else "plain"
        for table in (NONE, S("table", "dict")):
            kw = dict(base, **(inst if IS is TRUE else {}), labelIds=S("labels", "list"), label2trainId=table)
            yield f"{p} transform{'' if table is NONE else ', renumbered'}", lambda kw=kw, p=p: c.run(
                "spec.transforms." + p, [], kw)


# ------------------------------------------------------------------ C17
def C17(c):
    spec(c)
    m, g, r, q = S("mask", "array"), S("ign", "array"), S("radius", "int"), S("q", "int")
    N = norms.distances(m, g, q)
    rule = "boundary pixels are those within the radius of the other side of the mask border"
    p = U + "mask2bdry"
    for cv in (TRUE, FALSE):
        for io in (FALSE, TRUE):
            a = c.run(p, [], dict(mask=m, ignore_mask=g, radius=r, use_cv2=cv, quality=q, internal_only=io))
            w = c.run("spec.edges." + ("internal_band" if io is TRUE else "band"), [m, g, r])
            c.compare(f"mask2bdry [{'cv2' if cv is TRUE else 'scipy'}{', internal' if io is TRUE else ''}]",
                      a.value, w.value, rule, where(c, p), norm=N,
                      allowed=("cv2.distanceTransform", "scipy.ndimage.distance_transform_edt"))
    return "boundary terms of both back ends, two-sided and internal, against the band definition"


# ------------------------------------------------------------------ C31
def C31(c):
    spec(c)
    rule = "every listed label keeps its own channel or index"
    a, L, D = S("m", "array"), S("labels", "list"), S("d", "dict")
    for fn, ref, args in (("mask2onehot", "onehot", [a, L]), ("edge_multilabel2binary", "collapse", [a]),
                          ("edge_label2trainId", "edge_remap", [a, D]),
                          ("mask_label2trainId", "mask_remap", [a, D])):
        g = c.run(U + fn, args)
        w = c.run("spec.edges." + ref, args)
        c.compare(fn, g.value, w.value, rule, where(c, U + fn), norm=norms.chain(EN, norms.label_stacks))
    return "terms of the label remapping functions against the reference"


# ------------------------------------------------------------------ C32
def C32(c):
    spec(c)
    p = ML + "convert_inst_seg"
    a = [S("seg", "array"), S("cats", "list"), S("present", "list")]
    g = c.run(p, a)
    w = c.run("spec.edges.instance_ids", a)
    c.compare("identifiers written by conversion", g.value, w.value,
              "class number * 1000 + position within the class", where(c, p), norm=EN)
    rule = "edge generation reads the class and instance that conversion wrote"
    base = dict(mask=S("mask", "array"), ignore_indices=S("ign", "list"), radius=S("radius", "int"),
                use_cv2=S("cv2", "bool"), quality=S("q", "int"), thin=FALSE, inst_mask=S("inst", "array"),
                inst_labelIds=S("ids", "list"))
    for fn, kw in (("loop_instance_mask2edge", {}), ("mp_instance_mask2edge", dict(nproc=S("nproc", "int")))):
        g = c.run(ET + fn, [], dict(base, **kw), opaque=OPQ)
        w = c.run("spec.edges.instance_edges", [], dict(base, internal_only=FALSE), opaque=OPQ)
        c.compare(f"identifiers read by {fn}", g.value, w.value, rule, where(c, ET + fn), norm=EN)
    return "terms of the identifier writer and of both readers against the reference"
