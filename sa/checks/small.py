"""C27, C34, C21, C22: thresholds, suppression pipeline, native entry points, result files."""
import os
from ..core import *
from .. import terms as X
from .. import norms
from ..terms import mk, const, num, NONE, TRUE, FALSE, ZERO, ONE


def where(c, path):
    r = c.ix.need(path)
    return (c.ix.modules[r[3]].rel, r[2].lineno)


# ------------------------------------------------------------------ rational functions
def frac(t):
    """(numerator, denominator) polynomials of an arithmetic term."""
    if t.op in ("poly", "mono"):
        n, d = {(): 0}, {(): 1}
        for m, c in X.poly_of(t).items():
            tn, td = {(): c}, {(): 1}
            for f, e in m:
                fn, fd = frac(f) if f.op in ("poly", "mono") else ({((f, 1),): 1}, {(): 1})
                if f.op == "num":
                    fn = {(): f.a[0]}
                if e < 0:
                    fn, fd, e = fd, fn, -e
                for _ in range(int(e)):
                    tn, td = pmul(tn, fn), pmul(td, fd)
            n, d = padd(pmul(n, td), pmul(tn, d)), pmul(d, td)
        return n, d
    if t.op == "num":
        return {(): t.a[0]}, {(): 1}
    return {((t, 1),): 1}, {(): 1}


def padd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v != 0}


def pmul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            e = {}
            for f, x in list(k1) + list(k2):
                e[f] = e.get(f, 0) + x
            k = tuple(sorted(((f, x) for f, x in e.items() if x), key=lambda p: p[0].key))
            r[k] = r.get(k, 0) + v1 * v2
    return {k: v for k, v in r.items() if v != 0}


def same_ratio(a, b):
    (n1, d1), (n2, d2) = frac(a), frac(b)
    return pmul(n1, d2) == pmul(n2, d1)


def spaced(t, i):
    """(number, element i) of an evenly spaced or listed sequence of numbers."""
    r = norms.ext_call(t, "numpy.linspace")
    if r and len(r[0]) >= 2 and set(r[1]) <= {"num", "endpoint"}:
        a, b = r[0][:2]
        n = r[0][2] if len(r[0]) > 2 else r[1].get("num", num(50))
        ep = r[0][3] if len(r[0]) > 3 else r[1].get("endpoint", TRUE)
        if ep not in (TRUE, FALSE):
            return None
        k = X.sub(n, ONE) if ep is TRUE else n
        return n, X.add(a, X.mul(i, X.div(X.sub(b, a), k)))
    r = norms.ext_call(t, "numpy.arange")
    if r and r[0] and set(r[1]) <= {"dtype"}:
        a = r[0]
        lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
        if st is ONE:
            return X.sub(hi, lo), X.add(lo, i)
    if t.op == "range":
        return t.a[0], X.add(t.a[1], X.mul(t.a[2], i))
    if t.op in ("astype", "asarray", "copied"):
        return spaced(t.a[0], i)
    r = norms.ext_call(t, "numpy.array", "numpy.asarray", "builtins.list")
    if r and r[0]:
        return spaced(r[0][0], i)
    if t.op == "maplist" and t.a[2] is TRUE:
        return t.a[0], X.instantiate(t.a[1], i)
    if t.op == "index" and t.a[1].op == "slice":
        s = spaced(t.a[0], i)
        lo, hi, st = t.a[1].a
        if s and st.op == "none" and (lo.op == "none" or lo.op == "num" and lo.a[0] >= 0) and (
                hi.op == "none" or hi.op == "num" and hi.a[0] < 0):
            l = lo.a[0] if lo.op == "num" else 0
            h = -hi.a[0] if hi.op == "num" else 0
            s2 = spaced(t.a[0], X.add(i, num(l)))
            return X.sub(s[0], num(l + h)), s2[1]
        return None
    if t.op == "poly":
        p = X.poly_of(t)
        parts, n = [], None
        for m, cf in p.items():
            seq = [fe for fe in m if spaced(fe[0], i) is not None]
            if not seq:
                parts.append(X.from_poly({m: cf}))
                continue
            if len(seq) != 1 or seq[0][1] != 1:
                return None
            s = spaced(seq[0][0], i)
            if n is not None and not same_ratio(n, s[0]):
                return None
            n = s[0]
            rest = tuple(fe for fe in m if fe is not seq[0])
            parts.append(X.mul(X.from_poly({rest: cf}) if rest else num(cf), s[1]))
        if n is None:
            return None
        return n, X.add(*parts)
    return None


def plain(t):
    while True:
        if t.op in ("asarray", "copied"):
            t = t.a[0]
            continue
        if t.op == "astype" and t.a[1].op == "ext" and t.a[1].a[0] in ("builtins.float", "numpy.float64"):
            t = t.a[0]
            continue
        r = norms.ext_call(t, "numpy.array", "numpy.asarray", "numpy.ravel", "builtins.list", "numpy.copy")
        if r and r[0] and set(r[1]) <= {"dtype", "copy"}:
            t = r[0][0]
            continue
        return t


def C27(c):
    p = "pyEdgeEval.common.utils.check_thresholds"
    wh = where(c, p)
    n = S("n", "int")
    rule = "an integer n denotes k/(n+1) for k = 1..n"
    g = c.run(p, [n])
    i = mk("iv", 990001)
    s = spaced(g.value, i)
    want = X.div(X.add(i, ONE), X.add(n, ONE))
    if g.raises:
        c.violate("number of thresholds", *wh, rule, "an integer is refused")
    elif s is None:
        bad = not_understood(g.value, set())
        c.undecided("number of thresholds", f"{bad}: {X.pretty(g.value)[:300]}")
    else:
        c.require(same_ratio(s[0], n), "number of thresholds", *wh, rule,
                  f"an integer n yields {X.pretty(s[0])} thresholds")
        c.require(same_ratio(s[1], want), "values of the thresholds", *wh, rule,
                  f"threshold k+1 is {X.pretty(X.abstract(s[1], 990001))}, required (k+1)/(n+1)")
    for name, arg, want, rule in (
            ("one float", S("t", "float"), mk("list", S("t", "float")), "a float denotes that one threshold"),
            ("a list", S("l", "list"), S("l", "list"), "a list denotes exactly its values in order"),
            ("an array", S("a", "array"), S("a", "array"), "an array denotes exactly its values in order")):
        X.SHAPES.clear()
        if name == "an array":
            X.SHAPES[arg] = mk("tuple", S("n", "int"))
        g = c.run(p, [arg])
        if g.raises:
            c.violate(name, *wh, rule, f"{name} is refused")
            continue
        v = plain(g.value)
        if v is want:
            c.ok(name)
        elif norms.ext_call(v, "numpy.atleast_1d") and plain(v.a[1].a[0]) in (want, arg):
            c.ok(name)
        else:
            c.compare(name, v, want, rule, wh, allowed={"numpy.sort", "numpy.unique", "builtins.sorted"})
    for name, arg, sh in (("a string", S("x", "str"), None), ("a tuple", S("x", "tuple"), None),
                          ("a dictionary", S("x", "dict"), None), ("None", NONE, None),
                          ("a 0-dimensional array", S("a0", "array"), ()),
                          ("a 2-dimensional array", S("a2", "array"), ("h", "w")),
                          ("a 3-dimensional array", S("a3", "array"), ("h", "w", "d"))):
        X.SHAPES.clear()
        if sh is not None:
            X.SHAPES[arg] = mk("tuple", *[S(q, "int") for q in sh])
        g = c.run(p, [arg])
        X.SHAPES.clear()
        if not g.raises and contains(g.value, lambda x: x.op in UNKNOWN_OPS):
            c.undecided(f"{name} refused", X.pretty(g.value)[:200])
        else:
            c.require(g.raises, f"{name} refused", *wh, "anything but int, float, list and 1-D array is refused",
                      f"{name} is accepted")
    # scoring and metrics use the same, checked thresholds
    X.SHAPES.clear()
    T = S("thresholds")
    q = c.q(p)
    for m in ("binary_label", "multi_label"):
        path = f"pyEdgeEval.common.{m}.calculate_metrics"
        g = c.run(path, [], dict(eval_single=S("eval_single"), thresholds=T, samples=S("samples", "list"),
                                 nproc=S("nproc", "int")), opaque=[p])
        checked = None
        for x in X.subterms(g.value):
            if x.op == "call" and x.a[0].op == "fn" and x.a[0].a[0] == q:
                checked = x

        bare = []
        seen = set()

        def scan(t):
            if t in seen:
                return
            seen.add(t)
            if t is checked:
                return
            for a in t.a:
                if a is T:
                    bare.append(t)
                elif isinstance(a, T_):
                    scan(a)
        scan(g.value)
        rule = "scoring and metrics use the same checked thresholds"
        if checked is None:
            c.undecided(f"{m} pipeline: thresholds", "the threshold specification is not checked through check_thresholds")
        elif bare:
            f, l = term_loc(bare[0]) or where(c, path)
            c.violate(f"{m} pipeline: thresholds", f, l, rule,
                      f"the unchecked specification is used in {X.pretty(bare[0])[:300]}")
        else:
            c.ok(f"{m} pipeline: thresholds")
        sc = [x for x in X.subterms(g.value) if x.op in ("call", "ucall") and contains(x.a[0], lambda y: y is S("eval_single"))]
        c.samples.append(f"scoring calls in {m}: {len(sc)}")
    return "threshold specifications, kind by kind, and their single use in both metric pipelines"


T_ = X.T


# ------------------------------------------------------------------ C21
def native_run(c, p, mk_args, sa, sb):
    a, b = S("img0", "array"), S("img1", "array")
    X.SHAPES.clear()
    X.SHAPES[a], X.SHAPES[b] = sa, sb
    g = c.run(p, mk_args(a, b))
    ev = [e for e in g.events if e.kind == "native" and e.guard is not FALSE]
    return g, ev


def arg_count(c, p):
    fn = c.ix.need(p)[2]
    return len(fn.args.args)


def peel(t):
    """The array a value is a (converted) copy of."""
    while True:
        if t.op in ("astype", "asarray", "copied"):
            t = t.a[0]
            continue
        r = norms.ext_call(t, "numpy.array", "numpy.asarray", "numpy.asfortranarray", "numpy.ascontiguousarray",
                           "numpy.copy", "numpy.require")
        if r and r[0]:
            t = r[0][0]
            continue
        return t


def C21(c):
    h, w, h2, w2, d = (S(x, "int") for x in ("h", "w", "h2", "w2", "d"))
    tup = lambda *x: mk("tuple", *x)
    md, oc = S("max_dist", "float"), S("outlier_cost", "float")
    r_, s_, m_ = S("r", "int"), S("s", "int"), S("m", "float")
    P1, P2 = "pyEdgeEval._lib.correspond_pixels", "pyEdgeEval._lib.nms"
    for p, fn, mka, first, rest in (
            (P1, "matchEdgeMaps", lambda a, b: [a, b, md, oc], 0, None),
            (P2, "benms", lambda a, b: [a, b, r_, s_, m_], 1, [r_, s_, m_])):
        n = arg_count(c, p)
        wh = where(c, p)
        short = p.rsplit(".", 1)[-1]
        args = lambda a, b: mka(a, b)[:n]
        g, ev = native_run(c, p, args, tup(h, w), tup(h2, w2))
        X.SHAPES.clear()
        ev = [e for e in ev if e.name == fn]
        if not ev:
            c.undecided(f"{short}: native call", f"no call of {fn} found")
            continue
        for e in ev:
            A = list(e.args["args"].a)
            loc = (e.file, e.line) if getattr(e, "file", None) else wh
            rule = "native code is reached only by two 2-D maps of the same shape"
            for what, t, u in (("heights", h, h2), ("widths", w, w2)):
                eq = X.cmp_("==", t, u)
                left = X.subst(e.guard, lambda x: FALSE if x is eq else None)
                if left is FALSE:
                    c.ok(f"{short}: different {what} refused")
                elif contains(left, lambda x: x is u or x.op in UNKNOWN_OPS):
                    c.undecided(f"{short}: different {what} refused", X.pretty(left)[:300])
                else:
                    c.violate(f"{short}: different {what} refused", *loc, rule,
                              f"{fn} is called although the {what} of the maps may differ: {X.pretty(e.guard)[:300]}")
            same = lambda t: X.subst(t, lambda x: h if x is h2 else w if x is w2 else None)
            A = [same(x) for x in A]
            rule = "native code receives copies of the arrays with the size it is told, rows and columns in order"
            for k, src in ((first, "img0"), (first + 1, "img1")):
                x = A[k]
                nm = f"{short}: array {k - first + 1} handed to {fn}"
                want = mk("cmatrix", h, w, mk("laid", const("F"), tup(h, w), S(src, "array")))
                if x.op == "cmatrix" and x.a[2].op == "laid":
                    x = mk("cmatrix", x.a[0], x.a[1], mk("laid", x.a[2].a[0], x.a[2].a[1], peel(x.a[2].a[2])))
                c.compare(nm, x, want, rule, loc)
            if p == P1:
                diag = mk("call", mk("ext", "numpy.sqrt"), tup(X.add(X.mul(h, h), X.mul(w, w))), mk("kw"))
                c.compare(f"{short}: tolerance in pixels", X.subst(A[2], nofloat), X.mul(md, diag),
                          "the relative tolerance is multiplied by the image diagonal", loc)
                outs = (4, 5)
            else:
                for k, t in enumerate(rest):
                    c.compare(f"{short}: parameter {t.a[0]}", X.subst(A[3 + k], nofloat), t,
                              "the caller's parameters are passed on", loc)
                outs = (0,)
            # results come back in order, laid out as the native code leaves them
            v = g.value
            got = [X.index(v, num(i)) for i in range(2)] if p == P1 else [v]
            for i, (o, k) in enumerate(zip(got, outs)):
                o = same(o)
                while o.op in ("astype", "asarray", "copied"):
                    o = o.a[0]
                nm = f"{short}: result {i + 1}"
                o2 = mk("unlaid", o.a[0], o.a[1], mk("nativeout", o.a[2].a[0], o.a[2].a[1])) if (
                    o.op == "unlaid" and o.a[2].op == "nativeout") else o
                c.compare(nm, o2, mk("unlaid", const("F"), tup(h, w), mk("nativeout", fn, k)),
                          "each result is the map the native code computed for that input", loc)
        # ranks
        for nm, sh in (("1-dimensional", (h,)), ("3-dimensional", (h, w, d))):
            g2, ev2 = native_run(c, p, args, tup(*sh), tup(*sh))
            X.SHAPES.clear()
            ev2 = [e for e in ev2 if e.name == fn]
            c.require(not ev2 or all(e.guard is FALSE for e in ev2), f"{short}: {nm} maps refused", *wh,
                      "native code is reached only by 2-D maps", f"{fn} is reached by {nm} maps")
        # the caller's arrays are never written
        bad = None
        for e in g.events:
            if e.kind == "setitem" and e.guard is not FALSE:
                t = e.args.get("target")
                t = g.I.deep(g.st, t) if t.op == "ref" and t not in g.st.heap else t
                if t in (S("img0", "array"), S("img1", "array")) or t.op == "asarray" and t.a[0] in (
                        S("img0", "array"), S("img1", "array")):
                    bad = e
        c.require(bad is None, f"{short}: the caller's arrays are not written",
                  *(((bad.file, bad.line) if bad is not None and getattr(bad, "file", None) else wh)),
                  "the caller's arrays are never written", f"{short} writes into its argument")
    return "guards and arguments of the native calls, the copies and memory layout of the arrays, the results"


def nofloat(x):
    r = norms.ext_call(x, "builtins.float", "builtins.int")
    if r and len(r[0]) == 1:
        return r[0][0]
    if x.op in ("int", "float") and len(x.a) == 1:
        return x.a[0]
    return None


# ------------------------------------------------------------------ C34
def exists(c, path):
    try:
        return c.ix.need(path)
    except AnalysisError:
        return None


def weights(t):
    """Constant filter rows, whatever way they are spelled."""
    if t.op != "poly" and not norms.ext_call(t, "numpy.array", "numpy.asarray"):
        return None
    p = X.poly_of(t)
    if len(p) != 1:
        return None
    (m, cf), = p.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    r = norms.ext_call(m[0][0], "numpy.array", "numpy.asarray")
    if not r or len(r[0]) != 1:
        return None

    def go(x):
        if x.op in ("list", "tuple"):
            v = [go(y) for y in x.a]
            return None if None in v else mk("list", *v)
        if x.op == "num":
            return num(float("%.12g" % (x.a[0] * cf)))
        return None
    return go(r[0][0]) and mk("weights", go(r[0][0]))


NMS_VOC = {"numpy.gradient", "scipy.signal.convolve2d", "numpy.pad", "numpy.sign", "numpy.arctan", "numpy.mod",
           "numpy.arctan2", "numpy.float64", "numpy.pi", "numpy.fmod", "numpy.remainder", "builtins.range"}


def C34(c):
    c.driver("spec.nms", open(os.path.join(VERIF, "sa", "specs", "nms.py")).read())
    img, r_, s_, m_ = S("img", "array"), S("r", "int"), S("s", "int"), S("m", "float")
    P = "pyEdgeEval.preprocess.fast_nms"
    wh = where(c, P)
    nm = lambda t: X.subst(t, weights)
    for half in (FALSE, TRUE):
        for u8 in (FALSE, TRUE):
            a = [img, r_, s_, m_, half, u8]
            g = c.run(P, a, opaque=["pyEdgeEval._lib.nms"])
            w = c.run("spec.nms.fast_nms", a, opaque=["pyEdgeEval._lib.nms"])
            c.compare(f"suppression of one image (half precision {half is TRUE}, 8-bit result {u8 is TRUE})",
                      g.value, w.value, "strengths scaled to 0..1 once, smoothed with radius 1, the normal taken from "
                      "the second derivatives of a radius-4 smoothing, no division by zero, the caller's parameters",
                      wh, NMS_VOC, norm=nm)
    Q = "pyEdgeEval.preprocess.nms.toolbox.conv_tri"
    if exists(c, Q):
        wq = where(c, Q)
        for r in (0, 1, 2, 3, 4, 5, 8, 16):
            for s in (1, 2, 3, 5):
                if r == 0 and s > 1:
                    continue
                g, w = (c.run(q, [img, num(r), num(s)], unroll=64) for q in (Q, "spec.nms.conv_tri"))
                c.compare(f"triangle smoothing, radius {r}, step {s}", g.value, w.value,
                          "a triangle filter of total weight 1 with symmetric padding of its radius", wq, NMS_VOC,
                          norm=nm)
                for x in X.subterms(nm(g.value)):
                    if x.op == "weights":
                        v = [y.a[0] for y in x.a[0].a[0].a]
                        c.require(len(v) == 2 * max(r, 1) + 1 and abs(sum(v) - 1) < 1e-9 and v == v[::-1],
                                  f"weights of radius {r}, step {s}", *wq, "the total weight is 1",
                                  f"filter of radius {r} is {v}")
        g, w = (c.run(q, [img, r_, s_]) for q in (Q, "spec.nms.conv_tri"))
        c.compare("triangle smoothing, any radius and step", g.value, w.value,
                  "a triangle filter of total weight 1 with symmetric padding of its radius", wq, NMS_VOC, norm=nm, soft=True)
    Q = "pyEdgeEval.preprocess.nms.toolbox.grad2"
    if exists(c, Q):
        g, w = (c.run(q, [img]) for q in (Q, "spec.nms.grad2"))
        c.compare("gradients", g.value, w.value, "the derivative along x comes first", where(c, Q), NMS_VOC)
    return "the whole suppression pipeline for every flag, the smoothing filter for radii up to 16 and in general"


# ------------------------------------------------------------------ C22
class Malformed(Exception):
    pass


def fields(parts):
    """Values between blanks of one line."""
    out, glued = [], False
    for x in parts:
        if x.op == "str":
            if x.a[0].strip(" \t") != "":
                raise Malformed(f"text {x.a[0]!r} between the values of a row")
            glued = False
            continue
        if glued:
            raise Malformed(f"{X.pretty(out[-1])} and {X.pretty(x)} are written without a blank between them")
        if x.op == "fmt":
            x = x.a[0]
        elif x.op == "tostr":
            x = x.a[0]
        while norms.ext_call(x, "builtins.float", "numpy.float64", "builtins.str") and len(x.a[1].a) == 1 or x.op == "tostr":
            x = x.a[0] if x.op == "tostr" else x.a[1].a[0]
        out.append(x)
        glued = True
    return out


def rows(content):
    """[(number of rows or None for one row, fields of row iv)] or None."""
    parts = list(content.a) if content.op == "cat" else [content]
    i = mk("iv", 990002)
    out, cur = [], []

    def flush():
        if cur:
            out.append((None, fields(cur)))
            cur.clear()
    for x in parts:
        if x.op == "strjoin":
            sep, seq = x.a
            if seq.op != "maplist" or sep.op != "str" or cur:
                return None
            if seq.a[2] is not TRUE:
                f = X.instantiate(seq.a[2], i)
                if contains(f, lambda x: x.op in UNKNOWN_OPS or x.op == "ext"):
                    return None
                raise Malformed(f"a row is written only if {X.pretty(f)}")
            e = X.instantiate(seq.a[1], i)
            ps = list(e.a) if e.op == "cat" else [e]
            if sep.a[0] == "" and ps and ps[-1].op == "str" and ps[-1].a[0].endswith("\n"):
                ps[-1] = const(ps[-1].a[0][:-1])
            elif sep.a[0] == "" and ps and all(p.op in ("str", "fmt", "tostr") for p in ps) and not any(
                    p.op == "str" and "\n" in p.a[0] for p in ps):
                raise Malformed("the rows are written without line ends")
            elif sep.a[0] != "\n":
                return None
            if any(p.op == "str" and "\n" in p.a[0] for p in ps):
                return None
            out.append((seq.a[0], fields(ps)))
            continue
        if x.op == "str" and "\n" in x.a[0]:
            bits = x.a[0].split("\n")
            for k, b in enumerate(bits):
                if b:
                    cur.append(const(b))
                if k < len(bits) - 1:
                    flush()
            continue
        cur.append(x)
    flush()
    return out


OVERALL = ("ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP")
RULE22 = {
    "img": "one row per image: name, threshold, recall, precision, F",
    "thr": "one row per threshold: threshold, recall, precision, F",
    "all": "ODS threshold/recall/precision/F, OIS recall/precision/F, AUC, AP",
}


def written(c, g, path, what, src, wh, label, cond=None):
    """Obligations on the file whose path ends with path."""
    i = mk("iv", 990002)
    rule = RULE22[what]
    hits = [(r, f) for r, f in g.I.files.items() if f[0] is path]
    if not hits:
        others = [f[0] for f in g.I.files.values()]
        opaque = [e for e in g.events if e.kind in ("ext", "method") and contains(e.args.get("args", ZERO), lambda x: x is path)
                  and not str(e.name).startswith(("os.path.", "print"))]
        if opaque or any(contains(o, lambda x: x.op in UNKNOWN_OPS or x.op == "call") for o in others):
            c.undecided(label, f"no recognised write of {X.pretty(path)}")
        else:
            c.violate(label, *wh, rule, f"{X.pretty(path)} is never written; written: {', '.join(map(X.pretty, others)) or 'nothing'}")
        return
    r, (p, mode, guard) = hits[-1]
    content = g.I.deep(g.st, r, keep_files=False)
    if cond is not None and content.op == "ite" and content.a[0] is cond:
        content = content.a[1]
    try:
        rw, mal = rows(content), None
    except Malformed as e:
        rw, mal = None, str(e)
    ev = [e for e in g.events if e.kind == "write" and e.name.a[0] is path]
    loc = (ev[-1].file, ev[-1].line) if ev else wh
    if mal:
        c.violate(label, *loc, rule, f"{X.pretty(path)}: {mal}", key=label)
        return
    if rw is None:
        c.undecided(label, f"content not understood: {X.pretty(content)[:400]}")
        return
    if what == "all":
        want = [(None, [index(src, const(k)) for k in OVERALL])]
    else:
        el = index(src, i)
        keys = ["threshold", "recall", "precision", "f1"]
        want = [(X.length(src), [index(el, const(k)) for k in (["name"] if what == "img" else []) + keys])]
    if len(rw) == 1 and rw[0][0] is want[0][0] and all(x is y for x, y in zip(rw[0][1], want[0][1])) and len(rw[0][1]) == len(want[0][1]):
        c.ok(label)
        return
    bad = None
    for n, f in rw:
        for x in (f or []) + ([n] if n is not None else []):
            bad = bad or not_understood(x, set())
    if bad:
        c.undecided(label, f"{bad}: {X.pretty(content)[:400]}")
        return
    show = "; ".join((f"{X.pretty(n)} x " if n is not None else "") + ", ".join(X.pretty(x) for x in f) for n, f in rw)
    c.violate(label, *loc, rule, f"the rows of {X.pretty(path)} are: {show}; required "
              + ", ".join(X.pretty(x) for x in want[0][1]), key=label)


def sources(t):
    """Attributes naming the files an array of numbers was loaded from."""
    out = set()
    if t.op in ("index", "astype", "asarray", "copied", "attr"):
        return sources(t.a[0])
    r = norms.ext_call(t, "numpy.loadtxt", "numpy.genfromtxt")
    if r and r[0]:
        f = r[0][0]
        return {f.a[1]} if f.op == "attr" and isinstance(f.a[1], str) else {f.a[1].a[0]} if f.op == "attr" and f.a[1].op == "str" else {"?"}
    if t.op in ("list", "tuple", "ite", "concat"):
        for x in t.a:
            out |= sources(x)
        return out
    if t.op == "store":
        return sources(t.a[0]) | sources(t.a[2])
    if t.op == "call":
        for x in t.a[1].a:
            out |= sources(x)
    if t.op == "maplist":
        return sources(t.a[1])
    if t.op == "tab":
        return sources(t.a[0]) | sources(t.a[3])
    return out


def column(t):
    """(array, column) of a value picked from a table by a constant column number."""
    while t.op in ("astype", "asarray", "copied"):
        t = t.a[0]
    if t.op == "index":
        i = t.a[1]
        if i.op == "tuple" and len(i.a) == 2 and i.a[1].op == "num":
            return t.a[0], int(i.a[1].a[0])
        if i.op == "num" and t.a[0].op == "attr" and t.a[0].a[1] in ("T", const("T")):
            return t.a[0].a[0], int(i.a[0])
        if i.op == "num" and t.a[0].op == "index" and t.a[0].a[1].op == "num" and t.a[0].a[0].op == "store":
            return t.a[0], int(i.a[0])
        r = norms.ext_call(t.a[0], "numpy.loadtxt")
        if r and i.op == "num" and r[1].get("unpack") is TRUE:
            return t.a[0], int(i.a[0])
        if i.op == "num":
            r = norms.ext_call(t.a[0], "numpy.transpose")
            if r:
                return r[0][0], int(i.a[0])
        return column(t.a[0])
    return None


def stored_column(t, k):
    """What column k of a table filled column-wise holds: ("file", column) or ("value", term)."""
    while t.op in ("astype", "asarray", "copied") or t.op == "index":
        t = t.a[0]
    if t.op == "store" and t.a[1].op == "tuple" and len(t.a[1].a) == 2:
        j = t.a[1].a[1]
        if j.op == "slice" and j.a[2].op == "none" and all(x.op in ("num", "none") for x in j.a[:2]):
            lo = int(j.a[0].a[0]) if j.a[0].op == "num" else 0
            hi = int(j.a[1].a[0]) if j.a[1].op == "num" else 10 ** 6
            if lo <= k < hi:
                return sources(t.a[2]), k - lo
            return stored_column(t.a[0], k)
        if j.op == "num":
            return ("value", t.a[2]) if int(j.a[0]) == k else stored_column(t.a[0], k)
        return None
    if norms.ext_call(t, "numpy.loadtxt"):
        return sources(t), k
    return None


def C22(c):
    sm, tm, om, root, cat_ = S("sample_metrics", "list"), S("threshold_metrics", "list"), S("overall_metric", "dict"), S("root", "str"), S("category", "int")
    B, M = "pyEdgeEval.common.binary_label.", "pyEdgeEval.common.multi_label."
    for name, p, args, dirs in (
            ("binary pipeline", B + "save_results", [root, sm, tm, om], [root]),
            ("multi-label pipeline", M + "save_category_results", [root, cat_, sm, tm, om],
             [root, X.cat(const("class_"), zf(cat_))])):
        X.SHAPES.clear()
        g = c.run(p, args)
        wh = where(c, p)
        for what, f, src, t in (("img", "eval_bdry_img.txt", sm, "per-image file"), ("thr", "eval_bdry_thr.txt", tm, "per-threshold file"),
                                ("all", "eval_bdry.txt", om, "overall file")):
            path = X.join(*dirs, const(f))
            written(c, g, path, what, src, wh, f"{name}: {t}", X.truth(src))
    g = c.run(M + "save_overall_metric", [root, om, const("overall_eval_bdry.txt")])
    written(c, g, X.join(root, const("overall_eval_bdry.txt")), "all", om, where(c, M + "save_overall_metric"),
            "multi-label pipeline: mean over categories")
    # readers
    for name, p in (("plots", "pyEdgeEval.visualization.pr_curve.plot_pr_curve"),
                    ("plots with human performance", "pyEdgeEval.common.binary_label.visualize.plot_pr_curve")):
        a = mk("list", S("a0"), S("a1"))
        wh = where(c, p)
        g = c.run(p, [a])
        curves = 0
        for e in g.events:
            if e.kind != "method" or e.name != "plot" or len(e.args["args"].a) < 2:
                continue
            x, y = e.args["args"].a[:2]
            if not sources(x) and not sources(y):
                continue
            curves += 1
            for ax, t, k in (("x axis", x, 1), ("y axis", y, 2)):
                lab = f"{name}: {ax} of curve {curves}"
                cc = column(t)
                if cc is None or "?" in sources(t):
                    c.undecided(lab, X.pretty(t)[:300])
                    continue
                c.require(sources(cc[0]) == {"threshold_results"} and cc[1] == k, lab, e.file, e.line,
                          "recall (column 2 of the per-threshold file) is drawn against precision (column 3)",
                          f"the {ax} is column {cc[1] + 1} of {sorted(sources(cc[0]))}")
        if not curves:
            c.undecided(f"{name}: curves", "no plotted curve recognised")
        for e in g.events:
            texts = []
            if e.kind == "ext" and e.name == "print":
                texts = list(e.args["args"].a)
            elif e.kind == "method" and e.name == "legend":
                texts = [x for x in X.subterms(e.args["args"]) if x.op == "cat"]
            for t in texts:
                labels(c, name, t, e)
        fits = [x for e in g.events for v in e.args.values() if isinstance(v, T_) for x in X.subterms(g.I.deep(g.st, v))
                if norms.ext_call(x, "scipy.interpolate.interp1d")]
        done = set()
        for x in fits:
            if x in done:
                continue
            done.add(x)
            r = norms.ext_call(x, "scipy.interpolate.interp1d")
            if len(r[0]) < 2:
                continue
            for ax, t, k in (("abscissa", r[0][0], 2), ("ordinate", r[0][1], 1)):
                cc = column(t)
                lab = f"{name}: {ax} of R50 ({len(done)})"
                if cc is None:
                    c.undecided(lab, X.pretty(t)[:300])
                    continue
                loc = term_loc(x) or wh
                c.require(sources(cc[0]) == {"threshold_results"} and cc[1] == k, lab, *loc,
                          "R50 interpolates recall (column 2) over precision (column 3)",
                          f"the {ax} is column {cc[1] + 1} of {sorted(sources(cc[0]))}")
    return "every written row of every result file, and every column the plotting functions pick"


def labels(c, name, t, e):
    if t.op != "cat":
        return
    prev = None
    want = {"ODS": 3, "OIS": 6, "AP": 8, "[F": 3}
    for x in t.a:
        if x.op == "str":
            prev = x.a[0].rstrip().rstrip("=").split(",")[-1].strip()
            continue
        if prev in want:
            lab = f"{name}: value printed as {prev.lstrip('[')}"
            v = x.a[0] if x.op in ("fmt", "tostr") else x
            cc = column(v)
            sc = stored_column(*cc) if cc else None
            if sc is None:
                c.undecided(lab, X.pretty(v)[:300])
            else:
                c.require(sc == ({"overall_results"}, want[prev]), lab, e.file, e.line,
                          "summary values are read from their own columns of the overall file",
                          f"{prev} is read from column {sc[1] + 1 if sc[0] != 'value' else '?'} of {sc[0]}")
        prev = None


def zf(t):
    from ..vg import zfill
    return zfill(mk("tostr", t), num(3))
