"""C19: the thinning functions as local operators.

The value graph of a thinning function is a recurrence; the image it carries is a term over the image of the pass
before.  The term is split into two sub-iterations, each a function of the 3x3 neighbourhood of a pixel, and both
functions are tabulated from the term for the 512 neighbourhoods and compared with the Guo-Hall conditions.  The
condition for another pass is reduced to the numbers of pixels deleted by the two sub-iterations."""
import itertools
import random
from ..core import *
from .. import terms as X
from .. import layout
from ..terms import mk, const, num, NONE, TRUE, FALSE
from . import small

RING = [(0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0), (1, 1)]  # from east, counter-clockwise
CELLS = [(0, 0)] + RING


class Lost(Exception):
    pass


class Wrong(Exception):
    """The term cannot be right for any reading."""


def bits(k):
    return {o: k >> i & 1 for i, o in enumerate(CELLS)}


def guo_hall(nb, prime):
    """The pixel after a sub-iteration."""
    x = [None] + [nb[o] for o in RING]
    x.append(x[1])
    g1 = sum(1 for i in range(1, 5) if not x[2 * i - 1] and (x[2 * i] or x[2 * i + 1])) == 1
    n1 = sum(x[2 * k - 1] | x[2 * k] for k in range(1, 5))
    n2 = sum(x[2 * k] | x[2 * k + 1] for k in range(1, 5))
    g2 = 2 <= min(n1, n2) <= 3
    g3 = not ((x[6] or x[7] or not x[4]) and x[5] if prime else (x[2] or x[3] or not x[8]) and x[1])
    return int(nb[(0, 0)] and not (g1 and g2 and g3))


SPEC = [[guo_hall(bits(k), p) for k in range(512)] for p in (False, True)]
DEL = [[int(bits(k)[0, 0] != SPEC[p][k]) for k in range(512)] for p in (0, 1)]


# ------------------------------------------------------------------ values
class Sc:
    def __init__(self, v, typ="i"):
        self.v, self.typ = v, typ


class Vec:
    def __init__(self, v, typ):
        self.v, self.typ = list(v), typ


class Im:
    """Elements (i, j) of an array whose extents are the image's plus dh and dw: get(a, b) lists the element at
    (i + a, j + b) for every assignment considered."""
    def __init__(self, get, typ, dh=0, dw=0):
        self.get, self.typ, self.dh, self.dw = get, typ, dh, dw


class Dt:
    def __init__(self, typ):
        self.typ = typ


class Size:
    """Height (0) or width (1) of the image plus k."""
    def __init__(self, axis, k):
        self.axis, self.k = axis, k


class Seq:
    def __init__(self, v):
        self.v = v


RANK = {"b": 0, "u8": 1, "i": 2, "f": 3}


def cast(v, typ):
    if typ == "b":
        return int(v != 0)
    if typ == "u8":
        return int(v) & 255
    if typ == "i":
        return int(v)
    return v


def terms_of(t):
    return [(X.mono_of(t), 1)] if t.op == "mono" else list(X.poly_of(t).items())


class Reader:
    """Evaluates a term for every assignment of values to the pixels of the given images."""
    def __init__(self, images, n):
        self.images, self.n = images, n
        self.memo = {}

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.images[t] if t in self.images else self.term(t)
            self.memo[t] = r
        return r

    def lift(self, f, xs, typ):
        ims = [x for x in xs if isinstance(x, Im)]
        vecs = [x for x in xs if isinstance(x, Vec)]
        if any(not isinstance(x, (Im, Vec, Sc)) for x in xs) or ims and vecs:
            raise Lost("an operation on values of other kinds")
        if ims:
            if len({(x.dh, x.dw) for x in ims}) > 1:
                raise Lost("arrays of different sizes are combined")
            memo = {}

            def get(a, b):
                r = memo.get((a, b))
                if r is None:
                    cols = [x.get(a, b) if isinstance(x, Im) else [x.v] * self.n for x in xs]
                    r = memo[(a, b)] = [f(*c) for c in zip(*cols)]
                return r
            return Im(get, typ, ims[0].dh, ims[0].dw)
        if vecs:
            k = {len(x.v) for x in vecs} - {1}
            if len(k) > 1:
                raise Wrong("tables of different lengths are combined")
            k = k.pop() if k else 1
            cols = [x.v if isinstance(x, Vec) and len(x.v) == k else (x.v if isinstance(x, Vec) else [x.v]) * k for x in xs]
            return Vec([f(*c) for c in zip(*cols)], typ)
        return Sc(f(*[x.v for x in xs]), typ)

    def term(self, t):
        op, a = t.op, t.a
        if op == "num":
            return Sc(a[0], "i" if isinstance(a[0], int) or float(a[0]).is_integer() else "f")
        if op == "bool":
            return Sc(int(a[0]), "b")
        if t is TRUE or t is FALSE:
            return Sc(int(t is TRUE), "b")
        if op in ("copied", "asarray", "truth"):
            return self.ev(a[0])
        if op == "not":
            return self.lift(lambda v: int(not v), [self.ev(a[0])], "b")
        if op in ("and", "or"):
            xs = [self.ev(x) for x in a]
            return self.lift(lambda *v: int(all(v) if op == "and" else any(v)), xs, "b")
        if op in ("band", "bor", "bxor"):
            xs = [self.ev(x) for x in a]
            f = {"band": lambda u, v: u & v, "bor": lambda u, v: u | v, "bxor": lambda u, v: u ^ v}[op]

            def g(*v):
                r = v[0]
                for w in v[1:]:
                    r = f(int(r), int(w))
                return r
            return self.lift(g, xs, max((x.typ for x in xs), key=RANK.get))
        if op == "cmp":
            return self.cmp(a[0], self.ev(a[1]), self.ev(a[2]))
        if op == "ite":
            c = self.ev(a[0])
            if isinstance(c, Sc):
                return self.ev(a[1] if c.v else a[2])
            xs = [self.ev(a[1]), self.ev(a[2])]
            return self.lift(lambda k, u, v: u if k else v, [c] + xs, max((x.typ for x in xs), key=RANK.get))
        if op == "poly":
            return self.poly(t)
        if op == "mono":
            return self.poly(t)
        if op == "len":
            x = self.ev(a[0])
            return Size(0, x.dh) if isinstance(x, Im) else Sc(len(x.v))
        if op == "attr":
            x = self.ev(a[0])
            if a[1] == "dtype":
                return Dt(x.typ)
            if a[1] == "ndim":
                return Sc(2 if isinstance(x, Im) else 1)
            if a[1] == "shape" and isinstance(x, Im):
                return Seq([Size(0, x.dh), Size(1, x.dw)])
            if a[1] in ("shape", "size") and isinstance(x, Vec):
                return Vec([len(x.v)], "i") if a[1] == "shape" else Sc(len(x.v))
        if op == "ext":
            k = a[0].rsplit(".", 1)[-1]
            if k in layout.WIDTH:
                return Dt({"bool": "b", "bool_": "b", "uint8": "u8", "ubyte": "u8"}.get(k, "f" if "float" in k else "i"))
        if op == "astype":
            x, d = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, Seq):
                return self.recast(x, d)
            if isinstance(d, Dt):
                return self.lift(lambda v: cast(v, d.typ), [x], d.typ)
        if op == "zeros":
            if a[0].op == "tuple" and len(a[0].a) == 2 or a[0].op == "attr":
                h = self.ev(a[0])
                if isinstance(h, Seq) and [getattr(z, "axis", None) for z in h.v] == [0, 1]:
                    d = self.ev(a[1]) if len(a) > 1 and a[1] is not NONE else Dt("f")
                    return Im(lambda *_: [0] * self.n, d.typ, h.v[0].k, h.v[1].k)
            d = self.ev(a[1]) if len(a) > 1 and a[1] is not NONE else Dt("f")
            if a[0].op == "tuple" and len(a[0].a) == 1 and a[0].a[0].op == "num":
                return Vec([0] * int(a[0].a[0].a[0]), d.typ)
        if op in ("list", "tuple"):
            xs = [self.ev(x) for x in a]
            if xs and all(isinstance(x, Sc) for x in xs):
                return Vec([x.v for x in xs], max((x.typ for x in xs), key=RANK.get))
            return Seq(xs)
        if op == "index":
            return self.index(t)
        if op == "store" and len(a) == 3:
            b, i, v = [self.ev(x) for x in a]
            if i.typ == "b":
                return self.lift(lambda u, k, w: cast(w, b.typ) if k else u, [b, i, v], b.typ)
        if op == "call" and a[0].op == "ext":
            kw = dict(zip([k if isinstance(k, str) else k.a[0] for k in a[2].a[::2]], a[2].a[1::2]))
            return self.call(a[0].a[0], list(a[1].a), kw)
        raise Lost(f"{op}: {X.pretty(t)[:100]}")

    def cmp(self, op, x, y):
        if isinstance(x, Dt) and isinstance(y, Dt):
            return Sc(int((x.typ == y.typ) == (op == "==")), "b")
        f = {"==": lambda u, v: u == v, "!=": lambda u, v: u != v, "<": lambda u, v: u < v, "<=": lambda u, v: u <= v,
             ">": lambda u, v: u > v, ">=": lambda u, v: u >= v}.get(op)
        if f is None:
            raise Lost(op)
        return self.lift(lambda u, v: int(f(u, v)), [x, y], "b")

    def poly(self, t):
        parts, xs = [], []
        for m, k in terms_of(t):
            fs = []
            for f, e in m:
                x = self.ev(f)
                if e < 1 or e != int(e):
                    raise Lost("a quotient")
                fs += [len(xs)] * int(e)
                xs.append(x)
            parts.append((k, fs))
        if not xs:
            return Sc(sum(k for k, _ in parts))
        ext = [(k, fs) for k, fs in parts if any(isinstance(xs[i], Size) for i in fs)]
        if ext:
            if len(ext) > 1 or ext[0][0] != 1 or len(ext[0][1]) > 1 or any(
                    not isinstance(x, (Sc, Size)) for x in xs):
                raise Lost("a computed extent")
            z = xs[ext[0][1][0]]
            return Size(z.axis, z.k + sum(k * self.prod([xs[i].v for i in fs]) for k, fs in parts if not fs or fs != ext[0][1]))
        # the type of the result, as the library combines booleans, bytes and plain numbers
        plain = lambda x: isinstance(x, Sc)
        types = []
        for k, fs in parts:
            ts = [xs[i].typ for i in fs if not plain(xs[i])]
            ty = max(ts, key=RANK.get) if ts else None
            if ty == "u8" and not 0 <= k <= 255:
                raise Wrong(f"the factor {k} does not fit the 8-bit array it is multiplied with")
            if ty == "b" and (k != 1 or any(plain(xs[i]) for i in fs)):
                ty = "i"
            types.append(ty)
        known = [y for y in types if y]
        ty = max(known, key=RANK.get) if known else "i"
        if ty == "b" and any(y is None for y in types):
            ty = "i"
        if ty == "b" and len(parts) > 1:
            return self.lift(lambda *v: int(any(all(v[i] for i in fs) for _, fs in parts)), xs, "b")

        def f(*v):
            s = 0
            for k, fs in parts:
                p = k
                for i in fs:
                    p = p * v[i]
                s += p
            return s & 255 if ty == "u8" else s
        return self.lift(f, xs, ty)

    @staticmethod
    def prod(v):
        r = 1
        for x in v:
            r *= x
        return r

    def index(self, t):
        o, i = t.a
        x = self.ev(o)
        if isinstance(x, Im) and i.op == "tuple" and all(y.op == "slice" for y in i.a) and len(i.a) == 2:
            off, ext = [], []
            for y in i.a:
                lo, hi, step = (list(y.a) + [NONE] * 3)[:3]
                if step is not NONE and step != num(1):
                    raise Lost("a stride")
                lo, hi = [Sc(0) if z is NONE else self.ev(z) for z in (lo, hi)]
                d = (x.dh, x.dw)[len(off)]
                if isinstance(hi, Size) and hi.axis == len(off) and hi.k <= d:
                    hi = Sc(hi.k - d)
                if not isinstance(lo, Sc) or not isinstance(hi, Sc):
                    raise Lost("a computed slice")
                lo, hi = int(lo.v), int(hi.v)
                if lo < 0 or hi > 0:
                    raise Lost("a slice counted from the other end")
                off.append(lo)
                ext.append(lo - hi)
            g = x.get
            return Im(lambda a, b: g(a + off[0], b + off[1]), x.typ, x.dh - ext[0], x.dw - ext[1])
        if isinstance(x, Seq) and i.op == "num":
            return x.v[int(i.a[0])]
        if isinstance(x, Vec):
            return self.look(x, self.ev(i))
        raise Lost(f"an element of {X.pretty(t)[:80]}")

    def look(self, x, y):
        if isinstance(y, Sc):
            return Sc(x.v[int(y.v)], x.typ)
        if not isinstance(y, (Im, Vec)) or y.typ == "b":
            raise Lost("a table looked up by truth values")

        def f(k):
            if not -len(x.v) <= k < len(x.v):
                raise Wrong(f"entry {k} of a table of {len(x.v)}")
            return x.v[k]
        return self.lift(f, [y], x.typ)

    def recast(self, x, d):
        if isinstance(x, Seq):
            return Seq([self.recast(y, d) for y in x.v])
        if not isinstance(d, Dt):
            raise Lost("a type")
        return self.lift(lambda v: cast(v, d.typ), [x], d.typ)

    def table(self, v):
        """Rows of numbers."""
        if isinstance(v, Vec):
            return v.v
        if isinstance(v, Seq):
            return [self.table(x) for x in v.v]
        raise Lost("a table of something else")

    def call(self, f, args, kw):
        if f in ("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.copy", "numpy.atleast_2d"):
            x = self.ev(args[0])
            d = kw.get("dtype") or (args[1] if len(args) > 1 else None)
            if d is None:
                return x
            d = self.ev(d)
            if isinstance(x, Seq):
                return self.recast(x, d)
            return self.lift(lambda v: cast(v, d.typ), [x], d.typ)
        if f == "numpy.arange":
            v = [self.ev(x).v for x in args]
            return Vec(range(*[int(x) for x in v]), "i")
        if f in ("numpy.minimum", "numpy.maximum"):
            xs = [self.ev(x) for x in args]
            return self.lift(min if f.endswith("minimum") else max, xs, max((x.typ for x in xs), key=RANK.get))
        if f == "numpy.take" and not kw and len(args) == 2:
            return self.look(self.ev(args[0]), self.ev(args[1]))
        if f == "numpy.where" and len(args) == 3:
            xs = [self.ev(x) for x in args]
            return self.lift(lambda k, u, v: u if k else v, xs, max((x.typ for x in xs[1:]), key=RANK.get))
        if f in ("numpy.logical_and", "numpy.logical_or", "numpy.logical_xor", "numpy.logical_not"):
            xs = [self.ev(x) for x in args]
            g = {"and": lambda u, v: int(bool(u) and bool(v)), "or": lambda u, v: int(bool(u) or bool(v)),
                 "xor": lambda u, v: int(bool(u) != bool(v)), "not": lambda u: int(not u)}[f.rsplit("_", 1)[-1]]
            return self.lift(g, xs, "b")
        if f == "numpy.pad":
            x = self.ev(args[0])
            w = args[1] if len(args) > 1 else kw.get("pad_width")
            mode = args[2] if len(args) > 2 else kw.get("mode", const("constant"))
            val = kw.get("constant_values", num(0))
            if mode.op != "str":
                raise Lost("the padding mode")
            if mode.a[0] != "constant":
                raise Wrong(f"pixels outside the image are taken from it ({mode.a[0]} padding), not background")
            val = self.ev(val)
            if not isinstance(val, Sc):
                raise Lost("the padding value")
            if val.v != 0:
                raise Wrong("pixels outside the image are foreground")
            w = {(x if isinstance(x, int) else tuple(x)) for x in [self.widths(w)]}.pop()
            g = x.get
            return Im(lambda a, b: g(a - w, b - w), x.typ, x.dh + 2 * w, x.dw + 2 * w)
        if f in ("scipy.ndimage.correlate", "scipy.ndimage.convolve"):
            x = self.ev(args[0])
            w = args[1] if len(args) > 1 else kw.get("weights")
            mode = kw.get("mode", args[3] if len(args) > 3 else const("reflect"))
            if mode.op != "str":
                raise Lost("the filter's mode")
            if mode.a[0] not in ("constant", "grid-constant"):
                raise Wrong(f"pixels outside the image are taken from it ({mode.a[0]} mode), not background")
            val = self.ev(kw.get("cval", num(0)))
            if not isinstance(val, Sc) or val.v != 0:
                raise Wrong("pixels outside the image are not background")
            if set(kw) - {"mode", "cval", "weights"} or len(args) > 4:
                raise Lost("the filter's options")
            rows = self.table(self.ev(w))
            if len(rows) != 3 or any(not isinstance(r, list) or len(r) != 3 for r in rows):
                raise Lost("the filter's size")
            s = 1 if f.endswith("correlate") else -1
            ws = [(s * (i - 1), s * (j - 1), rows[i][j]) for i in range(3) for j in range(3) if rows[i][j]]
            g, ty = x.get, x.typ
            memo = {}

            def get(a, b):
                r = memo.get((a, b))
                if r is None:
                    cols = [[k * v for v in g(a + i, b + j)] for i, j, k in ws]
                    r = [sum(c) for c in zip(*cols)]
                    if ty == "b":
                        raise Lost("a filtered boolean array")
                    if ty == "u8":
                        r = [v & 255 for v in r]
                    memo[(a, b)] = r
                return r
            return Im(get, ty, x.dh, x.dw)
        raise Lost(f"call of {f}")

    def widths(self, w):
        if w.op == "num":
            return int(w.a[0])
        if w.op in ("tuple", "list") and w.a:
            k = {self.widths(x) for x in w.a}
            if len(k) == 1:
                return k.pop()
        raise Lost("uneven padding")


def image(cells, typ):
    """An image whose pixels around the one considered are given; none is known further away."""
    def get(a, b):
        if (a, b) not in cells:
            raise Lost("a pixel further away than a neighbour")
        return cells[a, b]
    return Im(get, typ)


NB = {o: [bits(k)[o] for k in range(512)] for o in CELLS}


def local(t, x, typ):
    """The 512 values of a pixel of t for the neighbourhoods in image x."""
    v = Reader({x: image(NB, typ)}, 512).ev(t)
    if not isinstance(v, Im):
        raise Lost("not an image")
    if (v.dh, v.dw) != (0, 0):
        raise Lost("the image changes its size")
    return v.get(0, 0), v.typ


class Fault(Exception):
    """What is wrong with a thinning function, shown by an image."""


def step(f, img, h, w):
    out = []
    for i in range(h):
        for j in range(w):
            k = 0
            for n, (a, b) in enumerate(CELLS):
                if 0 <= i + a < h and 0 <= j + b < w and img[(i + a) * w + j + b]:
                    k |= 1 << n
            out.append(f[k])
    return out


def witness(f, g):
    """An image for which two local operators in turn differ from a Guo-Hall pass."""
    rnd = random.Random(1)
    trials = itertools.chain(
        (((h, w), list(p)) for h, w in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 3)) for p in itertools.product((0, 1), repeat=h * w)),
        (((h, w), [int(rnd.random() < d) for _ in range(h * w)]) for h, w in ((4, 5), (6, 6)) for d in (.3, .5, .7, .9)
         for _ in range(1500)))
    for (h, w), img in trials:
        if step(g, step(f, img, h, w), h, w) != step(SPEC[1], step(SPEC[0], img, h, w), h, w):
            return [img[i * w:(i + 1) * w] for i in range(h)]
    return None


Z, R = S("between", "array"), S("after", "array")


def split(body, x, typ):
    """(term between the sub-iterations, rest over Z), both Guo-Hall; Fault with an image if they are not."""
    cands = [y for y in X.subterms(body) if X.contains(y, lambda z: z is x)]
    found, why, wrong = [], None, None
    for y in cands:
        rest = X.subst(body, lambda z: Z if z is y else None)
        if X.contains(rest, lambda z: z is x):
            continue
        try:
            f, ty = local(y, x, typ)
            g, _ = local(rest, Z, ty)
        except Lost as e:
            why = e
            continue
        except Wrong as e:
            wrong = e
            continue
        if set(f) | set(g) <= {0, 1}:
            if f == SPEC[0] and g == SPEC[1]:
                return y, rest
            found.append((f, g))
    for f, g in found:
        img = witness(f, g)
        if img is not None:
            for name, t, s in (("first", f, SPEC[0]), ("second", g, SPEC[1])):
                for k in range(512):
                    if t[k] != s[k]:
                        b = bits(k)
                        nb = "/".join("".join(str(b[i, j]) for j in (-1, 0, 1)) for i in (-1, 0, 1))
                        raise Fault(f"the {name} sub-iteration turns the centre of {nb} into {t[k]} instead of {s[k]}; "
                                    f"a pass over {'/'.join(''.join(map(str, r)) for r in img)} differs")
            raise Fault(f"a pass over {img} differs")
    if wrong is not None and not found:
        raise Fault(str(wrong))
    raise Lost(str(why or "no division into two sub-iterations"))


class Loop:
    """The recurrence of a thinning function."""
    def __init__(self, c, path, args):
        self.r = c.run(path, args)
        v = self.r.value
        while v.op in ("astype", "copied", "asarray"):
            v = v.a[0]
        if v.op == "not" and v.a[0].op == "cmp" and v.a[0].a[0] == "==" and num(0) in v.a[0].a[1:]:
            v = [y for y in v.a[0].a[1:] if y != num(0)][0]
        if v.op != "loopgen":
            raise Lost("not a recurrence")
        if v.a[0].op != "opq":
            raise Fault(f"a fixed number of passes: {X.pretty(v.a[0])}")
        self.inits, self.nexts, self.go = v.a[1].a, v.a[2].a[0].a, v.a[3].a[0].a
        lv = {x.a[0] for y in self.nexts + self.go for x in X.subterms(y) if x.op == "mv"}
        self.mv = [mk("mv", max(lv) if lv else 0, k) for k in range(len(self.inits))]

    def facts(self, t):
        def f(x):
            if x.op == "cmp" and x.a[0] == "==" and num(2) in x.a[1:]:
                y = x.a[2] if x.a[1] == num(2) else x.a[1]
                if y.op == "attr" and y.a[1] == "ndim":
                    return TRUE
            return None
        return X.subst(t, f)


def counts(t, x, body, mid, typ, mtyp):
    """How often an array term is set, as coefficients of the pixels deleted first and second, of those kept, and
    of background."""
    t = X.subst(t, lambda z: R if z is body else Z if z is mid else None)
    tuples = [(1, 0, 0), (1, 1, 0), (1, 1, 1), (0, 0, 0)]
    env = {s: image({(0, 0): [p[i] for p in tuples]}, ty) for i, (s, ty) in enumerate(((x, typ), (Z, mtyp), (R, mtyp)))}
    try:
        v = Reader(env, 4).ev(t)
        if isinstance(v, Im) and (v.dh, v.dw) == (0, 0):
            return v.get(0, 0)
        if isinstance(v, Sc):
            return v
    except Lost:
        pass
    for s, ty, d, k in ((x, typ, DEL[0], [1, 0, 0, 0]), (Z, mtyp, DEL[1], [0, 1, 0, 0])):
        if all(z is s for z in X.subterms(t) if z in (x, Z, R)):
            v, _ = local(t, s, ty)
            if [int(bool(q)) for q in v] == d:
                return k
    raise Lost(f"what is counted: {X.pretty(t)[:100]}")


def again(loop, body, mid, typ, mtyp):
    """go(state, d1, d2): whether another pass follows, and the next state of the counters."""
    x = loop.mv[0]
    memo = {}

    def agg(t):
        if t not in memo:
            memo[t] = counts(t, x, body, mid, typ, mtyp)
        return memo[t]

    def ev(t, st, d):
        op, a = t.op, t.a
        rec = lambda y: ev(y, st, d)
        sizes = [d[0], d[1], 40, 60]
        if op == "num":
            return a[0]
        if op == "bool" or t in (TRUE, FALSE):
            return t is TRUE
        if op == "none":
            return None
        if t in loop.mv[1:]:
            return st[loop.mv.index(t)]
        if op in ("count", "sum", "any", "all", "max", "min"):
            k = agg(a[0])
            k = k.v if isinstance(k, Sc) else k
            if not isinstance(k, list):
                return k
            if op in ("any", "max"):
                return any(q and s for q, s in zip(k, sizes))
            if op in ("all", "min"):
                return all(q or not s for q, s in zip(k, sizes))
            return sum((int(bool(q)) if op == "count" else q) * s for q, s in zip(k, sizes))
        if op == "call" and a[0].op == "ext" and a[0].a[0] in ("numpy.array_equal", "numpy.allclose", "numpy.count_nonzero",
                                                              "numpy.sum", "numpy.any", "numpy.all"):
            f = a[0].a[0].rsplit(".", 1)[-1]
            if f in ("array_equal", "allclose"):
                return ev(mk("all", X.cmp_("==", *a[1].a[:2])) if hasattr(X, "cmp_") else mk("all", mk("cmp", "==", *a[1].a[:2])), st, d)
            return ev(mk({"count_nonzero": "count"}.get(f, f), a[1].a[0]), st, d)
        if op == "call" and a[0].op == "ext" and a[0].a[0] in ("builtins.max", "builtins.min", "builtins.abs", "builtins.int",
                                                              "builtins.bool", "numpy.abs") and not a[2].a:
            f = {"max": max, "min": min, "abs": abs, "int": int, "bool": bool}[a[0].a[0].rsplit(".", 1)[-1]]
            return f(*[rec(y) for y in a[1].a])
        if op in ("int", "abs", "max2", "min2") and len(a) == 1:
            return abs(rec(a[0])) if op == "abs" else int(rec(a[0]))
        if op == "not":
            return not rec(a[0])
        if op == "truth":
            return bool(rec(a[0]))
        if op == "and":
            return all(rec(y) for y in a)
        if op == "or":
            return any(rec(y) for y in a)
        if op == "ite":
            return rec(a[1] if rec(a[0]) else a[2])
        if op == "cmp":
            u, v = rec(a[1]), rec(a[2])
            f = {"==": lambda: u == v, "!=": lambda: u != v, "<": lambda: u < v, "<=": lambda: u <= v, ">": lambda: u > v,
                 ">=": lambda: u >= v, "is": lambda: u is v, "is not": lambda: u is not v}.get(a[0])
            if f is None:
                raise Lost(a[0])
            return f()
        if op in ("poly", "mono"):
            s = 0
            for m, k in terms_of(t):
                for f, e in m:
                    k = k * rec(f) ** e
                s += k
            return s
        raise Lost(f"the condition for another pass: {X.pretty(t)[:100]}")

    top = [loop.facts(g) for g in loop.go[:1]]
    rest = [loop.facts(g) for g in loop.go[1:]]
    nexts = [None] + [loop.facts(y) for y in loop.nexts[1:]]

    def first(st):
        return all(ev(g, st, (0, 0)) for g in top)

    def go(st, d):
        if not all(ev(g, st, d) for g in rest):
            return False, st
        n = [None] + [ev(y, st, d) for y in nexts[1:]]
        return all(ev(g, n, (0, 0)) for g in top), n

    def start():
        return [None] + [ev(loop.facts(y), None, (0, 0)) for y in loop.inits[1:]]
    consts = [abs(int(y.a[0])) for g in list(loop.go) + list(loop.inits[1:]) for y in X.subterms(g) if y.op == "num"]
    return start, first, go, max([20] + [k + 5 for k in consts if k <= 20000])


PATTERNS = [((1, 0),), ((0, 1),), ((5, 2),), ((0, 0),), ((3, 1), (1, 0), (0, 0)), ((1, 1), (0, 2), (1, 0), (0, 0))]


def C19(c):
    rule = "a pass deletes exactly the pixels that meet the Guo-Hall conditions, first G1-G3, then G1, G2, G3'"
    x = S("image", "array")
    n = 0
    for fn, most in (("binary_thin", "max_iter"), ("bwmorph_thin", "n_iter")):
        path = "pyEdgeEval.preprocess." + fn
        at = small.where(c, path)

        def bad(name, what, rule=rule):
            c.require(False, f"{fn}: {name}", *at, rule, f"{fn}: {what}", f"{fn} {name}")

        for given in ((x,), (x, num(1)), (x, num(2)), (x, num(7))):
            tag = f"{fn}, {'no limit' if len(given) == 1 else f'{given[1].a[0]} passes'}"
            try:
                L = Loop(c, path, list(given))
                for ev in L.r.events:
                    if ev.kind == "raise" and refused(ev.guard, x):
                        raise Fault(f"refuses a binary image at line {ev.line}")
                for typ in ("b", "u8"):
                    start = L.inits[0]
                    env = {x: image(NB, typ)}
                    v = Reader(env, 512).ev(start)
                    if not isinstance(v, Im):
                        raise Lost("the image the first pass works on")
                    if v.get(0, 0) != NB[0, 0]:
                        raise Fault("the first pass does not start from the image")
                    for ty in {v.typ}:
                        body = X.subst(L.facts(L.nexts[0]), lambda z: None)
                        mid, rest = split(body, L.mv[0], ty)
                        mtyp = local(mid, L.mv[0], ty)[1]
                        rtyp = local(rest, Z, mtyp)[1]
                        n += 1024
                        c.ok(f"{tag}: sub-iterations, {'boolean' if typ == 'b' else 'byte'} image")
                        if rtyp != ty:
                            split(body, L.mv[0], rtyp)
                        st0, first, go, limit = again(L, body, mid, ty, mtyp)
                        passes(c, tag, at, given, st0, first, go, limit)
                out = L.r.value
                out = X.subst(out, lambda z: Z if z.op == "loopgen" else None)
                if out is not Z:
                    f, _ = local(out, Z, "u8")
                    if f != NB[0, 0]:
                        raise Fault("the result is not the thinned image")
            except Lost as e:
                c.undecided(f"{tag}: passes", str(e)[:200])
            except (Wrong, Fault) as e:
                bad("passes", str(e)[:300])
    return f"{n} neighbourhoods in two sub-iterations per function, image type and limit; passes for every pattern of changes"


def refused(guard, x):
    """Whether a binary image of two dimensions is certainly refused under this guard."""
    def f(y):
        if y.op == "cmp" and num(2) in y.a[1:] and any(isinstance(z, T) and z.op == "attr" and z.a[1] == "ndim" for z in y.a[1:]):
            return TRUE if y.a[0] in ("==", "<=", ">=") else FALSE
        return None
    return X.subst(guard, f) is TRUE


def passes(c, tag, at, given, start, first, go, limit):
    rule = "passes are repeated until one deletes nothing, or as often as given"
    most = None if len(given) == 1 else given[1].a[0]
    for pat in PATTERNS:
        st = start()
        k = 0
        if first(st):
            k = 1
            while k <= limit:
                d = pat[min(k, len(pat)) - 1]
                on, st = go(st, d)
                if not on:
                    break
                k += 1
        quiet = next((i + 1 for i, d in enumerate(pat) if d == (0, 0)), None)
        want = limit + 1 if quiet is None else quiet
        if most is not None:
            want = min(want, most)
        name = f"{tag}: passes when (first, second) sub-iterations delete {', '.join(map(str, pat))}" + (" ..." if quiet is None else "")
        c.require(k == want or quiet is None and most is None and k > limit, name, *at, rule,
                  f"{name}: {k if k <= limit else 'endless'} instead of {want if want <= limit else 'endless'}", f"{tag} {pat}")
