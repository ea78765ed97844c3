"""Bit and axis layout of decoding expressions.

A value is (axes, data): axes is a tuple whose entries are the symbolic pixel axes "h"/"w" (or
their reversals "-h"/"-w") or concrete lengths; data maps the tuple of concrete indices (one
per concrete axis, in order) to a token:
  ("byte", c)       byte c of the stored pixel (0..)
  ("bit", c, b)     bit b (0 = least significant) of byte c
  ("word",)         the 32-bit value of the pixel;  byte c of it is ("byte", c) little endian
"""
import itertools

from . import terms as X
from .terms import mk, num, T


class Unknown(Exception):
    pass


class Lay:
    def __init__(self, axes, data, bits):
        self.axes = tuple(axes)
        self.data = data
        self.bits = bits  # item size of an element

    def conc(self):
        return [i for i, a in enumerate(self.axes) if isinstance(a, int)]


WIDTH = {"uint8": 8, "int8": 8, "uint16": 16, "int16": 16, "uint32": 32, "int32": 32,
         "uint64": 64, "int64": 64, "int": 64, "bool": 8, "float": 64, "float64": 64,
         "float32": 32, "intc": 32, "uintc": 32, "ubyte": 8, "int_": 64, "bool_": 8}


def dtype_name(t):
    if t.op == "ext":
        return t.a[0].rsplit(".", 1)[-1]
    if t.op == "str":
        return {"u1": "uint8", "u4": "uint32", "i4": "int32", "<u4": "uint32", "B": "uint8"}.get(t.a[0], t.a[0])
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "numpy.dtype" and len(t.a[1].a) == 1:
        return dtype_name(t.a[1].a[0])
    return None


def const_int(t):
    if t.op == "num" and float(t.a[0]).is_integer():
        return int(t.a[0])
    raise Unknown(X.pretty(t))


def platform(t):
    """A little-endian machine with native arrays."""
    def leaf(x):
        if x.op == "ext" and x.a[0] == "sys.byteorder":
            return X.const("little")
        if x.op == "attr" and x.a[1] == "byteorder":
            return X.const("=")
        return None
    return X.subst(t, leaf)


def evaluate(t, leaf):
    """leaf(term) -> Lay or None"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = leaf(x)
        if r is None:
            r = step(x)
        memo[x] = r
        return r

    def step(x):
        o, a = x.op, x.a
        if o in ("asarray", "copied", "tolist"):
            return go(a[0])
        if o == "astype":
            v = go(a[0])
            w = WIDTH.get(dtype_name(a[1]))
            if w is None:
                raise Unknown("dtype " + X.pretty(a[1]))
            if w < v.bits:
                need = max([tok_bits(t) for t in v.data.values()] or [0])
                if need > w:
                    data = {k: truncate(t, w) for k, t in v.data.items()}
                    return Lay(v.axes, data, w)
            return Lay(v.axes, v.data, w)
        if o == "transpose":
            v = go(a[0])
            n = len(v.axes)
            if a[1].op == "none":
                p = list(range(n))[::-1]
            else:
                p = [const_int(i) % n for i in a[1].a]
            return permute(v, p)
        if o == "index":
            return getindex(go(a[0]), a[1])
        if o == "method" and a[0] == "view" and len(a) > 2:
            return view(go(a[1]), dtype_name(a[2].a[0]))
        if o == "call" and a[0].op == "ext":
            return call(x, a[0].a[0], list(a[1].a), {a[2].a[i].a[0] if isinstance(a[2].a[i], T) else a[2].a[i]: a[2].a[i + 1]
                                                       for i in range(0, len(a[2].a), 2)})
        if o in ("list", "tuple"):
            return stack([go(e) for e in a], 0)
        if o == "maplist" and a[0].op == "num" and a[2] is X.TRUE:
            return stack([go(X.instantiate(a[1], num(i))) for i in range(const_int(a[0]))], 0)
        if o == "tab" and a[1].op == "num" and a[2].op == "bv" and a[2].a[0] == 0:
            return stack([go(X.instantiate(a[3], num(i))) for i in range(const_int(a[1]))], 0)
        if o == "band" and len(a) == 2:
            for p, q in ((a[0], a[1]), (a[1], a[0])):
                if p.op == "num":
                    return mask(go(q), int(p.a[0]))
        if o == "floordiv":
            d = a[1]
            if d.op == "pow" and d.a[0].op == "num" and d.a[0].a[0] == 2 and d.a[1].op == "num":
                return shift(go(a[0]), const_int(d.a[1]))
            if d.op == "num":
                k = int(d.a[0])
                if k > 0 and k & (k - 1) == 0:
                    return shift(go(a[0]), k.bit_length() - 1)
        if o == "cmp" and a[0] in ("<", "==") and X.ZERO in a[1:]:
            v = a[2] if a[1] is X.ZERO else a[1]
            if a[0] == "<" and a[1] is X.ZERO:
                return nonzero(go(v))
        if o == "not" and a[0].op == "cmp" and a[0].a[0] == "==" and X.ZERO in a[0].a[1:]:
            y = a[0]
            return nonzero(go(y.a[2] if y.a[1] is X.ZERO else y.a[1]))
        if o == "store":
            return storeat(go(a[0]), a[1], go(a[2]))
        raise Unknown(X.pretty(x))

    def call(x, f, args, kw):
        f = f.replace("numpy.core.", "numpy.")
        if f == "numpy.unpackbits":
            names = ["a", "axis", "count", "bitorder"]
            p = dict(zip(names, args))
            p.update(kw)
            v = go(p["a"])
            if p.get("axis") is None or p["axis"].op == "none":
                raise Unknown("unpackbits without axis")
            ax = const_int(p["axis"]) % len(v.axes)
            cnt = p.get("count")
            cnt = None if cnt is None or cnt.op == "none" else const_int(cnt)
            order = p.get("bitorder")
            order = "big" if order is None else order.a[0]
            return unpackbits(v, ax, cnt, order)
        if f in ("numpy.reshape",):
            if len(args) == 2:
                v = go(args[0])
                if v.axes == ("flat",) and args[1].op == "tuple" and len(args[1].a) == 2:
                    names = [leafname(d) for d in args[1].a]
                    return Lay(names, v.data, v.bits)
            raise Unknown("reshape")
        if f in ("numpy.ascontiguousarray", "numpy.array", "numpy.asarray", "numpy.copy"):
            return go(args[0])
        if f in ("numpy.moveaxis", "numpy.rollaxis") and len(args) >= 2:
            v = go(args[0])
            n = len(v.axes)
            s = const_int(args[1]) % n
            if f == "numpy.moveaxis":
                d = const_int(args[2]) % n
            else:
                d = const_int(args[2]) if len(args) > 2 else 0
                d = d - 1 if d > s else d
            p = [i for i in range(n) if i != s]
            p.insert(d, s)
            return permute(v, p)
        if f == "numpy.swapaxes":
            v = go(args[0])
            n = len(v.axes)
            p = list(range(n))
            i, j = const_int(args[1]) % n, const_int(args[2]) % n
            p[i], p[j] = p[j], p[i]
            return permute(v, p)
        if f in ("numpy.flip", "numpy.fliplr", "numpy.flipud"):
            v = go(args[0])
            ax = args[1] if len(args) > 1 else kw.get("axis")
            if f == "numpy.fliplr":
                axs = [1]
            elif f == "numpy.flipud":
                axs = [0]
            elif ax is None or ax.op == "none":
                axs = list(range(len(v.axes)))
            else:
                axs = [const_int(q) % len(v.axes) for q in (ax.a if ax.op == "tuple" else [ax])]
            for q in axs:
                v = flip(v, q)
            return v
        if f == "numpy.stack":
            ax = args[1] if len(args) > 1 else kw.get("axis", num(0))
            return stack(parts(args[0]), const_int(ax))
        if f in ("numpy.concatenate",):
            ax = args[1] if len(args) > 1 else kw.get("axis", num(0))
            return concat(parts(args[0]), const_int(ax))
        if f == "numpy.dstack":
            ps = parts(args[0])
            return concat([Lay(list(p.axes) + [1], {k + (0,): t for k, t in p.data.items()}, p.bits)
                           if len(p.axes) == 2 else p for p in ps], 2)
        if f == "numpy.expand_dims":
            v = go(args[0])
            ax = const_int(args[1] if len(args) > 1 else kw["axis"])
            return newaxis(v, ax % (len(v.axes) + 1))
        if f in ("numpy.bitwise_and",):
            return go(X.band(*args))
        if f in ("numpy.right_shift",) and args[1].op == "num":
            return shift(go(args[0]), const_int(args[1]))
        raise Unknown("call of " + f)

    def parts(t):
        if t.op in ("list", "tuple"):
            return [go(e) for e in t.a]
        v = go(t)
        if v.axes and isinstance(v.axes[0], int):
            return [getindex(v, num(i)) for i in range(v.axes[0])]
        raise Unknown("sequence")

    return go(t)


def leafname(d):
    if d.op == "sym" and d.a[0] in ("h", "w"):
        return d.a[0]
    raise Unknown("size " + X.pretty(d))


def tok_bits(t):
    return {"word": 32, "byte": 8, "bit": 1}.get(t[0], 64)


def truncate(t, w):
    if t[0] == "word" and w == 8:
        return ("byte", 0)
    return ("cut", t, w)


def permute(v, p):
    conc = v.conc()
    newconc = [i for i in p if isinstance(v.axes[i], int)]
    order = [conc.index(i) for i in newconc]
    return Lay([v.axes[i] for i in p], {tuple(k[j] for j in order): t for k, t in v.data.items()}, v.bits)


def flip(v, ax):
    a = v.axes[ax]
    axes = list(v.axes)
    if isinstance(a, int):
        c = v.conc().index(ax)
        return Lay(axes, {k[:c] + (a - 1 - k[c],) + k[c + 1:]: t for k, t in v.data.items()}, v.bits)
    axes[ax] = a[1:] if a.startswith("-") else "-" + a
    return Lay(axes, v.data, v.bits)


def newaxis(v, ax):
    axes = list(v.axes)
    c = len([i for i in v.conc() if i < ax])
    axes.insert(ax, 1)
    return Lay(axes, {k[:c] + (0,) + k[c:]: t for k, t in v.data.items()}, v.bits)


def getindex(v, i):
    items = list(i.a) if i.op == "tuple" else [i]
    ell = [k for k, e in enumerate(items) if e.op == "ext" and e.a[0] in ("builtins.Ellipsis",) or e.op == "ellipsis"]
    if ell:
        k = ell[0]
        nn = len([e for e in items if e.op != "none"]) - 1
        full = mk("slice", X.NONE, X.NONE, X.NONE)
        items[k:k + 1] = [full] * (len(v.axes) - nn)
    ax = 0
    for e in items:
        if e.op == "none":
            v = newaxis(v, ax)
            ax += 1
        elif e.op == "slice":
            lo, hi, st = [None if q.op == "none" else const_int(q) for q in e.a]
            if ax >= len(v.axes):
                raise Unknown("too many indices")
            a = v.axes[ax]
            if not isinstance(a, int):
                if (lo, hi) == (None, None) and st in (None, 1):
                    pass
                elif (lo, hi, st) == (None, None, -1):
                    v = flip(v, ax)
                else:
                    raise Unknown("slice of a pixel axis")
            else:
                r = range(a)[slice(lo, hi, st)]
                v = pick(v, ax, list(r))
            ax += 1
        elif e.op == "num":
            if ax >= len(v.axes) or not isinstance(v.axes[ax], int):
                raise Unknown("index of a pixel axis")
            k = const_int(e)
            n = v.axes[ax]
            if not -n <= k < n:
                raise Unknown("index out of range")
            v = pick(v, ax, [k % n])
            c = v.conc().index(ax)
            axes = list(v.axes)
            del axes[ax]
            v = Lay(axes, {q[:c] + q[c + 1:]: t for q, t in v.data.items()}, v.bits)
        else:
            raise Unknown("index " + X.pretty(e))
    return v


def pick(v, ax, r):
    c = v.conc().index(ax)
    axes = list(v.axes)
    axes[ax] = len(r)
    data = {}
    for k, t in v.data.items():
        for n, s in enumerate(r):
            if k[c] == s:
                data[k[:c] + (n,) + k[c + 1:]] = t
    return Lay(axes, data, v.bits)


def stack(vs, ax):
    if not vs:
        raise Unknown("empty stack")
    n = len(vs[0].axes) + 1
    return concat([newaxis(v, ax % n) for v in vs], ax % n)


def concat(vs, ax):
    ax %= len(vs[0].axes)
    if not all(isinstance(v.axes[ax], int) for v in vs):
        raise Unknown("concatenation of pixel axes")
    if len({v.axes[:ax] + v.axes[ax + 1:] for v in vs}) != 1:
        raise Unknown("shapes differ")
    off, data = 0, {}
    for v in vs:
        c = v.conc().index(ax)
        for k, t in v.data.items():
            data[k[:c] + (k[c] + off,) + k[c + 1:]] = t
        off += v.axes[ax]
    axes = list(vs[0].axes)
    axes[ax] = off
    return Lay(axes, data, max(v.bits for v in vs))


def view(v, dt):
    w = WIDTH.get(dt)
    if w == v.bits:
        return v
    if w == 8 and v.bits == 32 and v.axes and isinstance(v.axes[-1], int):
        data = {}
        for k, t in v.data.items():
            for b in range(4):
                data[k[:-1] + (k[-1] * 4 + b,)] = byte_of(t, b)
        return Lay(v.axes[:-1] + (v.axes[-1] * 4,), data, 8)
    raise Unknown("view")


def byte_of(t, b):
    if t[0] == "word":
        return ("byte", b)
    if t[0] == "byte":
        return t if b == 0 else ("zero",)
    raise Unknown("byte of " + repr(t))


def unpackbits(v, ax, cnt, order):
    if v.bits != 8 or not isinstance(v.axes[ax], int):
        raise Unknown("unpackbits operand")
    c = v.conc().index(ax)
    n = v.axes[ax] * 8
    m = n if cnt is None else (cnt if cnt >= 0 else n + cnt)
    axes = list(v.axes)
    axes[ax] = m
    data = {}
    for k, t in v.data.items():
        for b in range(8):
            pos = k[c] * 8 + (b if order == "little" else 7 - b)
            if pos < m:
                data[k[:c] + (pos,) + k[c + 1:]] = bit_of(t, b)
    for extra in range(n, m):
        for k in {q[:c] + q[c + 1:] for q in v.data}:
            data[k[:c] + (extra,) + k[c:]] = ("zero",)
    return Lay(axes, data, 8)


def bit_of(t, b):
    if t[0] == "byte":
        return ("bit", t[1], b)
    if t[0] == "word":
        return ("bit", b // 8, b % 8)
    if t[0] == "bit":
        return t if b == 0 else ("zero",)
    if t[0] == "zero":
        return t
    if t[0] == "shr":
        return bit_of(t[1], b + t[2])
    raise Unknown("bit of " + repr(t))


def shift(v, n):
    return Lay(v.axes, {k: ("shr", t, n) if n else t for k, t in v.data.items()}, v.bits)


def mask(v, m):
    if m == 1:
        return Lay(v.axes, {k: bit_of(t, 0) for k, t in v.data.items()}, v.bits)
    if m > 0 and m & (m - 1) == 0:
        b = m.bit_length() - 1
        return Lay(v.axes, {k: ("masked", bit_of(t, b)) for k, t in v.data.items()}, v.bits)
    if m == 255:
        return v
    raise Unknown("mask")


def nonzero(v):
    out = {}
    for k, t in v.data.items():
        if t[0] == "masked":
            out[k] = t[1]
        elif t[0] == "bit":
            out[k] = t
        else:
            raise Unknown("nonzero of " + repr(t))
    return Lay(v.axes, out, 8)


def storeat(v, i, w):
    raise Unknown("store")
