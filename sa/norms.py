"""Extra equivalences used when comparing terms (each states its assumption)."""
from . import terms as X
from .terms import mk, num, const, ZERO, ONE


def zero_test(c):
    """(b, True) if condition c means b == 0, (b, False) if it means b != 0 (b >= 0)."""
    neg = False
    if c.op == "not":
        c = c.a[0]
        neg = True
    if c.op == "cmp":
        op, x, y = c.a
        if op == "==" and (x is ZERO or y is ZERO):
            return (y if x is ZERO else x), not neg
        if op == "<" and x is ZERO:
            return y, neg
        if op == "<=" and y is ZERO:
            return x, not neg
    if c.op == "truth":
        return c.a[0], neg
    return None


def guarded(P):
    """b when P is b + (b == 0) (or max(b, 1) for a count b), else None."""
    if P.op in ("call", "ext") and P.op == "call" and P.a[0].op == "ext" and P.a[0].a[0] in (
            "numpy.maximum", "builtins.max", "numpy.fmax"):
        ar = [x for x in X.subterms(P.a[1]) if x is not P.a[1]]
        top = list(P.a[1].a)
        if len(top) == 2 and any(t is ONE or (t.op == "num" and t.a[0] == 1) for t in top):
            b = [t for t in top if not (t.op == "num" and t.a[0] == 1)]
            if len(b) == 1 and not any(t.op == "sinv" for t in ar):
                return b[0]
        return None
    if P.op in ("ite", "sel"):
        z = zero_test(P.a[0])
        if z:
            b, iszero = z
            one, other = (P.a[1], P.a[2]) if iszero else (P.a[2], P.a[1])
            if one.op == "num" and one.a[0] != 0 and other is b:
                return b
        return None
    if P.op != "poly":
        return None
    p = X.poly_of(P)
    for m, cf in p.items():
        if cf == 1 and len(m) == 1 and m[0][1] == 1:
            z = zero_test(m[0][0]) if m[0][0].op in ("cmp", "not", "truth") else None
            if z and z[1]:
                rest = dict(p)
                del rest[m]
                if X.from_poly(rest) is z[0]:
                    return z[0]
    return None


def ratio(t):
    """a / (b + (b == 0)), `0 if b == 0 else a / b`, ... -> a * sinv(b)   (0 <= a <= b)."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        ch = [go(c) if isinstance(c, X.T) else c for c in x.a]
        y = X.rebuild(x.op, ch) if any(p is not q for p, q in zip(ch, x.a)) else x
        if y.op == "poly":
            p = X.poly_of(y)
            new = X.ZERO
            hit = False
            for m, cf in p.items():
                t = num(cf)
                tests = {}
                for f, e in m:
                    z = zero_test(f) if f.op in ("cmp", "not", "truth") else None
                    if z and not z[1] and e > 0 and any(g is z[0] and h < 0 for g, h in m):
                        tests[f] = z[0]
                for f, e in m:
                    if f in tests:
                        hit = True
                        continue
                    if e < 0 and f in tests.values():
                        for _ in range(-e):
                            t = X.mul(t, mk("sinv", f))
                        continue
                    b = guarded(f) if e < 0 else None
                    if b is not None:
                        hit = True
                        for _ in range(-e):
                            t = X.mul(t, mk("sinv", b))
                    else:
                        for _ in range(abs(e)):
                            t = X.mul(t, f if e > 0 else X.inv(f))
                new = X.add(new, t)
            if hit:
                y = new
        elif y.op in ("ite", "sel"):
            z = zero_test(y.a[0])
            if z:
                b, iszero = z
                zv, nz = (y.a[1], y.a[2]) if iszero else (y.a[2], y.a[1])
                if zv is ZERO or (zv.op == "num" and zv.a[0] == 0):
                    s = mk("sinv", b)
                    nz2 = swap_inv(nz, b, s)
                    if nz2 is not None:
                        y = nz2
        memo[x] = y
        return y

    return go(t)


def swap_inv(t, b, s):
    """t with 1/b replaced by s in every monomial, None when some monomial lacks it."""
    if t.op == "ite":
        a, c = swap_inv(t.a[1], b, s), swap_inv(t.a[2], b, s)
        return X.ite(t.a[0], a, c) if a is not None and c is not None else None
    p = X.poly_of(t)
    out = ZERO
    fb = X.poly_of(b)
    for m, cf in p.items():
        q = num(cf)
        hit = False
        for f, e in m:
            if f is b and e < 0 or (f is s and e > 0):
                hit = True
                for _ in range(abs(e)):
                    q = X.mul(q, s)
            else:
                for _ in range(abs(e)):
                    q = X.mul(q, f if e > 0 else X.inv(f))
        if not hit:
            return None
        out = X.add(out, q)
    return out


def one_dim(*syms):
    """The given arrays are one-dimensional float arrays."""
    def f(t):
        def leaf(x):
            if x.op == "attr" and x.a[0] in syms:
                if x.a[1] == "shape":
                    return mk("tuple", X.length(x.a[0]))
                if x.a[1] == "size":
                    return X.length(x.a[0])
                if x.a[1] == "dtype":
                    return mk("ext", "builtins.float")
            return None
        t = X.subst(t, leaf)

        def leaf2(x):
            if x.op == "zeros" and x.a[0].op == "len":
                return mk("zeros", mk("tuple", x.a[0]), *x.a[1:])
            return None
        t = X.subst(t, leaf2)

        # one value per entry: list of values, array of values or filled zeros
        def plain(x):
            if x.op == "tab" and x.a[0].op == "zeros" and x.a[0].a[0].op == "tuple" and len(
                    x.a[0].a[0].a) == 1 and x.a[0].a[0].a[0] is x.a[1] and x.a[2].op == "bv" and x.a[2].a[0] == 0:
                return mk("maplist", x.a[1], plain_all(x.a[3]), X.TRUE)
            if x.op == "index" and x.a[1].op == "tuple" and len(x.a[1].a) == 2:
                i, k = x.a[1].a
                if i.op == "slice" and all(y.op == "none" for y in i.a) and k.op == "num":
                    v = unwrap(x.a[0])
                    if v.op == "maplist" and v.a[2] is X.TRUE and v.a[1].op in ("tuple", "list", "ite"):
                        return mk("maplist", v.a[0], plain_all(X.index(v.a[1], k)), X.TRUE)
            v = unwrap(x)
            if v is not x and v.op == "maplist":
                return plain_all(v)
            return None

        def plain_all(t):
            return X.subst(t, plain)
        return plain_all(t)
    return f


def unwrap(x):
    """array(...) / astype(float) around a list of numbers."""
    while True:
        if x.op == "astype" and x.a[1].op == "ext" and x.a[1].a[0] in (
                "builtins.float", "numpy.float64", "numpy.float_"):
            x = x.a[0]
        elif x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in (
                "numpy.array", "numpy.asarray") and len(x.a[1].a) == 1 and x.a[1].a[0].op in (
                    "maplist", "list"):
            x = x.a[1].a[0]
        else:
            return x


def zip_len(pick):
    """zip over arrays of which one is known to be as long as all the others."""
    def f(t):
        return X.subst(t, lambda x: next((y for y in x.a if pick(y)), None) if x.op == "minlen" else None)
    return f


def chain(*fs):
    def f(t):
        for g in fs:
            t = g(t)
        return t
    return f


def no_zeros(t):
    """x + zeros(shape of x) -> x."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        ch = [go(c) if isinstance(c, X.T) else c for c in x.a]
        y = X.rebuild(x.op, ch) if any(p is not q for p, q in zip(ch, x.a)) else x
        if y.op == "poly":
            p = X.poly_of(y)
            q = {m: k for m, k in p.items() if not (len(m) == 1 and m[0][0].op == "zeros")}
            if q and len(q) != len(p):
                y = X.from_poly(q)
        elif y.op == "copied":
            y = y.a[0]
        elif y.op == "shared":  # a new shared array holds zeros
            y = mk("zeros", mk("tuple", y.a[1]), X.NONE)
        memo[x] = y
        return y
    return go(t)


def bottom_up(f):
    """Apply the local rewriting f to every subterm, children first."""
    def run(t):
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            ch = [go(c) if isinstance(c, X.T) else c for c in x.a]
            y = X.rebuild(x.op, ch) if any(p is not q for p, q in zip(ch, x.a)) else x
            z = f(y)
            if z is not None and z is not y:
                y = go(z) if z not in memo else memo[z]
            memo[x] = y
            return y
        return go(t)
    return run


def binary_masks(m, g):
    """m is a 0/1 mask, g a non-negative mask: conditions on them are M and G."""
    M, G = mk("sym", "in mask", "bool"), mk("sym", "ignored", "bool")

    def atom(x):
        """truth of 'x is positive' / 'x is not zero' for x built from m and g"""
        if x is m:
            return M
        if x is g:
            return G
        if x.op in ("astype", "asarray", "copied"):
            return atom(x.a[0])
        if x is M or x is G or x.op in ("and", "or", "not"):
            return x
        if x.op in ("bor",):
            ps = [atom(y) for y in x.a]
            return X.or_(*ps) if all(ps) else None
        if x.op == "poly":
            p = X.poly_of(x)
            one = p.get((), 0)
            ps = []
            for mo, c in p.items():
                if mo == ():
                    continue
                if len(mo) != 1 or mo[0][1] != 1:
                    return None
                ps.append((mo[0][0], c))
            if one == 0 and all(c > 0 for _, c in ps):
                qs = [atom(y) for y, _ in ps]
                return X.or_(*qs) if all(qs) else None
            if one == 1 and len(ps) == 1 and ps[0][1] == -1 and ps[0][0] in (m, M):
                return X.not_(M)
        return None

    def f(x):
        if x.op == "cmp":
            o, a, b = x.a
            if o == "<" and a is ZERO:
                return atom(b)
            if o == "<=" and b is ZERO:
                r = atom(a)
                return X.not_(r) if r is not None else None
            if o == "<=" and a is ONE and b is m:
                return M
            if o == "==" and (a is ZERO or b is ZERO):
                r = atom(b if a is ZERO else a)
                return X.not_(r) if r is not None else None
            if o == "==" and (a is ONE or b is ONE) and m in (a, b):
                return M
            if o == "<" and b is ONE and a is m:
                return X.not_(M)
        if x.op in ("any", "all") and not X.boolish(x.a[0]):
            r = atom(x.a[0])
            return mk(x.op, r) if r is not None else None
        if x.op == "truth":
            return atom(x.a[0])
        if x.op in ("and", "or", "not") and any(y in (m, g) for y in x.a):
            return X.rebuild(x.op, [atom(y) or y for y in x.a])
        if x.op == "index" and x.a[1].op in ("not", "and", "or", "sym", "cmp"):
            return None
        return None
    return bottom_up(f), atom


def distances(m, g, quality):
    """Both distance transform back ends -> dt(set)."""
    rewrite, atom = binary_masks(m, g)

    def setof(x):
        if x.op in ("astype", "asarray", "copied"):
            return setof(x.a[0])
        if X.boolish(x):
            return x
        return atom(x)

    def isinf(x):
        if x.op != "full":
            return False
        v = x.a[1]
        return v.op == "ext" and v.a[0] in ("numpy.inf", "math.inf", "numpy.Inf") or v.op == "call" and any(
            y.op == "str" and y.a[0] in ("inf", "Infinity") for y in X.subterms(v))

    def f(x):
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "cv2.distanceTransform":
            ar = list(x.a[1].a)
            kw = {x.a[2].a[i]: x.a[2].a[i + 1] for i in range(0, len(x.a[2].a), 2)}
            if not kw and len(ar) == 3 and ar[1].op == "ext" and ar[1].a[0] == "cv2.DIST_L2" and (
                    ar[2] is quality or ar[2] is ZERO):
                s = setof(ar[0])
                if s is not None:
                    return mk("dt", s)
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0].endswith("distance_transform_edt"):
            if len(x.a[1].a) == 1 and not x.a[2].a:
                s = setof(x.a[1].a[0])
                if s is not None:
                    return mk("edt", s)
        if x.op == "ite":
            c, a, b = x.a
            for d, i, cc in ((a, b, c), (b, a, X.not_(c))):
                if d.op == "edt" and isinf(i):
                    s = d.a[0]
                    if cc is mk("any", X.not_(s)) or X.not_(cc) is mk("all", s):
                        return mk("dt", s)
        return None
    return chain(rewrite, bottom_up(f), bottom_up(positive))


def positive(x):
    """0 < c*t (c a condition, t >= 0) -> c and 0 < t;  conditions inside are simplified."""
    if x.op == "cmp" and x.a[0] == "<" and x.a[1] is ZERO and x.a[2].op == "dt":
        return x.a[2].a[0]
    if x.op == "cmp" and x.a[0] == "<" and x.a[1] is ZERO and x.a[2].op in ("poly", "mono", "sel"):
        y = x.a[2]
        if y.op == "poly":
            # a distance to the outside of a region is positive exactly inside the region
            p = X.poly_of(y)
            if all(cf > 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "dt" for m, cf in p.items()):
                return X.or_(*[m[0][0].a[0] for m in p])
        if y.op == "sel":
            c, a, b = y.a
            if b is ZERO:
                return X.and_(c, X.cmp_("<", ZERO, a))
            if a is ZERO:
                return X.and_(X.not_(c), X.cmp_("<", ZERO, b))
            return None
        p = X.poly_of(y)
        common = None
        for m in p:
            s = {f for f, e in m if X.boolish(f) and e > 0}
            common = s if common is None else common & s
        if not common:
            return None
        rest = {}
        for m, cf in p.items():
            mm = tuple((f, e) for f, e in m if f not in common)
            rest[mm] = rest.get(mm, 0) + cf
        r = X.from_poly(rest)
        if () in rest and len(rest) == 1 and rest[()] > 0:
            return X.and_(*common)
        return conj(list(common) + [X.cmp_("<", ZERO, r)])
    if x.op == "and":
        y = conj(list(x.a))
        return y if y is not x else None
    return None


def pointwise(x):
    return x.op in ("cmp", "poly", "mono", "sel", "and", "or", "not", "sym", "bool", "num", "astype", "ite")


def conj(cs):
    """Conjunction in which each condition is simplified under the others."""
    out = []
    for c in cs:
        out.extend(c.a if c.op == "and" else [c])
    for k in range(len(out)):
        others = {o for j, o in enumerate(out) if j != k}

        def leaf(y):
            if y in others:
                return X.TRUE
            if X.boolish(y) and X.not_(y) in others:
                return X.FALSE
            return None
        c = out[k]
        if c.op in ("cmp",):
            n = X.subst(c, lambda y: None if y is c else leaf(y), pred=pointwise)
            if n is not c:
                n = X.subst(n, lambda y: num(1) if y is X.TRUE else ZERO if y is X.FALSE else None,
                            pred=pointwise)
            out[k] = n
    return X.and_(*out)


def five_digit_ids(t):
    """Decimal identifiers of at most five digits: text and arithmetic forms agree."""
    def digits(x):
        """value of a decimal text and its width (None: unpadded)"""
        if x.op == "tostr":
            return x.a[0], None
        if x.op == "zfill" and x.a[0].op == "tostr" and x.a[1].op == "num":
            return x.a[0].a[0], int(x.a[1].a[0])
        if x.op == "str" and x.a[0].isdecimal():
            return num(int(x.a[0])), len(x.a[0])
        return None

    def f(x):
        if x.op in ("floordiv", "mod_") and x.a[1].op == "num" and x.a[1].a[0] == 1000 and x.a[0].op == "int":
            return mk(x.op, x.a[0].a[0], x.a[1])
        if x.op != "int":
            return None
        y = x.a[0]
        if y.op in ("floordiv", "mod_"):
            return y
        if y.op == "index" and y.a[0].op == "sym" and y.a[1].op in ("bv", "iv", "num"):
            return y  # labels and instance numbers are integers
        d = digits(y)
        if d:
            return d[0]
        if y.op == "cat" and len(y.a) == 2:
            p, q = digits(y.a[0]), digits(y.a[1])
            if p and q and q[1]:
                return X.add(X.mul(p[0], num(10 ** q[1])), q[0])
        if y.op == "index" and y.a[1].op == "slice":
            d = digits(y.a[0])
            lo, hi, st = y.a[1].a
            if d and d[1] == 5 and st.op == "none":
                if lo.op == "none" and hi.op == "num" and (hi.a[0] == 2 or hi.a[0] == -3):
                    return mk("floordiv", d[0], num(1000))
                if hi.op == "none" and lo.op == "num" and (lo.a[0] == 2 or lo.a[0] == -3):
                    return mk("mod_", d[0], num(1000))
            if d and d[1] is None and st.op == "none":
                # the last three digits are dropped or kept whatever the length
                if hi.op == "none" and lo.op == "num" and lo.a[0] == -3:
                    return mk("mod_", d[0], num(1000))
        return None
    return bottom_up(f)(t)


def ext_call(x, *names):
    """(positional, keywords) of a call of one of the named library functions, or None."""
    if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in names:
        kw = {}
        for i in range(0, len(x.a[2].a), 2):
            k = x.a[2].a[i]
            kw[k.a[0] if isinstance(k, X.T) else k] = x.a[2].a[i + 1]
        return list(x.a[1].a), kw
    return None


def axis_of(args, kw, pos=1):
    if len(args) > pos:
        return args[pos]
    return kw.get("axis")


def label_stacks(t):
    """Non-negative label and edge stacks: reductions over an axis, filled arrays, stacked masks."""
    def anyaxis(y):
        if y.op == "sumaxis":
            return mk("anyaxis", y.a[0], y.a[1])
        r = ext_call(y, "numpy.max", "numpy.any", "numpy.count_nonzero", "numpy.amax",
                     "numpy.logical_or.reduce", "numpy.bitwise_or.reduce", "numpy.maximum.reduce")
        if r and axis_of(*r) is not None and set(r[1]) <= {"axis"}:
            return mk("anyaxis", r[0][0], axis_of(*r))
        if r and y.a[0].a[0].endswith(".reduce") and len(r[0]) == 1 and not r[1]:
            return mk("anyaxis", r[0][0], ZERO)
        return None

    def stack(x):
        """(n, body) of masks stacked along a new first axis, values as 0/1"""
        if x.op == "astype" and dt(x.a[1]):
            return stack(x.a[0])
        if x.op == "maskstack":
            return x.a[0], x.a[1]
        if x.op in ("asarray", "copied"):
            return stack(x.a[0])
        r = ext_call(x, "numpy.array", "numpy.asarray", "numpy.stack")
        if r and r[0] and r[0][0].op == "maplist" and r[0][0].a[2] is X.TRUE and set(r[1]) <= {"axis", "dtype"}:
            ax = axis_of(r[0], r[1]) if x.a[0].a[0] == "numpy.stack" else None
            d = r[1].get("dtype") or (r[0][1] if x.a[0].a[0] != "numpy.stack" and len(r[0]) > 1 else None)
            if (ax is None or ax is ZERO) and (d is None or dt(d)):
                return r[0][0].a[0], plain(r[0][0].a[1])
        if x.op == "tab" and x.a[0].op == "zeros" and x.a[2].op == "bv" and x.a[2].a[0] == 0:
            sh = x.a[0].a[0]
            if sh.op == "concat":
                sh = mk("tuple", *sh.a[0].a) if sh.a and sh.a[0].op in ("tuple", "list") else sh
            if sh.op == "tuple" and sh.a and sh.a[0] is x.a[1]:
                return x.a[1], plain(x.a[3])
        return None

    def dt(d):
        return d.op == "ext" and d.a[0] in ("numpy.uint8", "builtins.int", "numpy.int32", "numpy.int64",
                                            "numpy.uint16")

    def listed(x):
        """masks of an array built from a written-out list"""
        while x.op == "astype" and dt(x.a[1]) or x.op in ("asarray", "copied"):
            x = x.a[0]
        r = ext_call(x, "numpy.array", "numpy.asarray", "numpy.stack")
        if r and r[0] and r[0][0].op in ("list", "tuple") and set(r[1]) <= {"axis", "dtype"}:
            ax = axis_of(r[0], r[1]) if x.a[0].a[0] == "numpy.stack" else None
            d = r[1].get("dtype") or (r[0][1] if x.a[0].a[0] != "numpy.stack" and len(r[0]) > 1 else None)
            ms = [plain(y) for y in r[0][0].a]
            if (ax is None or ax is ZERO) and (d is None or dt(d)) and all(X.boolish(y) for y in ms):
                return ms
        return None

    def plain(b):
        while b.op == "astype" and (dt(b.a[1]) or b.a[1].op == "ext" and b.a[1].a[0].endswith("bool")):
            b = b.a[0]
        return b

    def f(x):
        if x.op == "cmp" and (x.a[0] == "<" and x.a[1] is ZERO):
            return anyaxis(x.a[2])
        if x.op == "cmp" and x.a[0] == "<=" and x.a[1] is ONE:
            return anyaxis(x.a[2])
        if x.op == "not" and x.a[0].op == "cmp" and x.a[0].a[0] == "==" and ZERO in x.a[0].a[1:]:
            return anyaxis(x.a[0].a[2] if x.a[0].a[1] is ZERO else x.a[0].a[1])
        if x.op == "call":
            r = ext_call(x, "numpy.any", "numpy.logical_or.reduce")
            if r:
                return anyaxis(x)
        if x.op == "poly":
            p = X.poly_of(x)
            if len(p) == 1:
                ((m, c),) = p.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "full" and m[0][0].a[1].op == "num":
                    y = m[0][0]
                    return mk("full", y.a[0], num(c * y.a[1].a[0]))
        if x.op == "index" and x.a[1].op == "num" and x.a[0].op in ("astype", "call", "asarray", "copied"):
            ms = listed(x.a[0])
            if ms is not None and isinstance(x.a[1].a[0], int) and -len(ms) <= x.a[1].a[0] < len(ms):
                return ms[x.a[1].a[0]]
        if x.op == "len" and x.a[0].op in ("astype", "call", "asarray", "copied"):
            ms = listed(x.a[0])
            if ms is not None:
                return num(len(ms))
        if x.op in ("astype", "call", "tab"):
            r = stack(x)
            if r is not None and X.boolish(r[1]):
                return mk("maskstack", *r)
        return None
    return bottom_up(f)(t)


ELEM = mk("sym", "any element", "int")


def is_max(x):
    return x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in (
        "numpy.max", "numpy.amax", "builtins.max") and len(x.a[1].a) == 1


def scalarish(t):
    return t.op in ("num", "bv", "iv") or t.op == "index" and t.a[1].op in ("bv", "iv", "num") and (
        t.a[0].op == "call" and t.a[0].a[0].op == "ext" and t.a[0].a[0].a[0] in ("numpy.linspace", "numpy.arange"))


def lower(c):
    """The condition an element of the mask c stands for (None: not a comparison of arrays with scalars)."""
    if c.op == "cmp":
        ps = [p if scalarish(p) else X.index(p, ELEM) for p in c.a[1:]]
        return X.cmp_(c.a[0], *ps)
    if c.op == "not":
        d = lower(c.a[0])
        return None if d is None else X.not_(d)
    if c.op in ("and", "or"):
        ds = [lower(d) for d in c.a]
        return None if None in ds else (X.and_ if c.op == "and" else X.or_)(*ds)
    return None


def maxima(t):
    """One form for the largest non-negative entry of an array among those that satisfy a condition (a default when
    there is none): masked maximum, filtered list, guarded maximum, maximum of the masked product."""
    def dflt(x):
        kw = dict(zip(x.a[2].a[::2], x.a[2].a[1::2]))
        if not kw:
            return X.NONE
        if len(kw) == 1 and list(kw)[0] in ("initial", "default"):
            return list(kw.values())[0]
        return None

    def f(x):
        if is_max(x):
            d = dflt(x)
            if d is None:
                return None
            v = x.a[1].a[0]
            if v.op == "tolist":
                v = v.a[0]
            if v.op == "index" and v.a[1].op in ("cmp", "and", "or", "not"):
                c = lower(v.a[1])
                if c is not None:
                    return mk("maxl", X.index(v.a[0], ELEM), c, d)
            if v.op == "maplist":
                return mk("maxl", X.instantiate(v.a[1], ELEM), X.instantiate(v.a[2], ELEM), d)
            p = X.poly_of(v)
            if len(p) == 1:
                (mono, cf), = p.items()
                cs = [fe[0] for fe in mono if fe[0].op == "cmp"]
                if len(cs) == 1 and lower(cs[0]) is not None:
                    rest = X.from_poly({tuple(fe for fe in mono if fe[0] is not cs[0]): cf})
                    return mk("maxl", X.index(rest, ELEM), lower(cs[0]), ZERO)
        if x.op == "ite":
            for c, a, b in ((x.a[0], x.a[1], x.a[2]), (X.not_(x.a[0]), x.a[2], x.a[1])):
                if c.op == "any" and lower(c.a[0]) is not None:
                    lc = lower(c.a[0])
                    ms = [y for y in X.subterms(a) if y.op == "maxl" and y.a[1] is lc and y.a[2].op == "none"]
                    if len(ms) == 1 and not b.nbv > a.nbv:
                        m = ms[0]
                        z = X.subst(a, lambda y: ZERO if y is m else None)
                        if z is b:
                            w = mk("maxl", m.a[0], m.a[1], ZERO)
                            return X.subst(a, lambda y: w if y is m else None)
        return None
    return bottom_up(f)(t)


def frames(t):
    """Borders overwritten along the edges of an image, in any order and spelling."""
    NONE = X.NONE

    def plain(s):
        return s.op == "slice" and s.a[0].op == "none" and s.a[1].op == "none" and s.a[2].op == "none"

    def extent(x, group):
        """(axis, offset) of a bound counted from the far end, given the arrays of one chain"""
        if x.op == "num":
            return (None, x.a[0])
        p = X.poly_of(x) if x.op == "poly" else {((x, 1),): 1}
        off, ax = p.get((), 0), None
        for m, c in p.items():
            if m == ():
                continue
            if len(m) != 1 or m[0][1] != 1 or c != 1 or ax is not None:
                return None
            e = m[0][0]
            if e.op == "len" and e.a[0] in group:
                ax = 0
            elif e.op == "index" and e.a[0].op == "attr" and e.a[0].a[1] == "shape" and e.a[0].a[0] in group and \
                    e.a[1].op == "num" and e.a[1].a[0] in (0, 1, -1, -2):
                ax = e.a[1].a[0] % 2
            else:
                return None
        return (ax, off)

    def band(s, axis, group):
        """("start"|"end", width) of a slice along an axis"""
        if s.op != "slice" or s.a[2].op != "none":
            return None
        lo = extent(s.a[0], group) if s.a[0].op != "none" else (None, 0)
        hi = extent(s.a[1], group) if s.a[1].op != "none" else (axis, 0)
        if lo is None or hi is None or lo[0] not in (None, axis) or hi[0] not in (None, axis):
            return None
        if lo == (None, 0) and hi[0] is None and hi[1] > 0:
            return ("start", hi[1])
        if hi == (axis, 0) and (lo[0] == axis and lo[1] < 0 or lo[0] is None and lo[1] < 0):
            return ("end", -lo[1])
        return None

    def inner(s, axis, group):
        """(k, m): the slice leaves out k in front and m behind"""
        if s.op != "slice" or s.a[2].op != "none":
            return None
        lo = extent(s.a[0], group) if s.a[0].op != "none" else (None, 0)
        hi = extent(s.a[1], group) if s.a[1].op != "none" else (axis, 0)
        if lo is None or hi is None or lo[0] is not None or lo[1] < 0:
            return None
        if hi[0] == axis and hi[1] <= 0 or hi[0] is None and hi[1] < 0:
            return (lo[1], -hi[1])
        return None

    def f(x):
        if x.op != "store":
            return None
        ch, b = [], x
        while b.op == "store":
            ch.append(b)
            b = b.a[0]
        group = set(ch) | {b}
        g = b
        while g.op in ("astype", "asarray", "copied"):
            g = g.a[0]
            group.add(g)
        if g.op == "poly":
            p = X.poly_of(g)
            if len(p) == 1:
                group |= {fe[0] for m in p for fe in m}
        vals = {y.a[2] for y in ch}
        if len(ch) == 1 and b.op in ("zeros", "full") and x.a[1].op == "tuple" and len(x.a[1].a) == 2:
            v = x.a[2]
            if v.op == "index" and v.a[1] is x.a[1]:
                y = v.a[0]
                group = {y, b, x}
                ks = [inner(s, k, group) for k, s in enumerate(x.a[1].a)]
                if None not in ks:
                    fill = X.num(0) if b.op == "zeros" else b.a[1]
                    it = [(k, w, n) for k, p in enumerate(ks) for w, n in zip(("start", "end"), p) if n]
                    return X.mk("framed", y, X.const(repr(sorted(it))), fill)
            return None
        if len(vals) != 1 or not all(v.op in ("num", "sym") for v in vals):
            return None
        it = set()
        for y in ch:
            k = y.a[1]
            parts = list(k.a) if k.op == "tuple" else [k]
            parts = [q for q in parts if q.op != "ellipsis"] if len(parts) > 1 and parts[-1].op == "ellipsis" else parts
            if parts and parts[0].op == "ellipsis" and len(parts) == 2:
                parts = [X.mk("slice", NONE, NONE, NONE), parts[1]]
            hit = None
            for ax, s in enumerate(parts):
                if plain(s):
                    continue
                r = band(s, ax, group)
                if r is None or hit:
                    return None
                hit = (ax,) + r
            if hit is None or len(parts) > 2:
                return None
            it.add(hit)
        return X.mk("framed", b, X.const(repr(sorted(it))), vals.pop())

    def top(t, seen):
        """outermost stores first"""
        if t in seen:
            return seen[t]
        r = f(t) if t.op == "store" else None
        if r is not None:
            r = X.mk("framed", top(r.a[0], seen), *r.a[1:])
        else:
            ch = [top(c, seen) if isinstance(c, X.T) else c for c in t.a]
            r = X.rebuild(t.op, ch) if any(p is not q for p, q in zip(ch, t.a)) else t
        seen[t] = r
        return r
    return top(t, {})


def annotators(t):
    """One way of naming the annotations in a ground-truth file: a 1 x n table of 1 x 1 records."""
    def table(x):
        return (x.op == "index" and x.a[1] is const("groundTruth") and x.a[0].op == "call" and
                x.a[0].a[0].op == "ext" and x.a[0].a[0].a[0].endswith("loadmat"))

    def row(x):
        """the table whose only row x is"""
        if x.op == "index" and table(x.a[0]) and (x.a[1] is ZERO or x.a[1].op == "tuple" and len(x.a[1].a) == 2 and (
                x.a[1].a[0] is ZERO and x.a[1].a[1].op == "slice" and all(z is X.NONE for z in x.a[1].a[1].a))):
            return x.a[0]
        if x.op == "attr" and x.a[1] == "flat" and table(x.a[0]):
            return x.a[0]
        if x.op == "method" and x.a[0] in ("ravel", "flatten") and table(x.a[1]):
            return x.a[1]
        if x.op in ("ravel", "flat") and table(x.a[0]):
            return x.a[0]
        return None

    def local(x):
        if x.op == "len" and row(x.a[0]) is not None:
            return X.index(X.attr(row(x.a[0]), "shape"), X.ONE)
        if x.op == "attr" and x.a[1] == "size" and table(x.a[0]):
            return X.index(X.attr(x.a[0], "shape"), X.ONE)
        if x.op == "index" and row(x.a[0]) is not None and x.a[1].op not in ("slice", "tuple"):
            return mk("index", row(x.a[0]), mk("tuple", ZERO, x.a[1]))
        if x.op == "method" and x.a[0] == "item" and x.a[1].op == "index" and x.a[1].a[1] is const("Boundaries"):
            return mk("index", x.a[1], mk("tuple", ZERO, ZERO))
        if x.op == "index" and x.a[1] is ZERO and x.a[0].op == "index" and x.a[0].a[1] is ZERO and (
                x.a[0].a[0].op == "index" and x.a[0].a[0].a[1] is const("Boundaries")):
            return mk("index", x.a[0].a[0], mk("tuple", ZERO, ZERO))
        return x
    return bottom_up(local)(t)
