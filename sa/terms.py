"""Value terms: a hash-consed value graph with semantic-preserving normal forms
(commutative sums and products, boolean structure, string/path concatenation, loop
summaries as binders).  Two program fragments that compute the same thing by
reordering, renaming, extracting helpers or respelling an operation get one term."""
import hashlib
from fractions import Fraction

_TABLE = {}


class T:
    __slots__ = ("op", "a", "key", "fiv", "nbv", "loc", "refs", "mus")

    def __repr__(self):
        return pretty(self)

    def __lt__(self, o):
        return self.key < o.key


CUR_LOC = [None]


def mk(op, *args):
    k = (op,) + tuple(
        id(x) if isinstance(x, T) else (type(x).__name__, x) for x in args
    )
    t = _TABLE.get(k)
    if t is not None:
        if t.loc is None:
            t.loc = CUR_LOC[0]
        return t
    t = T()
    t.op = op
    t.a = args
    h = hashlib.md5(op.encode())
    fiv = None
    nbv = 0
    refs = False
    mus = None
    for x in args:
        if isinstance(x, T):
            h.update(x.key)
            if x.fiv:
                fiv = x.fiv if fiv is None else fiv | x.fiv
            if x.nbv > nbv:
                nbv = x.nbv
            refs = refs or x.refs
            if x.mus:
                mus = x.mus if mus is None else mus | x.mus
        else:
            h.update(repr(x).encode() + b"|")
    if op == "iv":
        fiv = frozenset([args[0]])
    if op == "mu":
        mus = frozenset([t])
    if op == "bv":
        nbv = args[0] + 1
    if op == "ref":
        refs = True
    if op in BINDERS:
        nbv = max(0, nbv - 1)  # conservative bound
    t.key = h.digest()
    t.fiv = fiv or frozenset()
    t.nbv = nbv
    t.refs = refs
    t.mus = mus or frozenset()
    t.loc = CUR_LOC[0]
    _TABLE[k] = t
    return t


# op -> positions of arguments that live under the binder
BINDERS = {
    "reduce": (3,),  # op, init, dom, body
    "maplist": (1, 2),  # dom, body, filter
    "tabacc": (2, 3),  # init, dom, idx, body   arr[idx(i)] = body(i) of what is there so far (SOFAR)
    "tab": (2, 3),  # init, dom, idx, body      array with arr[idx(i)] = body(i)
    "lam": (0,),  # body (loop recurrences, flatmap)
    "exists": (1,),  # dom, condition
    "maskstack": (1,),  # number, mask
    "until": (1,),  # dom, stop condition
    "firstwhere": (1, 2),  # dom, condition, value
    "lastval": (2,),  # dom, init, value
    "lastwhere": (2, 3),  # dom, init, condition, value
    "elast": (2, 3),  # dom, init, mask, value   (elementwise lastwhere)
    "argbest": (4, 6),  # rel, dom, init_f, init_x, body_f, sel, body_x
    "mdict": (1, 2),  # dom, key, value
}


def binder_positions(op, n):
    return BINDERS[op]


def num(v):
    return mk("num", v)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float)):
        return mk("num", v)
    if isinstance(v, str):
        return mk("str", v)
    if isinstance(v, bytes):
        return mk("bytes", v)
    if v is Ellipsis:
        return mk("ellipsis")
    if isinstance(v, complex):
        return mk("complex", repr(v))
    raise TypeError(v)


NONE = mk("none")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNDEF = mk("undef")
ZERO = mk("num", 0)
ONE = mk("num", 1)
EMPTY = mk("str", "")


def distinct_in(idx, ivn):
    """Different rounds ivn give different indices."""
    if idx.op == "tuple":
        return any(distinct_in(x, ivn) for x in idx.a)
    if idx.op == "index" and idx.a[0].op in ("list", "tuple") and idx.a[1].op == "iv" and idx.a[1].a[0] == ivn:
        return len({x.key for x in idx.a[0].a}) == len(idx.a[0].a) and all(map(is_const, idx.a[0].a))
    own = None
    for m in poly_of(idx):
        if any(ivn in f.fiv for f, _ in m):
            if own is not None or len(m) != 1 or m[0][1] != 1 or m[0][0].op != "iv":
                return False
            own = m
    return own is not None


def is_const(t):
    return t.op in ("num", "str", "bool", "none")


def pyval(t):
    """Python value of a closed constant term, or raises KeyError."""
    if t.op in ("num", "str", "bool"):
        return t.a[0]
    if t.op == "none":
        return None
    if t.op in ("list", "tuple", "set"):
        v = [pyval(x) for x in t.a]
        return v if t.op == "list" else tuple(v)
    if t.op == "dict":
        return {
            pyval(t.a[i]): pyval(t.a[i + 1]) for i in range(0, len(t.a), 2)
        }
    raise KeyError(t.op)


# ---------------------------------------------------------------- substitution
def rebuild(op, args):
    """Re-normalise a term whose arguments changed."""
    f = _SMART.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def subst(t, fn, memo=None, pred=None):
    """Replace leaves: fn(term) returns a replacement or None.  Not for binder-
    sensitive replacement (the replacements must be closed w.r.t. bv)."""
    memo = {} if memo is None else memo

    def go(x):
        if pred is not None and not pred(x):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        y = fn(x)
        if y is None:
            ch = False
            na = []
            for c in x.a:
                if isinstance(c, T):
                    d = go(c)
                    ch = ch or d is not c
                    na.append(d)
                else:
                    na.append(c)
            y = rebuild(x.op, na) if ch else x
        memo[x] = y
        return y

    return go(t)


def abstract(t, ivn):
    """iv(ivn) -> bv bound by an enclosing binder to be added."""
    memo = {}

    def go(x, d):
        if ivn not in x.fiv:
            return x
        k = (x, d)
        r = memo.get(k)
        if r is not None:
            return r
        if x.op == "iv":
            r = mk("bv", d)
        else:
            pos = binder_positions(x.op, len(x.a)) if x.op in BINDERS else ()
            na = [
                go(c, d + (1 if i in pos else 0)) if isinstance(c, T) else c
                for i, c in enumerate(x.a)
            ]
            r = rebuild(x.op, na)
        memo[k] = r
        return r

    return go(t, 0)


def instantiate(t, v):
    """Replace bv 0 of a binder body by v (v must have no loose bv)."""
    memo = {}

    def go(x, d):
        if x.nbv <= d and not _has_bv(x, d):
            return x
        k = (x, d)
        r = memo.get(k)
        if r is not None:
            return r
        if x.op == "bv":
            r = v if x.a[0] == d else (mk("bv", x.a[0] - 1) if x.a[0] > d else x)
        else:
            pos = binder_positions(x.op, len(x.a)) if x.op in BINDERS else ()
            na = [
                go(c, d + (1 if i in pos else 0)) if isinstance(c, T) else c
                for i, c in enumerate(x.a)
            ]
            r = rebuild(x.op, na)
        memo[k] = r
        return r

    return go(t, 0)


_BVMEMO = {}


def _has_bv(x, d):
    """Does x contain a bv with index >= d loose (under its own binders)?"""
    k = (x, d)
    r = _BVMEMO.get(k)
    if r is not None:
        return r
    if x.op == "bv":
        r = x.a[0] >= d
    else:
        pos = binder_positions(x.op, len(x.a)) if x.op in BINDERS else ()
        r = any(
            isinstance(c, T) and _has_bv(c, d + (1 if i in pos else 0))
            for i, c in enumerate(x.a)
        )
    _BVMEMO[k] = r
    return r


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for c in x.a:
            if isinstance(c, T):
                st.append(c)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# ---------------------------------------------------------------- smart constructors
STRUCT = ("tuple", "list", "dict", "obj", "maplist")
NONNUM = {
    "str", "cat", "join", "list", "tuple", "maplist", "concat", "dict", "none",
    "tostr", "zfill", "fmt", "set", "bytes", "dstore",
}
BOOLISH = {"any", "all", "cmp", "not", "and", "or", "bool", "isinst", "truth", "exists"}


BOOL_FNS = set()  # functions known to return boolean arrays


def boolish(t):
    if t.op in BOOLISH:
        return True
    if t.op == "sym" and t.a[1] in ("bool", "barray"):
        return True
    if t.op == "zeros":
        return _isbool_dtype(t.a[1])
    if t.op == "call" and t.a[0].op == "fn" and t.a[0].a[0] in BOOL_FNS:
        return True
    if t.op == "ite":
        return boolish(t.a[1]) and boolish(t.a[2])
    if t.op == "sel":
        return boolish(t.a[1]) and boolish(t.a[2])
    if t.op == "reduce" and t.a[0] in ("or", "and"):
        return True
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in (
        "numpy.isin", "numpy.isnan", "numpy.isfinite", "numpy.array_equal",
        "builtins.isinstance", "builtins.callable", "builtins.hasattr",
        "os.path.isfile", "os.path.isdir",
    ):
        return True
    if t.op == "method" and t.a[0] in ("startswith", "endswith"):
        return True
    if t.op in ("any", "all"):
        return True
    if t.op == "astype" and t.a[1].op == "ext" and t.a[1].a[0] in ("builtins.bool", "numpy.bool", "numpy.bool_"):
        return True
    if t.op == "index" and boolish(t.a[0]) and t.a[0].op != "bool":
        return True
    return False


def poly_of(t):
    """-> dict mono(tuple of (factor, exp)) -> coeff"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        r = {}
        for i in range(0, len(t.a), 2):
            c, m = t.a[i], t.a[i + 1]
            r[mono_of(m)] = c.a[0]
        return r
    return {((t, 1),): 1}


def mono_of(m):
    return tuple((m.a[i], m.a[i + 1]) for i in range(0, len(m.a), 2))


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        ((m, c),) = p.items()
        if m == ():
            if isinstance(c, Fraction):
                c = float(c) if c.denominator != 1 else int(c)
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    args = []
    for m, c in sorted(p.items(), key=lambda mc: [(f.key, e) for f, e in mc[0]]):
        if isinstance(c, Fraction):
            c = float(c) if c.denominator != 1 else int(c)
        if isinstance(c, float) and c == int(c) and abs(c) < 1e15:
            c = int(c)
        flat = []
        for f, e in m:
            flat += [f, e]
        args += [num(c), mk("mono", *flat)]
    return mk("poly", *args)


def mono_mul(m1, m2):
    d = {}
    for f, e in m1 + m2:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(((f, e) for f, e in d.items() if e), key=lambda fe: fe[0].key))


def _cmul(a, b):
    return a * b


def add(*ts):
    r = {}
    for t in ts:
        for m, c in poly_of(t).items():
            r[m] = r.get(m, 0) + c
    return from_poly(r)


def mul(a, b):
    pa, pb = poly_of(a), poly_of(b)
    if len(pa) * len(pb) > 64:
        return mk("poly", num(1), mk("mono", *sum(([f, 1] for f in sorted((a, b))), [])))
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + _cmul(c1, c2)
    return from_poly(r)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def inv(b):
    pb = poly_of(b)
    if len(pb) == 1:
        ((m, c),) = pb.items()
        if c:
            if m == ():
                return num(1 / c)
            r = {tuple((f, -e) for f, e in m): (1 / c if c not in (1, -1) else c)}
            return from_poly(r)
    return from_poly({((b, -1),): 1})


def div(a, b):
    if a.op == "num" and b.op == "num" and b.a[0] != 0:
        return num(a.a[0] / b.a[0])
    return mul(a, inv(b))


SOFAR = mk("sym", "<what is there so far>", "any")


def mk_poly(*args):
    # rebuild
    r = ZERO
    for i in range(0, len(args), 2):
        c, m = args[i], args[i + 1]
        t = c
        if m.op == "num":
            t = mul(t, m)
        else:
            t = mul(t, m) if m.op != "mono" else mul(t, mono_term(m))
        r = add(r, t)
    return r


def mono_term(m):
    t = ONE
    for f, e in mono_of(m):
        for _ in range(abs(e)):
            t = mul(t, f if e > 0 else inv(f))
    return t


def mk_mono(*args):
    return mk("mono", *args)


def cmp_(op, a, b):
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    if a.op in ("num", "str", "bool") and b.op in ("num", "str", "bool"):
        x, y = a.a[0], b.a[0]
        try:
            return const(
                {"<": lambda: x < y, "<=": lambda: x <= y, "==": lambda: x == y,
                 "!=": lambda: x != y, "is": lambda: x is y or x == y,
                 "isnot": lambda: x != y}[op]()
            )
        except TypeError:
            pass
    if op in ("is", "isnot", "==", "!="):
        r = None
        if a is b and a.op not in ("call",):
            r = True
        elif a.op == "none" and never_none(b) or b.op == "none" and never_none(a):
            r = False
        elif a.op in ("cls", "fn", "ext") and b.op in ("cls", "fn", "ext"):
            r = a is b
        if r is not None:
            return const(r if op in ("is", "==") else not r)
        if a.op == b.op == "tuple" and op in ("==", "!=") and not any(
                x.op in ("star", "concat") for x in a.a + b.a):
            r = FALSE if len(a.a) != len(b.a) else and_(*[cmp_("==", x, y) for x, y in zip(a.a, b.a)])
            return r if op == "==" else not_(r)
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and (is_const(x.a[1]) or is_const(x.a[2])) and (is_const(y)):
            p, q = (x.a[1], y), (x.a[2], y)
            if x is b:
                p, q = (y, x.a[1]), (y, x.a[2])
            return ite(x.a[0], cmp_(op, *p), cmp_(op, *q))
    if op == "isnot":
        return not_(cmp_("is", a, b))
    if op in ("==", "is", "!=") and b.key < a.key:
        a, b = b, a
    # non-negative values: x == 0 is x <= 0
    if op in ("==", "!=") and (a is ZERO and nonneg(b) or b is ZERO and nonneg(a)):
        x = b if a is ZERO else a
        return mk("cmp", "<=", x, ZERO) if op == "==" else mk("cmp", "<", ZERO, x)
    if op == "<" and b is ONE and integral(a):
        return mk("cmp", "<=", a, ZERO)
    if op == "<=" and a is ONE and integral(b):
        return mk("cmp", "<", ZERO, b)
    if op == "!=":
        return not_(mk("cmp", "==", a, b))
    return mk("cmp", op, a, b)


NONNEG_FNS = set()  # functions whose array results are never negative


def integral(t):
    return t.op in ("len", "count")


def nonneg(t):
    if t.op in ("len", "count"):
        return True
    if t.op == "index" and t.a[0].op == "call":
        f = t.a[0].a[0]
        return f.op == "fn" and f.a[0] in NONNEG_FNS
    return False


NEVER_NONE = {
    "num", "str", "bool", "list", "tuple", "dict", "cat", "join", "maplist", "obj",
    "ref", "fn", "cls", "poly", "cmp", "not", "and", "or", "concat", "tostr",
    "zfill", "fmt", "closure", "partial", "bound", "zeros", "tab", "store", "len",
    "sum", "count", "mod", "ext", "astype", "dstore", "isinst", "reduce", "enter",
}


def never_none(t):
    if t.op == "sym":
        return t.a[1] not in ("any", "opt")
    if t.op == "ite":
        return never_none(t.a[1]) and never_none(t.a[2])
    if t.op == "method" and t.a[0] in ("lower", "upper", "strip", "rstrip", "lstrip", "casefold"):
        return True
    return t.op in NEVER_NONE


def not_(a):
    if a.op == "bool":
        return const(not a.a[0])
    if a.op == "not":
        return a.a[0]
    if a.op == "cmp" and a.a[0] in ("<", "<="):
        # (for ordered operands: NaN-free thresholds, distances and sizes)
        op, x, y = a.a
        return cmp_("<=" if op == "<" else "<", y, x)
    if a.op == "and":
        return or_(*[not_(x) for x in a.a])
    if a.op == "or":
        return and_(*[not_(x) for x in a.a])
    if a.op == "none":
        return TRUE
    if a.op in ("num", "str"):
        return const(not a.a[0])
    return mk("not", a)


def and_(*ts):
    out = []
    for t in ts:
        for x in t.a if t.op == "and" else (t,):
            if x.op == "bool":
                if not x.a[0]:
                    return FALSE
                continue
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if any(x.op == "or" for x in out):
        # absorption: A and (not A or B) = A and B;  A and (A or B) = A
        new = []
        for x in out:
            if x.op != "or":
                new.append(x)
                continue
            if any(d in out for d in x.a):
                continue
            new.append(or_(*[d for d in x.a if not_(d) not in out]))
        if new != out:
            return and_(*new)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out))


def or_(*ts):
    out = []
    for t in ts:
        for x in t.a if t.op == "or" else (t,):
            if x.op == "bool":
                if x.a[0]:
                    return TRUE
                continue
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
    if any(x.op == "and" for x in out):
        new = []
        for x in out:
            if x.op != "and":
                new.append(x)
                continue
            if any(d in out for d in x.a):
                continue
            new.append(and_(*[d for d in x.a if not_(d) not in out]))
        if new != out:
            return or_(*new)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out))


def truth(t):
    """Python truthiness of a term, as a boolean term."""
    if t.op == "bool":
        return t
    if t.op == "none":
        return FALSE
    if t.op in ("num", "str"):
        return const(bool(t.a[0]))
    if t.op in ("list", "tuple", "dict", "set"):
        return const(len(t.a) > 0)
    if t.op in ("fn", "cls", "mod", "ext", "bound", "closure", "partial", "obj", "ref"):
        return TRUE
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if boolish(t):
        return t
    if t.op == "sym" and t.a[1] == "bool":
        return t
    if t.op == "cat" and any(x.op == "str" and x.a[0] for x in t.a):
        return TRUE
    if t.op == "join" and any(truth(x) is TRUE for x in t.a):
        return TRUE
    if t.op == "pyor":
        return or_(*[truth(x) for x in t.a])
    if t.op == "len":
        return cmp_("<", ZERO, t)
    if t.op == "count":
        return mk_any(t.a[0])
    return mk("truth", t)


def assume(c, t, val):
    """Simplify t knowing boolean term c is val (shallow: on ite spines)."""
    if t is c:
        return const(val)
    if t.op == "ite":
        cc = t.a[0]
        if cc is c:
            return assume(c, t.a[1] if val else t.a[2], val)
        if cc is not_(c):
            return assume(c, t.a[2] if val else t.a[1], val)
        a, b = assume(c, t.a[1], val), assume(c, t.a[2], val)
        if a is not t.a[1] or b is not t.a[2]:
            return ite(cc, a, b)
        return t
    if t.op == "truth" and c.op == "truth" and t is c:
        return const(val)
    return t


def ite(c, a, b):
    if c.op == "bool":
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    # canonical orientation of comparison conditions (key order of c / not c)
    n = not_(c)
    if n.op != "not" and n.key < c.key and n.op in ("cmp", "and", "or"):
        return ite_raw(n, b, a)
    return ite_raw(c, a, b)


def ite_raw(c, a, b):
    a = assume(c, a, True)
    b = assume(c, b, False)
    if a is b:
        return a
    if a.op == "bool" and b.op == "bool":
        return c if a.a[0] else not_(c)
    if a.op == "bool" and boolish(b):
        return or_(c, b) if a.a[0] else and_(not_(c), b)
    if b.op == "bool" and boolish(a):
        return or_(not_(c), a) if b.a[0] else and_(c, a)
    if a.op == b.op and a.op in ("tuple",) and len(a.a) == len(b.a):
        return mk(a.op, *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == b.op == "dict" and a.a[::2] == b.a[::2]:
        args = []
        for i in range(0, len(a.a), 2):
            args += [a.a[i], ite(c, a.a[i + 1], b.a[i + 1])]
        return mk("dict", *args)
    if a.op == b.op == "obj" and a.a[0] == b.a[0]:
        da, db = obj_attrs(a), obj_attrs(b)
        keys = sorted(set(da) | set(db))
        return mk_obj(
            a.a[0], {k: ite(c, da.get(k, UNDEF), db.get(k, UNDEF)) for k in keys}
        )
    if a.op == b.op == "tuple":
        pass
    # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
    if b.op == "ite" and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if b.op == "ite" and b.a[2] is a:
        return ite(or_(c, not_(b.a[0])), a, b.a[1])
    if a.op == "ite" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    if a.op == "ite" and a.a[1] is b:
        return ite(and_(c, not_(a.a[0])), a.a[2], b)
    return mk("ite", c, a, b)


def sel(c, a, b):
    """Elementwise selection (numpy.where, masked assignment)."""
    if c.op == "bool":
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == "not":
        return sel(c.a[0], b, a)
    n = not_(c)
    if n.op != "not" and n.key < c.key and n.op in ("cmp", "and", "or"):
        c, a, b = n, b, a
    # the branch is only read where its condition holds
    if a.op == "index" and a.a[1] is c:
        a = a.a[0]
    if b.op == "index" and b.a[1] is not_(c):
        b = b.a[0]
    if a.op == "sel" and a.a[0] is c:
        a = a.a[1]
    if b.op == "sel" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    za = a is ZERO or a is FALSE or a.op == "num" and a.a[0] == 0
    zb = b is ZERO or b is FALSE or b.op == "num" and b.a[0] == 0
    oa = a is TRUE or a.op == "num" and a.a[0] == 1
    ob = b is TRUE or b.op == "num" and b.a[0] == 1
    za = za or a.op == "zeros"
    zb = zb or b.op == "zeros"
    if oa and zb:
        return c
    if za and ob:
        return not_(c)
    if zb:
        return and_(c, a) if boolish(a) else mul(c, a)
    if za:
        return and_(not_(c), b) if boolish(b) else mul(not_(c), b)
    if oa and boolish(b):
        return or_(c, b)
    if ob and boolish(a):
        return or_(not_(c), a)
    # disjoint masks commute
    if b.op == "sel" and _disjoint(c, b.a[0]) and b.a[0].key < c.key:
        return sel(b.a[0], b.a[1], sel(c, a, b.a[2]))
    return mk("sel", c, a, b)


def _disjoint(c, d):
    if c.op == d.op == "cmp" and c.a[0] == d.a[0] == "==":
        for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            for u, v in ((d.a[1], d.a[2]), (d.a[2], d.a[1])):
                if x is u and is_const(y) and is_const(v) and y is not v:
                    return True
    return False


def obj_attrs(o):
    return {o.a[i]: o.a[i + 1] for i in range(1, len(o.a), 2)}


def mk_obj(cls, d):
    args = [cls]
    for k in sorted(d):
        args += [k, d[k]]
    return mk("obj", *args)


def dict_items(d):
    return [(d.a[i], d.a[i + 1]) for i in range(0, len(d.a), 2)]


def mk_dict(items):
    out = {}
    for k, v in items:
        out[k] = v
    args = []
    for k, v in out.items():
        args += [k, v]
    return mk("dict", *args)


SHAPES = {}  # symbols of known shape
SUM_ROWS = False  # a sum over the first axis is the sum of the rows of a list


def length(x):
    if x.op == "flatnz":
        return mk("count", x.a[0])
    if x.op in ("list", "tuple", "set"):
        if all(e.op != "star" for e in x.a):
            return num(len(x.a))
    if x.op == "dict":
        return num(len(x.a) // 2)
    if x.op == "str":
        return num(len(x.a[0]))
    if x.op == "maplist" and x.a[2] is TRUE:
        return x.a[0]
    if x.op == "tolist":
        return length(x.a[0])
    if x.op == "concat":
        return add(*[length(y) for y in x.a])
    if x.op == "ite":
        return ite(x.a[0], length(x.a[1]), length(x.a[2]))
    if x.op in ("tab", "tabacc", "store"):
        return length(x.a[0])
    if x.op == "zeros":
        sh = x.a[0]
        if sh.op == "tuple" and sh.a:
            return sh.a[0]
        if sh.op == "concat" and sh.a[0].op in ("tuple", "list") and sh.a[0].a and sh.a[0].a[0].op != "star":
            return sh.a[0].a[0]
        if sh.op == "attr" and sh.a[1] == "shape":
            return length(sh.a[0])
        if sh.op in ("num", "len", "sym"):
            return sh
    if x.op == "range":
        return x.a[0]
    if x in SHAPES:
        return SHAPES[x].a[0]
    if x.op == "attr" and x.a[1] == "shape":
        return mk("attr", x.a[0], "ndim")
    if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "numpy.linspace" and len(
            x.a[1].a) == 3:
        return x.a[1].a[2]
    return mk("len", x)


def is_scalar_index(i):
    return i.op in ("num", "iv", "bv", "poly", "len", "index", "sym", "argmax", "dkey") and not (
        i.op == "sym" and i.a[1] == "array"
    )


def index(o, i):
    if o in (TRUE, FALSE):
        return o  # an element of an array of one constant truth value
    if SUM_ROWS and o.op == "reduce" and o.a[0] == "+" and o.a[1] is ZERO and i.op in ("num", "iv", "argmax", "bv"):
        n, v = o.a[2], mk("iv", -977)
        return reduce_("+", ZERO, n, abstract(index(instantiate(o.a[3], v), i), -977)) if not i.nbv else mk("index", o, i)
    if i.op == "flatnz":
        return index(o, i.a[0])  # x[np.flatnonzero(mask)] is x[mask]
    if o.op == "index" and o.a[1].op == "slice" and i.op == "num" and isinstance(i.a[0], int) and i.a[0] >= 0:
        lo, hi, stp = o.a[1].a
        if stp.op == "none" and hi.op == "none" and lo.op == "num" and lo.a[0] >= 0:
            return index(o.a[0], num(lo.a[0] + i.a[0]))
    if o.op == "ite":
        if any(x.op in STRUCT + ("zeros", "tab", "store", "dstore", "none") for x in (o.a[1], o.a[2])):
            return ite(o.a[0], index(o.a[1], i), index(o.a[2], i))
    if i.op == "ite" and (o.op in STRUCT) :
        return ite(i.a[0], index(o, i.a[1]), index(o, i.a[2]))
    if o.op in ("list", "tuple") and i.op == "num" and isinstance(i.a[0], int):
        if -len(o.a) <= i.a[0] < len(o.a) and all(e.op != "star" for e in o.a):
            return o.a[i.a[0]]
    if o.op == "concat" and i.op == "num" and isinstance(i.a[0], int) and i.a[0] >= 0 and o.a and o.a[0].op in (
            "list", "tuple") and all(e.op != "star" for e in o.a[0].a) and i.a[0] < len(o.a[0].a):
        return o.a[0].a[i.a[0]]
    if o.op in ("list", "tuple") and i.op == "slice" and all(
        x.op in ("num", "none") for x in i.a
    ):
        s = slice(*[None if x.op == "none" else x.a[0] for x in i.a])
        return mk(o.op, *o.a[s])
    if o.op == "str" and i.op == "num":
        try:
            return const(o.a[0][i.a[0]])
        except IndexError:
            pass
    if o.op == "str" and i.op == "slice" and all(
        x.op == "none" or x.op == "num" and isinstance(x.a[0], int) for x in i.a
    ):
        return const(o.a[0][slice(*[None if x.op == "none" else x.a[0] for x in i.a])])
    if o.op == "dict":
        for k, v in dict_items(o):
            if k is i:
                return v
            if k.op == "num" and i.op == "num" and k.a[0] == i.a[0]:
                return v
    if o.op == "dstore":
        if o.a[1] is i:
            return o.a[2]
        if is_const(o.a[1]) and is_const(i):
            return index(o.a[0], i)
    if o.op == "maplist" and o.a[2] is TRUE and is_scalar_index(i):
        return instantiate(o.a[1], i)
    if o.op == "tolist":
        return index(o.a[0], i)
    if o.op == "range" and is_scalar_index(i):
        return add(o.a[1], mul(o.a[2], i))
    if o.op == "store":
        if o.a[1] is i:
            return o.a[2]
        if o.a[1].op == "num" and i.op == "num":
            return index(o.a[0], i)
        if o.a[1].op == i.op == "tuple" and len(i.a) == len(o.a[1].a) and any(
                p.op == q.op == "num" and p is not q and (p.a[0] < 0) == (q.a[0] < 0)
                for p, q in zip(i.a, o.a[1].a)):
            return index(o.a[0], i)
    if o.op == "tab" and is_scalar_index(i):
        if o.a[2].op == "bv" and o.a[2].a[0] == 0:
            return instantiate(o.a[3], i)
    if o.op == "zeros" and is_scalar_index(i) and _rank1(o):
        return FALSE if _isbool_dtype(o.a[1]) else ZERO
    if o.op == "zeros" and is_scalar_index(i) and o.a[0].op == "concat" and (
            o.a[0].a[0].op in ("tuple", "list") and o.a[0].a[0].a):
        head, rest = o.a[0].a[0], o.a[0].a[1:]  # a plane of zeros
        if head.a[1:]:
            rest = (mk(head.op, *head.a[1:]),) + rest
        if len(rest) == 1:
            rest = rest[0]
            if rest.op == "tolist" and rest.a[0].op == "attr" and rest.a[0].a[1] == "shape":
                rest = rest.a[0]
            return mk("zeros", rest, *o.a[1:])
    if o.op == "attr" and o.a[1] == "shape" and i.op == "num" and i.a[0] == 0:
        return length(o.a[0])
    if i.op == "slice" and all(x.op == "none" for x in i.a) and o.op in (
        "tolist", "maplist", "list"
    ):
        return o
    if i.op == "num" and i.a[0].__class__ is int and o.op == "index" and o.a[1].op == "slice":
        lo, hi, stp = o.a[1].a
        if stp.op == "none" and (lo.op == "none" or lo is ZERO) and hi.op == "num" and (
                0 <= i.a[0] < hi.a[0]):
            return index(o.a[0], i)
    # a[i][j] on arrays
    return mk("index", o, i)


def _isbool_dtype(d):
    return d.op == "ext" and d.a[0] in ("builtins.bool", "numpy.bool", "numpy.bool_")


def _rank1(z):
    sh = z.a[0]
    if sh.op == "tuple":
        return len(sh.a) == 1
    if sh.op == "concat":
        return False
    return True  # zeros(n) / zeros(x.shape): callers index by the full rank


def cat(*parts):
    out = []
    for p in parts:
        for x in p.a if p.op == "cat" else (p,):
            if x.op == "tostr" and x.a[0].op in ("str", "cat", "join"):
                x = x.a[0]
            if x.op == "tostr" and x.a[0].op == "num" and isinstance(x.a[0].a[0], int):
                x = const(str(x.a[0].a[0]))
            if x.op == "str" and out and out[-1].op == "str":
                out[-1] = const(out[-1].a[0] + x.a[0])
            elif x.op == "str" and x.a[0] == "":
                continue
            elif x.op == "cat":
                out.extend(x.a)
            else:
                out.append(x)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    for k, x in enumerate(out):
        if x.op == "ite" and (is_const(x.a[1]) or x.a[1].op == "cat") and (is_const(x.a[2]) or x.a[2].op == "cat"):
            return ite(
                x.a[0],
                cat(*out[:k], x.a[1], *out[k + 1 :]),
                cat(*out[:k], x.a[2], *out[k + 1 :]),
            )
    return mk("cat", *out)


def tostr(x):
    if x.op in ("str", "cat", "tostr", "zfill", "fmt", "join"):
        return x
    if x.op == "num" and isinstance(x.a[0], int):
        return const(str(x.a[0]))
    if x.op == "ite":
        return ite(x.a[0], tostr(x.a[1]), tostr(x.a[2]))
    if x.op == "sym" and x.a[1] in ("str", "word"):
        return x
    if x.op == "index" and x.a[0].op == "sym" and x.a[0].a[1] == "strlist":
        return x
    return mk("tostr", x)


def join(*parts):
    out = []
    for p in parts:
        if p.op == "join":
            out.extend(p.a)
        elif p.op == "str" and out and out[-1].op == "str":
            a = out[-1].a[0]
            b = p.a[0]
            if b.startswith("/"):
                out = [p]
            else:
                out[-1] = const(a.rstrip("/") + "/" + b if a else b)
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    # the text "a/b" built by joining or by concatenation is one path
    flat = []
    for k, p in enumerate(out):
        if k:
            flat.append(mk("sep"))
        flat.append(p)
    res = []
    for p in flat:
        if p.op == "str" and "/" in p.a[0]:
            for j, seg in enumerate(p.a[0].split("/")):
                if j:
                    res.append(mk("sep"))
                if seg:
                    res.append(const(seg))
        elif p.op == "cat":
            res.append(p)
        else:
            res.append(p)
    segs = []
    cur = []
    for p in res:
        if p.op == "sep":
            segs.append(cat(*cur) if cur else EMPTY)
            cur = []
        else:
            cur.append(p)
    segs.append(cat(*cur) if cur else EMPTY)
    segs = [segs[0]] + [s for s in segs[1:] if s is not EMPTY]
    # split segments whose text contains "/"
    fin = []
    for s in segs:
        if s.op == "cat":
            cur = []
            for x in s.a:
                if x.op == "str" and "/" in x.a[0]:
                    bits = x.a[0].split("/")
                    for j, bb in enumerate(bits):
                        if j:
                            fin.append(cat(*cur))
                            cur = []
                        if bb:
                            cur.append(const(bb))
                else:
                    cur.append(x)
            fin.append(cat(*cur))
        else:
            fin.append(s)
    return mk("join", *fin)


def bor(a, b):
    if boolish(a) and boolish(b):
        return or_(a, b)
    if a.op == "num" and b.op == "num" and isinstance(a.a[0], int):
        return num(a.a[0] | b.a[0])
    out = []
    for t in (a, b):
        out.extend(t.a if t.op == "bor" else (t,))
    u = []
    for x in out:
        if x is ZERO or x is FALSE or (x.op == "zeros"):
            continue
        if x not in u:
            u.append(x)
    if not u:
        return a
    if len(u) == 1:
        return u[0]
    return mk("bor", *sorted(u))


def band(a, b):
    if boolish(a) and boolish(b):
        return and_(a, b)
    if a.op == "num" and b.op == "num" and isinstance(a.a[0], int):
        return num(a.a[0] & b.a[0])
    out = []
    for t in (a, b):
        out.extend(t.a if t.op == "band" else (t,))
    u = []
    for x in out:
        if x not in u:
            u.append(x)
    if len(u) == 1:
        return u[0]
    return mk("band", *sorted(u))


def total(x):
    """sum over all elements"""
    if x.op == "ite":
        return ite(x.a[0], total(x.a[1]), total(x.a[2]))
    if boolish(x):
        return mk("count", x)
    if x.op == "maplist":
        f = x.a[2]
        body = x.a[1] if f is TRUE else mk("ite", f, x.a[1], ZERO)
        return reduce_("+", ZERO, x.a[0], body)
    return mk("sum", x)


def mk_any(x):
    if x.op == "cmp" and x.a[0] == "<" and x.a[1] is ZERO and nonneg(x.a[2]):
        return mk_any(x.a[2])
    if x.op == "not" and x.a[0].op == "cmp" and x.a[0].a[0] == "==" and ZERO in x.a[0].a[1:]:
        y = x.a[0]
        return mk_any(y.a[1] if y.a[2] is ZERO else y.a[2])
    if x.op == "ite":
        return ite(x.a[0], mk_any(x.a[1]), mk_any(x.a[2]))
    if x.op == "zeros":
        return FALSE
    return mk("any", x)


def reduce_(op, init, dom, body):
    if dom is ZERO:
        return init
    if op == "+":
        if init.op == "zeros" or init is FALSE:
            init = ZERO
        if body is ZERO:
            return init
        # pull constant factor out
        p = poly_of(body)
        if len(p) == 1:
            ((m, c),) = p.items()
            if c != 1 and m != ():
                return add(init, mul(num(c), reduce_("+", ZERO, dom, from_poly({m: 1}))))
        r = mk("reduce", "+", ZERO, dom, body)
        if init is ZERO:
            return r
        return add(init, r)
    if op in ("bor", "band") and boolish(body) and (boolish(init) or init.op == "zeros"):
        op = op[1:]
    if op in ("or", "bor") and (init.op == "zeros" or init is ZERO):
        init = FALSE
    return mk("reduce", op, init, dom, body)


DTYPE_KEPT = {"numpy.pad", "numpy.flip", "numpy.fliplr", "numpy.flipud", "numpy.roll", "numpy.clip",
              "numpy.ascontiguousarray", "numpy.copy"}


def attr(o, name):
    if o.op == "flatnz" and name == "size":
        return mk("count", o.a[0])
    if o.op == "ite":
        return ite(o.a[0], attr(o.a[1], name), attr(o.a[2], name))
    if o in SHAPES and name == "shape":
        return SHAPES[o]
    if o in SHAPES and name == "ndim":
        return num(len(SHAPES[o].a))
    if name in ("dtype", "ndim") and o.op == "call" and o.a[0].op == "ext" and o.a[0].a[0] in DTYPE_KEPT and o.a[1].a \
            and not any(o.a[2].a[i] in ("dtype", "out") for i in range(0, len(o.a[2].a), 2)):
        return attr(o.a[1].a[0], name)
    if name == "dtype" and o.op == "astype":
        return o.a[1]
    if name == "dtype" and o.op in ("copied", "store"):
        return attr(o.a[0], name)
    if name == "ndim":
        if o.op == "astype":
            return attr(o.a[0], "ndim")
        if o.op == "zeros" and o.a[0].op == "attr" and o.a[0].a[1] == "shape":
            return attr(o.a[0].a[0], "ndim")
        if o.op == "zeros" and o.a[0].op == "tuple" and all(x.op not in ("concat", "star") for x in o.a[0].a):
            return num(len(o.a[0].a))
    if name == "shape":
        if o.op in ("cmp", "not"):
            arrs = [x for x in o.a if isinstance(x, T) and x.op not in ("num",)]
            if o.op == "not" or (len(arrs) == 2 and (arrs[1].op in ("index",) or is_scalarish(arrs[1]))):
                return attr(arrs[0], "shape")
            if len(arrs) == 2 and is_scalarish(arrs[0]):
                return attr(arrs[1], "shape")
            if len(arrs) == 1:
                return attr(arrs[0], "shape")
        if o.op == "zeros":
            sh = o.a[0]
            if sh.op in ("tuple", "attr", "concat"):
                return sh
        if o.op in ("astype",):
            return attr(o.a[0], "shape")
        if o.op in ("tab", "tabacc", "store"):
            return attr(o.a[0], "shape")
        if o.op == "reduce":
            pass
    return mk("attr", o, name)


def is_scalarish(t):
    return t.op in ("iv", "bv") or (
        t.op == "index" and (t.a[1].op in ("iv", "bv", "num"))
    )


def astype(x, d):
    if x.op == "ite":
        return ite(x.a[0], astype(x.a[1], d), astype(x.a[2], d))
    if SUM_ROWS and d.a and d.a[0] in ("builtins.float", "numpy.float64", "float64", "float"):
        return x  # counts and what is computed from them: the same numbers
    return mk("astype", x, d)


_SMART = {
    "poly": mk_poly,
    "mono": mk_mono,
    "cmp": cmp_,
    "not": not_,
    "and": and_,
    "or": or_,
    "truth": truth,
    "ite": ite,
    "sel": sel,
    "index": index,
    "cat": cat,
    "tostr": tostr,
    "join": join,
    "len": length,
    "bor": bor if False else (lambda *a: _fold(bor, a)),
    "band": lambda *a: _fold(band, a),
    "sum": total,
    "count": lambda x: mk("count", x),
    "reduce": reduce_,
    "attr": attr,
    "astype": astype,
}


def _fold(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


# ---------------------------------------------------------------- printing
def pretty(t, depth=9, width=400):
    s = _pp(t, depth)
    return s if len(s) <= width else s[: width - 3] + "..."


def _pp(t, d):
    if not isinstance(t, T):
        return repr(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    P = lambda x: _pp(x, d - 1)
    if o == "num":
        return repr(a[0])
    if o == "str":
        return repr(a[0])
    if o == "bool":
        return str(a[0])
    if o == "none":
        return "None"
    if o == "sym":
        return a[0]
    if o in ("fn", "cls", "ext", "mod"):
        return a[0].split(".")[-1] if o in ("fn", "cls") else a[0]
    if o == "iv":
        return f"i{a[0]}"
    if o == "bv":
        return f"#{a[0]}"
    if o == "mu":
        return f"prev({a[1]})"
    if o == "ref":
        return f"&{a[0]}"
    if o == "index":
        return f"{P(a[0])}[{P(a[1])}]"
    if o == "attr":
        return f"{P(a[0])}.{a[1]}"
    if o == "slice":
        return ":".join("" if x.op == "none" else P(x) for x in a)
    if o == "poly":
        out = []
        for i in range(0, len(a), 2):
            c, m = a[i].a[0], a[i + 1]
            if m.op == "num":
                fs = [P(m)]
            else:
                fs = [
                    (_pp(f, d - 1) + ("" if e == 1 else f"^{e}"))
                    for f, e in mono_of(m)
                ]
            if c != 1 or not fs:
                fs = [repr(c)] + fs
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if o == "cmp":
        return f"({P(a[1])} {a[0]} {P(a[2])})"
    if o == "not":
        return f"not {P(a[0])}"
    if o in ("and", "or", "bor", "band"):
        return "(" + f" {o} ".join(P(x) for x in a) + ")"
    if o == "ite":
        return f"({P(a[1])} if {P(a[0])} else {P(a[2])})"
    if o == "call":
        return f"{P(a[0])}({_ppargs(a[1], a[2], d)})"
    if o == "method":
        return f"{P(a[1])}.{a[0]}({_ppargs(a[2], a[3], d)})"
    if o in ("list", "tuple", "set"):
        return o + "(" + ", ".join(P(x) for x in a) + ")"
    if o == "dict":
        return "{" + ", ".join(f"{P(k)}: {P(v)}" for k, v in dict_items(t)) + "}"
    if o == "cat":
        return "~".join(P(x) for x in a)
    if o == "join":
        return "/".join(P(x) for x in a)
    if o == "reduce":
        return f"fold[{a[0]}]({P(a[1])}; i<{P(a[2])}: {P(a[3])})"
    if o == "maplist":
        return f"[{P(a[1])} for i<{P(a[0])}{'' if a[2] is TRUE else ' if ' + P(a[2])}]"
    return o + "(" + ", ".join(P(x) for x in a) + ")"


def _ppargs(A, K, d):
    out = [_pp(x, d - 1) for x in A.a]
    for i in range(0, len(K.a), 2):
        out.append(f"{K.a[i]}={_pp(K.a[i + 1], d - 1)}")
    return ", ".join(out)
