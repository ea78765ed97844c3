"""The native sources' arrays as the interpreter meets them: every read and write with its place, condition and loops."""
from . import cpp
from . import terms as X
from .terms import mk, const, num, NONE, TRUE, FALSE
from .linear import Prover, callee
from .vg import Interp

WRITES = ("__store__", "__update__", "__fill__", "__push__", "__put__", "__resize__")


class Lost(Exception):
    """The shape is not one the rules read: undecided."""


class Bad(Exception):
    """The rule is broken here."""

    def __init__(self, op, text, key=""):
        Exception.__init__(self, text)
        self.op, self.text, self.key = op, text, key


class Op:
    """One read or write: kind, array, index terms, value, condition, loops [(variable, count)], place."""

    def __repr__(self):
        return f"{self.kind} {self.array} {self.idx} {self.val} L{self.line}"


def name_of(a):
    return a.a[0] if a.op in ("carr", "cvec", "sym") else "?"


class Native(Interp):
    def __init__(self, ix, opaque=()):
        Interp.__init__(self, ix, opaque=list(opaque))
        self.ops = []
        self.count = {}
        self.dims = {}
        self.whole = {}  # output parameter -> the array it became

    def declared(self, name, line, typ, dims):
        k = 0
        while True:
            a = mk("carr", name, line, typ, k)
            if self.dims.setdefault(a, dims) == dims:
                return a
            k += 1

    def array(self, a):
        return self.whole.get(a, a)

    def native(self, n, args, kw, st, node):
        A = [self.deep(st, a) for a in args]
        if n == "__array__":
            return self.declared(A[0].a[0], getattr(node, "lineno", 0), A[1].a[0], tuple(A[2:]))
        if n == "__vector__":
            return mk("cvec", A[0].a[0], getattr(node, "lineno", 0), A[1].a[0])
        if n == "__dim__":
            a = self.array(A[0])
            k = A[1].a[0]
            if a.op == "carr":
                return self.dims[a][k]
            return mk("native", "__dim__", mk("tuple", a, num(k)))
        if n == "__store__" and len(A) == 2:
            if not self.mute:
                b = self.array(A[1])
                if self.loopctx or A[0] in self.whole or b.op not in ("carr", "sym"):
                    raise Lost(f"line {getattr(node, 'lineno', 0)}: an output replaced conditionally or twice")
                copy = b is not A[1] or b.op == "sym" or self.count.get(b)
                if b.op == "carr":
                    line, typ, dims = b.a[1], b.a[2], self.dims[b]
                else:
                    line, typ = getattr(node, "lineno", 0), "Matrix"
                    dims = tuple(mk("native", "__dim__", mk("tuple", b, num(k))) for k in (0, 1))
                self.whole[A[0]] = self.declared(name_of(A[0]), line, typ, dims)
                o = self.note("__copy__" if copy else "__new__", self.whole[A[0]], [], b if copy else None, st, node)
                o.guard = X.and_(self.guard(), st.pc)
            return NONE
        if n in ("__load__", "__item__", "__size__"):
            a = self.array(A[0])
            val = mk("load" if n == "__load__" else n.strip("_"), a, mk("tuple", *A[1:]), num(self.count.get(a, 0)))
            o = self.note(n, a, A[1:], val, st, node)
            return val
        if n in WRITES:
            a = self.array(A[0])
            if n == "__store__":
                idx, val = A[1:-1], A[-1]
            elif n == "__update__":
                idx, val = A[1:-2], mk("tuple", *A[-2:])
            elif n == "__put__":
                idx, val = A[1:-1], A[-1]
            else:
                idx, val = [], A[-1] if A[1:] else NONE
            self.note(n, a, idx, val, st, node)
            if not self.mute:
                self.count[a] = self.count.get(a, 0) + 1
            return NONE
        val = mk("native", n, mk("tuple", *A))
        self.note(n, None, A, val, st, node)
        return val

    def s_Break(self, s, st):
        if self.loopctx:
            self.note("__break__", None, [], NONE, st, s)
        return Interp.s_Break(self, s, st)

    def s_Return(self, s, st):
        if self.loopctx and getattr(s, "_in_loop", False):
            self.note("__break__", None, [], NONE, st, s)
        return Interp.s_Return(self, s, st)

    def note(self, kind, a, idx, val, st, node):
        o = Op()
        o.kind, o.array, o.idx, o.val = kind, a, list(idx), val
        o.guard = X.and_(self.guard(), st.pc)
        o.loops = [tuple(x) for x in self.loopctx]
        o.file, o.line = self.where(node)
        o.fn = self.frames[-1].qual if self.frames else "?"
        o.pos = len(self.ops)
        if not self.mute:
            self.ops.append(o)
        return o


def conj(t):
    if t is TRUE:
        return []
    return list(t.a) if t.op == "and" else [t]


def loop_facts(loops):
    out = []
    for v, n in loops:
        iv = v if isinstance(v, X.T) else mk("iv", v)
        out += [X.cmp_("<=", num(0), iv), X.cmp_("<", iv, n)]
    return out


def ivs(loops):
    return [v if isinstance(v, X.T) else mk("iv", v) for v, n in loops]


def coef(p, v):
    """coefficient of v in the polynomial if v occurs only linearly and alone, else None"""
    c = 0
    for m, k in p.items():
        if len(m) == 1 and m[0] == (v, 1):
            c = k
        elif any(v is f or X.contains(f, lambda x: x is v) for f, e in m):
            return None
    return c


def solve(coords, loops):
    """coords: [(symbol, term over the loop variables)] -> loop variable: term over the symbols; None when the map
    from the loop variables to the coordinates is not one to one over the integers (as far as can be seen)."""
    todo = ivs(loops)
    eqs = list(coords)
    sol = {}
    while todo:
        for k, (s, t) in enumerate(eqs):
            left = [v for v in todo if X.contains(t, lambda x: x is v)]
            if len(left) != 1:
                continue
            v = left[0]
            c = coef(X.poly_of(t), v)
            if c not in (1, -1):
                return None
            rest = X.sub(t, X.mul(num(c), v))
            sol[v] = X.mul(num(c), X.sub(s, rest))
            todo.remove(v)
            del eqs[k]
            eqs = [(a, X.subst(b, lambda x: sol[v] if x is v else None)) for a, b in eqs]
            break
        else:
            # two unknowns everywhere: combine two linear equations
            return None
    return sol, eqs


def place(o):
    return o.file, o.line
