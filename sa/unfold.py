"""Loop terms at a fixed small number of iterations: the loop bound of both sides is specialised to 1, 2, 3 and the
loops are written out, so that two different recurrences become comparable loop-free terms."""
from . import terms as X
from .terms import mk, num, index, ite, and_, TRUE, FALSE

MAXN = 4


class Stuck(Exception):
    pass


class Unfolder:
    def __init__(self, I):
        self.I = I
        self.memo = {}

    def count(self, t):
        return t.a[0] if t.op == "num" and isinstance(t.a[0], int) and 0 <= t.a[0] <= MAXN else None

    def go(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self.step(x)
        return r

    def many(self, body, k):
        return [self.go(X.instantiate(body, num(i))) for i in range(k)]

    def step(self, x):
        op = x.op
        if op == "loopgen":
            k = self.count(self.go(x.a[0]))
            if k is not None and len(x.a[3].a[0].a) < 2 and not x.nbv:
                return self.loop(x, k)
        elif op == "tab":
            k = self.count(self.go(x.a[1]))
            if k is not None:
                r = self.go(x.a[0])
                for i in range(k):
                    r = self.I.store(r, self.go(X.instantiate(x.a[2], num(i))), self.go(X.instantiate(x.a[3], num(i))))
                return r
        elif op == "maplist":
            k = self.count(self.go(x.a[0]))
            if k is not None and x.a[2] is TRUE:
                return mk("list", *self.many(x.a[1], k))
        elif op == "reduce":
            k = self.count(self.go(x.a[2]))
            if k is not None:
                r = self.go(x.a[1])
                for b in self.many(x.a[3], k):
                    r = self.fold(x.a[0], r, b)
                return r
        elif op == "elast":
            k = self.count(self.go(x.a[0]))
            if k is not None:
                r = self.go(x.a[1])
                for c, v in zip(self.many(x.a[2], k), self.many(x.a[3], k)):
                    r = X.sel(c, v, r)
                return r
        elif op == "lastwhere":
            k = self.count(self.go(x.a[0]))
            if k is not None:
                r = self.go(x.a[1])
                for c, v in zip(self.many(x.a[2], k), self.many(x.a[3], k)):
                    r = ite(c, v, r)
                return r
        elif op == "lastval":
            k = self.count(self.go(x.a[0]))
            if k is not None:
                return self.many(x.a[2], k)[-1] if k else self.go(x.a[1])
        elif op == "exists":
            k = self.count(self.go(x.a[0]))
            if k is not None:
                return X.or_(*self.many(x.a[1], k)) if k else FALSE
        ch, na = False, []
        for c in x.a:
            if isinstance(c, X.T):
                d = self.go(c)
                ch = ch or d is not c
                na.append(d)
            else:
                na.append(c)
        return X.rebuild(op, na) if ch else x

    def fold(self, op, r, b):
        if op == "+":
            return X.add(r, b)
        if op == "*":
            return X.mul(r, b)
        if op == "or":
            return X.or_(r, b)
        if op == "and":
            return and_(r, b)
        if op == "bor":
            return X.bor(r, b)
        if op == "band":
            return X.band(r, b)
        raise Stuck(op)

    def loop(self, x, k):
        body = x.a[2].a[0]
        ex = x.a[3].a[0]
        act = TRUE
        st = [self.go(i) for i in x.a[1].a]
        lvl = max((y.a[0] for y in X.subterms(body) if y.op == "mv"), default=None)
        for i in range(k):
            now = list(st)

            def at(t):
                t = X.instantiate(t, num(i))
                if lvl is not None:
                    t = X.subst(t, lambda y: now[y.a[1]] if y.op == "mv" and y.a[0] == lvl else None)
                return [self.go(v) for v in t.a]
            st = [ite(act, v, o) for v, o in zip(at(body), now)]
            if ex.a:
                act = and_(act, at(ex)[0])
        return st[0]


def literal(t):
    """Arrays of a known length written out, whatever they were built from."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        na = [go(c) if isinstance(c, X.T) else c for c in x.a]
        y = X.rebuild(x.op, na) if any(p is not q for p, q in zip(na, x.a)) else x
        if y.op in ("or", "bor") and any(c.op == "zeros" for c in y.a):
            rest = [c for c in y.a if c.op != "zeros"]
            y = X.rebuild(y.op, rest) if len(rest) > 1 else rest[0] if rest else y.a[0]
        if y.op == "store":
            d, b = {}, y
            while b.op == "store" and b.a[1].op == "num":
                d.setdefault(b.a[1].a[0], b.a[2])
                b = b.a[0]
            n = X.length(b)
            if n.op == "num" and isinstance(n.a[0], int) and n.a[0] <= 2 * MAXN and (
                    b.op == "list" or b.op == "zeros" and (b.a[0].op != "tuple" or len(b.a[0].a) == 1) or
                    set(range(n.a[0])) <= set(d)):
                y = mk("list", *[d[i] if i in d else index(b, num(i)) for i in range(n.a[0])])
        elif y.op == "zeros" and y.a[0].op == "tuple" and len(y.a[0].a) == 1 and y.a[0].a[0].op == "num" \
                and y.a[0].a[0].a[0] in range(2 * MAXN):
            y = mk("list", *[index(y, num(i)) for i in range(y.a[0].a[0].a[0])])
        memo[x] = y
        return y
    return go(t)


def bounds(*ts):
    """Symbolic loop bounds of the loops of ts."""
    out = []
    for t in ts:
        for x in X.subterms(t):
            if x.op in ("loopgen", "tab", "maplist", "elast", "lastwhere", "lastval", "exists"):
                n = x.a[1] if x.op == "tab" else x.a[0]
            elif x.op == "reduce":
                n = x.a[2]
            else:
                continue
            if n.op not in ("num", "opq") and not n.nbv and n not in out:
                out.append(n)
    return out


def base(n):
    """The size symbol of a bound: n itself, or the one non-constant term of n = size + constant."""
    p = X.poly_of(n)
    ks = [k for k in p if k]
    if len(ks) == 1 and p[ks[0]] == 1 and len(ks[0]) == 1 and ks[0][0][1] == 1:
        return ks[0][0][0]
    return n


def specialise(I, got, want, k):
    """Both sides with k elements in every collection they loop over (None: not expressible)."""
    ns = {base(n) for n in bounds(got, want)}
    if not ns or len(ns) > 2:
        return None

    def f(t):
        t = X.subst(t, lambda x: num(k) if x in ns else None)
        return literal(Unfolder(I).go(t))
    try:
        return f(got), f(want)
    except (Stuck, RecursionError):
        return None
