"""Linear arithmetic over value terms: is a comparison a consequence of others?

A comparison is a polynomial over terms; every monomial is one unknown.  Choices inside (conditional terms, minima,
maxima, absolute values, truncations) are split or axiomatised, the rest is Fourier-Motzkin elimination, with
rounding where every unknown is an integer."""
from fractions import Fraction

from . import terms as X
from .terms import mk, const, num, T, TRUE, FALSE

LIMIT = 4000


class Tired(Exception):
    """The question is too big."""


def frac(c):
    if isinstance(c, float):
        return Fraction(repr(c))
    return Fraction(c)


def callee(t):
    """name, arguments of a call of a library or foreign function."""
    if t.op == "native":
        return t.a[0], list(t.a[1].a)
    if t.op == "call" and t.a[0].op == "ext" and t.a[1].op == "tuple":
        return t.a[0].a[0].split(".")[-1], list(t.a[1].a)
    return t.op, list(t.a)


def is_int_of(t):
    return callee(t)[0] in ("int", "__trunc__") and len(callee(t)[1]) == 1


class Prover:
    """integer(t): the term only takes integer values; axioms(t): boolean terms that hold of it."""

    def __init__(self, integer=lambda t: False, axioms=lambda t: ()):
        self._integer, self._axioms = integer, axioms
        self.memo = {}
        self.steps = 0

    # ----------------------------------------------------------- terms
    def integer(self, t):
        if t.op == "num":
            return t.a[0] == int(t.a[0])
        if t.op in ("iv", "len", "count", "bool"):
            return True
        n, a = callee(t)
        if n in ("int", "__trunc__", "__dim__", "__size__", "ceil", "floor", "rint"):
            return True
        if n in ("max", "min", "abs", "floordiv"):
            return all(self.integer(x) for x in a)
        if t.op == "ite":
            return self.integer(t.a[1]) and self.integer(t.a[2])
        if t.op == "poly":
            return all(self.integer(f) for m in X.poly_of(t) for f, e in m) and all(
                frac(c).denominator == 1 for c in X.poly_of(t).values())
        return self._integer(t)

    def split(self, t):
        """[(condition, replacement)] for a term that stands for a choice"""
        n, a = callee(t)
        if t.op == "ite":
            return [(t.a[0], t.a[1]), (X.not_(t.a[0]), t.a[2])]
        if n in ("max", "fmax") and len(a) >= 2:
            out = []
            for k, x in enumerate(a):
                out.append((X.and_(*[X.cmp_("<=" if j > k else "<", y, x) for j, y in enumerate(a) if j != k]), x))
            return out
        if n in ("min", "fmin") and len(a) >= 2:
            out = []
            for k, x in enumerate(a):
                out.append((X.and_(*[X.cmp_("<=" if j > k else "<", x, y) for j, y in enumerate(a) if j != k]), x))
            return out
        if n in ("abs", "fabs") and len(a) == 1:
            return [(X.cmp_("<=", num(0), a[0]), a[0]), (X.cmp_("<", a[0], num(0)), X.neg(a[0]))]
        return None

    def axioms(self, t):
        n, a = callee(t)
        one = num(1)
        if is_int_of(t):
            x = a[0]
            if callee(x)[0] in ("ceil", "floor", "rint", "round"):
                return [X.cmp_("==", t, x)]
            if self.integer(x):
                return [X.cmp_("==", t, x)]
            return [X.or_(X.and_(X.cmp_("<=", num(0), x), X.cmp_("<=", t, x), X.cmp_("<", X.sub(x, one), t),
                                 X.cmp_("<=", num(0), t)),
                          X.and_(X.cmp_("<", x, num(0)), X.cmp_("<=", x, t), X.cmp_("<", t, X.add(x, one)),
                                 X.cmp_("<=", t, num(0))))]
        if n == "ceil" and len(a) == 1:
            return [X.cmp_("<=", a[0], t), X.cmp_("<", t, X.add(a[0], one))]
        if n == "floor" and len(a) == 1:
            return [X.cmp_("<=", t, a[0]), X.cmp_("<", X.sub(a[0], one), t)]
        if n in ("rint", "round", "nearbyint") and len(a) == 1:
            h = num(0.5)
            return [X.cmp_("<=", t, X.add(a[0], h)), X.cmp_("<=", X.sub(a[0], h), t)]
        if n == "floordiv" and len(a) == 2 and a[1].op == "num" and a[1].a[0] > 0:
            k = a[1]
            return [X.cmp_("<=", X.mul(k, t), a[0]), X.cmp_("<", a[0], X.add(X.mul(k, t), k))]
        if n in ("__dim__", "__size__", "len", "count", "sqrt", "hypot"):
            return [X.cmp_("<=", num(0), t)]
        return list(self._axioms(t))

    # ----------------------------------------------------------- proof
    def proves(self, facts, goal):
        key = (frozenset(facts), goal)
        if key not in self.memo:
            self.memo[key] = goal in facts or self.attempt([f for f in facts if self.plain(f)], goal) or (
                not all(self.plain(f) for f in facts) and self.attempt(facts, goal))
        return self.memo[key]

    def attempt(self, facts, goal):
        self.steps = 0
        try:
            return self.unsat(list(facts) + [X.not_(goal)], {}, set())
        except Tired:
            return False

    def plain(self, f):
        """no products of unknowns"""
        return not any(x.op == "mono" and (len(x.a) > 2 or len(x.a) == 2 and x.a[1] != 1) for x in X.subterms(f))

    def unsat(self, clauses, lits, seen):
        """No assignment makes all the clauses true."""
        self.steps += 1
        if self.steps > LIMIT:
            raise Tired()
        todo = list(clauses)
        lits = dict(lits)  # boolean term -> value, for the ones that are no comparisons
        cons, ors, flat = [], [], []
        while todo:
            c = todo.pop()
            if c.op == "bool":
                if not c.a[0]:
                    return True
                continue
            if c.op == "and":
                todo.extend(c.a)
                continue
            if c.op == "or":
                ors.append(c)
                continue
            if c.op == "ite":
                ors.append(mk("or", X.and_(c.a[0], c.a[1]), X.and_(X.not_(c.a[0]), c.a[2])))
                continue
            if c.op == "cmp" and c.a[0] in ("<", "<=", "=="):
                flat.append(c)
                continue
            if c.op == "not" and c.a[0].op == "cmp" and c.a[0].a[0] == "==":
                a, b = c.a[0].a[1:]
                ors.append(mk("or", X.cmp_("<", a, b), X.cmp_("<", b, a)))
                continue
            v, x = True, c
            while x.op == "not":
                v, x = not v, x.a[0]
            if lits.setdefault(x, v) != v:
                return True
        # a choice inside a comparison
        for c in flat:
            for x in X.subterms(c):
                s = self.split(x)
                if s:
                    rest = flat + ors
                    return all(self.unsat([X.subst(y, lambda z: r if z is x else None) for y in rest] + [g]
                                          + [k if v else X.not_(k) for k, v in lits.items()], {}, seen)
                               for g, r in s)
        # what holds of the unknowns
        new = []
        for c in flat:
            for x in X.subterms(c):
                if x.op in ("poly", "num", "cmp", "mono") or x in seen:
                    continue
                ax = self.axioms(x)
                if ax:
                    seen = seen | {x}
                    new += ax
        if new:
            return self.unsat(flat + ors + new + [k if v else X.not_(k) for k, v in lits.items()], {}, seen)
        e = self.equality(flat)
        if e:
            used, x, r = e
            rest = [c for c in flat if c not in used] + ors + [k if v else X.not_(k) for k, v in lits.items()]
            return self.unsat([X.subst(y, lambda z: r if z is x else None) for y in rest], {}, seen)
        if self.infeasible(flat):
            return True
        ors = [self.reduced(o, lits) for o in ors]
        if any(o.op != "or" for o in ors):
            return self.unsat(flat + ors + [k if v else X.not_(k) for k, v in lits.items()], {}, seen)
        if not ors:
            return False
        o = min(ors, key=lambda o: len(o.a))
        rest = flat + [p for p in ors if p is not o] + [k if v else X.not_(k) for k, v in lits.items()]
        return all(self.unsat(rest + [x], {}, seen) for x in o.a)

    def equality(self, flat):
        """comparisons that say an unknown equals something, the unknown, what it equals"""
        have = {}
        for c in flat:
            op, a, b = c.a
            if op == "<":
                continue
            d = X.sub(a, b)
            if op == "==":
                used = (c,)
            elif X.neg(d) in have:
                used = (c, have[X.neg(d)])
            else:
                have[d] = c
                continue
            p = X.poly_of(d)
            for m, k in sorted(p.items(), key=lambda mk_: repr(mk_[0])):
                if len(m) != 1 or m[0][1] != 1 or k not in (1, -1):
                    continue
                x = m[0][0]
                r = X.mul(num(-k), X.sub(d, X.mul(num(k), x)))
                if not X.contains(r, lambda z: z is x) and (not self.integer(x) or self.integer(r)) and not any(
                        X.contains(z, lambda y: y is x) for z in X.subterms(c) if z.op not in (
                            "poly", "mono", "num", "cmp") and z is not x):
                    return used, x, r
        return None

    def reduced(self, o, lits):
        out = []
        for x in o.a:
            v, y = True, x
            while y.op == "not":
                v, y = not v, y.a[0]
            if y in lits:
                if lits[y] == v:
                    return TRUE
                continue
            out.append(x)
        if not out:
            return FALSE
        return out[0] if len(out) == 1 else mk("or", *out)

    # ------------------------------------------------- Fourier-Motzkin
    def infeasible(self, comparisons):
        rows = set()

        def row(p, strict):
            c = Fraction(0)
            v = {}
            for m, k in p.items():
                k = frac(k)
                if m == ():
                    c += k
                elif k:
                    v[m] = v.get(m, 0) + k
            return self.normal(v, c, strict)

        for t in comparisons:
            op, a, b = t.a
            try:
                p = X.poly_of(X.sub(a, b))
            except Exception:
                continue
            if not all(isinstance(k, (int, float, Fraction)) for k in p.values()):
                continue
            try:
                rows.add(row(p, op == "<"))
                if op == "==":
                    rows.add(row({m: -k for m, k in p.items()}, False))
            except (ValueError, OverflowError):
                continue
        # a square is not negative
        for r in list(rows):
            for m, _ in r[0]:
                if all(e % 2 == 0 for f, e in m):
                    rows.add(((( m, Fraction(-1)),), Fraction(0), False))
        # products of what cannot be negative
        n = 0
        while True:
            for v, c, s in rows:
                if not v and (c > 0 or s and c >= 0):
                    return True
            rows = {r for r in rows if r[0]}
            if not rows:
                return False
            count = {}
            for v, c, s in rows:
                for m, k in v:
                    pn = count.setdefault(m, [0, 0])
                    pn[0 if k > 0 else 1] += 1
            m = min(count, key=lambda m: (count[m][0] * count[m][1], repr(m)))
            pos, neg, rest = [], [], set()
            for r in rows:
                k = dict(r[0]).get(m)
                if k is None:
                    rest.add(r)
                elif k > 0:
                    pos.append((r, k))
                else:
                    neg.append((r, k))
            for p, kp in pos:
                for q, kq in neg:
                    v = {}
                    for mm, k in p[0]:
                        v[mm] = k / kp
                    for mm, k in q[0]:
                        v[mm] = v.get(mm, 0) + k / -kq
                    rest.add(self.normal({a: b for a, b in v.items() if b}, p[1] / kp + q[1] / -kq, p[2] or q[2]))
            rows = self.prune(rest)
            n += 1
            if len(rows) > 600:
                raise Tired()

    def prune(self, rows):
        best = {}
        for v, c, s in rows:
            b = best.get(v)
            if b is None or (c, s) > b:
                best[v] = (c, s)
        return {(v, c, s) for v, (c, s) in best.items()}

    def normal(self, v, c, strict):
        """sum + c <= 0 (< 0), scaled; rounded over the integers"""
        if not v:
            return ((), c, strict)
        if all(self.integer(f) for m in v for f, e in m):
            from math import gcd
            d = 1
            for k in v.values():
                d = d * k.denominator // gcd(d, k.denominator)
            g = 0
            for k in v.values():
                g = gcd(g, int(k * d))
            s = Fraction(d, g)
            v = {m: k * s for m, k in v.items()}
            c = c * s
            if strict:
                # sum < -c  ->  sum <= ceil(-c) - 1
                b = -((c.numerator) // c.denominator) - 1 if c.denominator == 1 else -c.__ceil__()
                c, strict = Fraction(-b), False
            else:
                c = Fraction(c.__ceil__())
        else:
            k0 = abs(min(v.items(), key=lambda mk_: repr(mk_[0]))[1])
            v = {m: k / k0 for m, k in v.items()}
            c = c / k0
        return (tuple(sorted(v.items(), key=lambda mk_: [(f.key, e) for f, e in mk_[0]])), c, strict)
