"""C20 and C29: the C++ sources, read from clang's syntax tree.

The matcher is reduced to its array reads and writes, each with its condition and loops.  What marks a pixel, lists
an edge, fills the solver's rows and reads its answer back is then compared, as a set of (pixel, pixel) pairs given by
linear constraints, with the pairs of edge pixels within the tolerance."""
from . import containers
from ..core import *
from .. import cpp
from .. import terms as X
from ..terms import mk, const, num, NONE, TRUE, FALSE
from ..linear import Prover, callee
from ..native import Native, Lost, Bad, conj, loop_facts, ivs, solve, coef, place

MATCH = "pyEdgeEval/_lib/src/match.cc"
BENMS = "pyEdgeEval/_lib/src/benms.cc"


def sym(n):
    return mk("sym", n, "num")


H, W, D = sym("height"), sym("width"), sym("maxDist")
N = {1: sym("nodes of map 1"), 2: sym("nodes of map 2")}
Q = {(t, k): sym(f"{k} of the pixel of map {t}") for t in (1, 2) for k in "xy"}
P1, P2 = {k: Q[1, k] for k in "xy"}, {k: Q[2, k] for k in "xy"}


def le(a, b):
    return X.cmp_("<=", a, b)


def lt(a, b):
    return X.cmp_("<", a, b)


def inside(x, n):
    return [le(num(0), x), lt(x, n)]


ZERO, ONE = num(0), num(1)


class Source:
    """One function of a native source, run on symbols."""

    def __init__(self, c, rel, fn, args):
        self.c, self.rel = c, rel
        mod = "native." + rel.rsplit("/", 1)[1].split(".")[0]
        try:
            u = cpp.load(c.ix, rel, mod, [fn])
        except cpp.Untranslated as e:
            raise Lost(str(e))
        for t in ast.walk(c.ix.modules[mod].tree):
            if isinstance(t, (ast.For, ast.While)):
                for r in ast.walk(t):
                    if isinstance(r, ast.Return):
                        r._in_loop = True
        self.I = Native(c.ix)
        self.args = {a: s for a, s in args.items()}
        self.run = c.run(f"{mod}.{fn}", list(args.values()), interp=self.I)
        self.ops = self.I.ops
        self.prover = Prover(self.integer, self.axioms)
        self.kinds = {}
        self.reads = {}
        self.memo = {}

    # what is known of the unknowns
    def integer(self, t):
        if t.op == "sym":
            return t not in (D,) and t.a[0] not in self.reals
        if t.op in ("load", "item"):
            ty = t.a[0].a[2] if t.a[0].op in ("carr", "cvec") else ""
            return "int" in ty or "bool" in ty
        if t.op == "attr":
            return t.a[1] in ("x", "y", "i", "j")
        if t.op in ("mu",):
            return True
        return False

    reals = ("maxDist", "outlierCost", "multiplier", "m")

    def axioms(self, t):
        return ()

    def basic(self, t):
        """Only made of quantities the rules know all about."""
        for x in X.subterms(t):
            if x.op in ("poly", "mono", "num", "sym", "cmp", "not", "and", "or", "ite", "bool", "truth", "tuple", "kw",
                        "int", "floordiv", "ext", "iv", "str", "size", "cvec", "carr", "item", "attr"):
                continue
            if x.op in ("native", "call") and callee(x)[0] in (
                    "ceil", "floor", "rint", "max", "min", "abs", "int", "sqrt", "fabs", "__out__", "CSA_edge", "new_CSA",
                    "__data__"):
                continue
            if x.op == "load" and (x.a[0] in self.args.values() or x.a[0] in self.rand or x.a[0] in self.tables):
                continue
            return False
        return True

    def breaks(self, op, sol, full, what):
        """No loop around the operation ends while pairs are left."""
        for b in self.ops:
            if b.kind != "__break__" or not b.loops or op.loops[:len(b.loops)] != b.loops:
                continue
            v = b.loops[-1][0]
            v = v if isinstance(v, X.T) else mk("iv", v)
            if b.pos > op.pos and set(conj(op.guard)) <= set(conj(b.guard)) and not any(
                    X.contains(i, lambda x: x is v) for i in op.idx) and op.kind == "__store__":
                continue
            early = mk("sym", "an earlier iteration", "num")
            g = [self.canon(a) for a in conj(b.guard)]
            g = [X.subst(X.subst(a, lambda x: early if x is v else None), lambda x: sol.get(x)) for a in g]
            facts = full + g + [le(ZERO, early), lt(early, sol[v])]
            if self.prover.proves(facts, FALSE):
                continue
            if all(self.basic(x) for x in g):
                raise Bad(b, f"{what}: the search ends early, leaving pairs of edge pixels within the tolerance out",
                          "search ends early")
            raise Lost(f"line {b.line}: a loop that ends early")

    def cut(self, o):
        return any(b.kind == "__break__" and b.loops and o.loops[:len(b.loops)] == b.loops for b in self.ops)

    def covers(self, idx, loops, dims):
        """The indices run over all the elements, each once."""
        syms = [sym(f"index {k}") for k in range(len(idx))]
        loops = [(v, self.canon(n)) for v, n in loops]
        if len(idx) != len(loops) or len(idx) != len(dims):
            return False
        s = solve([(a, self.canon(b)) for a, b in zip(syms, idx)], loops)
        if s is None or s[1]:
            return False
        back = lambda t: X.subst(t, lambda x: s[0].get(x))
        code = [back(f) for f in loop_facts(loops)]
        want = [f for a, d in zip(syms, dims) for f in inside(a, d)]
        return all(self.prover.proves(code, f) for f in want) and all(self.prover.proves(want, f) for f in code)

    def isglobal(self, a):
        """A condition that does not depend on any loop."""
        return not any(x.op in ("iv", "mu") for x in X.subterms(a))

    rand = {}
    tables = ()

    def need(self, facts, goal, op, text, key="", known=()):
        if self.prover.proves(list(facts), goal):
            return
        if all(self.basic(f) for f in facts) and self.basic(goal):
            raise Bad(op, text, key or text)
        raise Lost(f"line {op.line}: {text}: not decided")


def show(t):
    return X.pretty(t, 6, 160)


class Matcher(Source):
    def __init__(self, c):
        self.bm = {1: S("bmap1"), 2: S("bmap2")}
        self.m = {1: S("m1"), 2: S("m2")}
        Source.__init__(self, c, MATCH, "matchEdgeMaps",
                        dict(bmap1=self.bm[1], bmap2=self.bm[2], maxDist=D, outlierCost=sym("outlierCost"),
                             m1=self.m[1], m2=self.m[2]))
        self.marks = {}  # bool array -> (map, exact)
        self.nodes = {}
        self.counts = {}
        self.done = 0

    # ------------------------------------------------------- canonical terms
    def canon(self, t):
        def fn(x):
            if x.op == "native" and x.a[0] == "__dim__" and x.a[1].a[0] in (*self.bm.values(), *self.m.values()):
                return H if x.a[1].a[1].a[0] == 0 else W
            if x.op == "native" and x.a[0] == "sqrt":
                return None
            if x.op == "reduce":
                k = self.counted(x)
                if k:
                    return N[k]
            if x.op == "size":
                for k, (v, p) in self.nodes.items():
                    if x.a[0] is v:
                        return N[k]
            return None
        return X.subst(t, fn, self.memo)

    def counted(self, x):
        """1 or 2 where the term is the number of marked pixels of that map"""
        doms, t = [], x
        while t.op == "reduce" and t.a[0] == "+" and t.a[1] is ZERO and len(doms) < 3:
            doms.append(t.a[2])
            t = t.a[3]
        if len(doms) != 2 or t.op != "ite":
            return None
        cond, a, b = t.a
        if (a, b) == (ZERO, ONE):
            cond, a, b = X.not_(cond), b, a
        if (a, b) != (ONE, ZERO):
            return None
        e = self.test(cond)
        if not e or e[0] not in self.marks:
            return None
        dims = [self.canon(d) for d in self.I.dims[e[0]]]
        got = {}
        for i, d in zip(e[1], dims):
            if i.op != "bv" or i.a[0] > 1:
                return None
            got[1 - i.a[0]] = d  # position in doms
        if [self.canon(d) for d in doms] != [got.get(0), got.get(1)]:
            return None
        return self.marks[e[0]][0]

    def coords(self, a, idx, op):
        """{'x':, 'y':} of an element of an array over the image"""
        if a in self.bm.values() or a in self.m.values():
            dims = [H, W]
        elif a.op == "carr":
            dims = [self.canon(d) for d in self.I.dims[a]]
        else:
            dims = []
        if sorted(map(id, dims)) != sorted((id(H), id(W))) or len(idx) != 2:
            raise Lost(f"line {op.line}: {show(a)} is not an array over the image")
        return {("x" if d is W else "y"): self.canon(i) for d, i in zip(dims, idx)}

    def test(self, t):
        """(array, indices) where the atom asks whether an element is set"""
        if t.op == "truth":
            t = t.a[0]
        elif t.op == "not" and t.a[0].op == "cmp" and t.a[0].a[0] == "==" and ZERO in t.a[0].a[1:]:
            t = t.a[0].a[1] if t.a[0].a[2] is ZERO else t.a[0].a[2]
        elif t.op == "cmp" and t.a[0] == "<" and t.a[1] is ZERO:
            t = t.a[2]
        if t.op == "load" and (t.a[0] in self.bm.values() or t.a[0].op == "carr" and "bool" in t.a[0].a[2]):
            return t.a[0], list(t.a[1].a)
        return None

    # -------------------------------------------------------- sets of pairs
    def spec(self):
        dx, dy = X.sub(P1["x"], P2["x"]), X.sub(P1["y"], P2["y"])
        return dict(
            bounds=[f for p in (P1, P2) for f in inside(p["x"], W) + inside(p["y"], H)],
            edges=[self.edge(t, {"x": Q[t, "x"], "y": Q[t, "y"]}) for t in (1, 2)],
            dist=le(X.add(X.mul(dx, dx), X.mul(dy, dy)), X.mul(D, D)),
            window=[f for d in (dx, dy) for f in (le(X.neg(D), d), le(d, D))] + [le(ZERO, D), le(ZERO, H), le(ZERO, W)])

    def edge(self, t, p):
        return mk("truth", mk("load", self.bm[t], mk("tuple", p["y"], p["x"]), num(0)))

    def pairs(self, op, hint=None, what=""):
        """Checks that the operation happens for exactly the pairs of edge pixels within the tolerance; the pixels of
        the two maps, as terms over the loop variables."""
        atoms = [self.canon(a) for a in conj(op.guard)]
        p, rest, marks = dict(hint or {}), [], []
        for a in atoms:
            e = self.test(a)
            if e is None:
                rest.append(a)
                continue
            if e[0] in self.bm.values():
                t = 1 if e[0] is self.bm[1] else 2
            elif e[0] in self.marks:
                t = self.marks[e[0]][0]
            else:
                raise Lost(f"line {op.line}: {show(e[0])} is not known to mark pixels")
            q = self.coords(e[0], e[1], op)
            marks.append((t, e[0], q))
            if t in p and any(p[t][k] is not q[k] for k in "xy"):
                if hint and t in hint:
                    raise Bad(op, f"{what} uses the pixel ({show(p[t]['x'])}, {show(p[t]['y'])}) of map {t} where the "
                              f"pixel ({show(q['x'])}, {show(q['y'])}) is tested", "pixel tested")
                raise Lost(f"line {op.line}: two pixels of map {t}")
            p[t] = q
        loops = [(v, self.canon(n)) for v, n in op.loops]
        for t in (1, 2):
            if t not in p:
                if all(self.basic(x) for x in rest):
                    raise Bad(op, f"{what} without asking for an edge pixel of map {t}", f"edge of map {t}")
                raise Lost(f"line {op.line}: no pixel of map {t}")
        s = solve([(Q[t, k], p[t][k]) for t in (1, 2) for k in "xy"], loops)
        if s is None or s[1]:
            raise Lost(f"line {op.line}: the loops do not run over pairs of pixels")
        sol = s[0]
        back = lambda t: X.subst(t, lambda x: sol.get(x))
        facts = [back(f) for f in rest] + [back(f) for f in loop_facts(loops)]
        sp = self.spec()
        base = [le(ZERO, D), le(ZERO, H), le(ZERO, W)]
        have = list(base) + [self.squared(f) for f in facts]
        for f in sp["bounds"]:
            self.need(have, f, op, f"{what} for pixels outside the image: {show(f)} is not ensured", "outside the image")
        self.need(have, sp["dist"], op, f"{what} for pixels further apart than the tolerance", "beyond the tolerance")
        for t in (1, 2):
            if not any(m[0] == t for m in marks):
                raise Bad(op, f"{what} without asking for an edge pixel of map {t}", f"edge of map {t}")
        # and for all of them
        full = sp["bounds"] + sp["edges"] + [sp["dist"]] + sp["window"]
        for f in facts:
            f = self.squared(f)
            if self.prover.proves(full, f) or self.constant(f, full):
                continue
            if self.basic(f):
                raise Bad(op, f"{what} only where {show(f)}, which two edge pixels within the tolerance need not satisfy",
                          "pairs left out")
            raise Lost(f"line {op.line}: condition {show(f)}: not decided")
        for t, a, q in marks:
            if a in self.marks and not self.marks[a][1]:
                raise Lost(f"line {op.line}: {show(a)} may leave pixels out")
        self.breaks(op, sol, full, what)
        self.done += len(facts) + 9
        return p

    def constant(self, f, full):
        return False

    def squared(self, f):
        """sqrt(a) <= b as a <= b*b (b is not negative)"""
        if f.op == "cmp" and f.a[0] in ("<", "<="):
            for k in (1, 2):
                n, a = callee(f.a[k])
                if n == "sqrt" and len(a) == 1 and f.a[3 - k] is D:
                    x, y = (a[0], X.mul(D, D)) if k == 1 else (X.mul(D, D), a[0])
                    return X.cmp_(f.a[0], x, y)
        if f.op in ("and", "or"):
            g = X.and_ if f.op == "and" else X.or_
            return g(*[self.squared(x) for x in f.a])
        return f

    # -------------------------------------------------------------- stages
    def stage_marks(self):
        arrays = {}
        for o in self.ops:
            if o.array is not None and o.array.op == "carr" and "bool" in o.array.a[2] and o.kind != "__load__":
                arrays.setdefault(o.array, []).append(o)
        for a, ws in arrays.items():
            if not any(o.kind == "__load__" and o.array is a for o in self.ops):
                continue
            cleared = None
            t, exact = None, False
            for o in ws:
                val = o.val
                if o.kind == "__fill__" and val in (FALSE, ZERO) or (
                        o.kind == "__store__" and val in (FALSE, ZERO) and self.everywhere(o)):
                    if cleared or t:
                        raise Lost(f"line {o.line}: {show(a)} is cleared again")
                    cleared = o
                    continue
                if o.kind != "__store__" or val not in (TRUE, ONE):
                    raise Lost(f"line {o.line}: {show(a)} holds something else")
                if not cleared:
                    raise Bad(o, f"{a.a[0]} is never cleared: it marks pixels without an edge", "not cleared")
                p = self.pairs(o, what=f"{a.a[0]} marks pixels")
                q = self.coords(a, o.idx, o)
                for k in (1, 2):
                    if all(p[k][i] is q[i] for i in "xy"):
                        if t not in (None, k):
                            raise Lost(f"line {o.line}: {show(a)} marks pixels of both maps")
                        t = k
                        break
                else:
                    raise Bad(o, f"{a.a[0]} marks the pixel ({show(q['x'])}, {show(q['y'])}), which is neither of the two "
                              "tested", "pixel marked")
                exact = True
            if t:
                last = max(o.pos for o in ws)
                for o in self.ops:
                    if o.kind == "__load__" and o.array is a and o.pos < last:
                        raise Lost(f"line {o.line}: {show(a)} is read while it is filled")
                self.marks[a] = (t, exact)

    def everywhere(self, o):
        """The store reaches every element of its array, unconditionally."""
        if conj(o.guard) and not all(self.isglobal(x) for x in conj(o.guard)):
            return False
        if o.array.op == "carr":
            dims = [self.canon(d) for d in self.I.dims[o.array]]
        else:
            dims = [H, W]
        return self.covers(o.idx, o.loops, dims) and not self.cut(o)

    def stage_nodes(self):
        """Every marked pixel gets its own number, the position it has in the list of pixels."""
        for v in {o.array for o in self.ops if o.kind == "__push__"}:
            ps = [o for o in self.ops if o.kind == "__push__" and o.array is v]
            rec = X.obj_attrs(ps[0].val) if ps[0].val.op == "obj" else None
            if rec is None or set(rec) != {"x", "y"}:
                continue
            if len(ps) != 1:
                raise Lost(f"line {ps[1].line}: two places add to {show(v)}")
            o = ps[0]
            atoms = [self.canon(a) for a in conj(o.guard)]
            tests = [(self.test(a), a) for a in atoms]
            if len(tests) != 1 or not tests[0][0]:
                if all(e is None for e, a in tests) and all(self.basic(a) for a in atoms):
                    raise Bad(o, f"{v.a[0]} lists pixels whether or not they are marked", "pixels listed")
                raise Lost(f"line {o.line}: {show(v)} lists pixels under {show(o.guard)}")
            e = tests[0][0]
            if e[0] not in self.marks:
                raise Lost(f"line {o.line}: {show(e[0])} does not mark pixels")
            t = self.marks[e[0]][0]
            q = self.coords(e[0], e[1], o)
            got = {k: self.canon(rec[k]) for k in "xy"}
            if any(got[k] is not q[k] for k in "xy"):
                raise Bad(o, f"{v.a[0]} lists ({show(got['x'])}, {show(got['y'])}) for the pixel ({show(q['x'])}, "
                          f"{show(q['y'])})", "pixels listed")
            if not self.covers([q["x"], q["y"]], o.loops, [W, H]):
                self.short(o, [q["x"], q["y"]], [W, H], f"{v.a[0]} does not list every marked pixel once")
            if self.cut(o):
                raise Lost(f"line {o.line}: a loop that may end early")
            # the numbers
            cand = [s for s in self.ops if s.kind == "__store__" and s.array.op == "carr" and s.loops == o.loops
                    and s.guard is o.guard]
            num_ = []
            for s in cand:
                c = self.coords(s.array, s.idx, s)
                d = self.position(s, o, v)
                if d is None:
                    continue
                if any(c[k] is not q[k] for k in "xy"):
                    raise Bad(s, f"{s.array.a[0]} numbers the pixel ({show(c['x'])}, {show(c['y'])}) instead of "
                              f"({show(q['x'])}, {show(q['y'])})", "pixel numbered")
                if d is not ZERO:
                    raise Bad(s, f"{s.array.a[0]} numbers a pixel {show(d)} off its position in {v.a[0]}", "node number")
                num_.append(s)
            if len(num_) != 1:
                raise Lost(f"line {o.line}: the numbers of the pixels in {show(v)} are not found")
            if t in self.nodes:
                raise Bad(o, f"two lists number the pixels of map {t}", "pixels listed twice")
            arr = num_[0].array
            for s in self.ops:
                if s.array is arr and s.kind not in ("__load__", "__new__") and s is not num_[0] and s.pos > num_[0].pos:
                    raise Lost(f"line {s.line}: {show(arr)} is written again")
                if s.array is arr and s.kind == "__load__" and s.pos < num_[0].pos:
                    raise Lost(f"line {s.line}: {show(arr)} is read while it is filled")
                if s.array is arr and s.kind == "__store__" and s.pos < num_[0].pos and s.loops == num_[0].loops and (
                        s.idx != num_[0].idx):
                    raise Lost(f"line {s.line}: {show(arr)} is written twice")
            self.nodes[t] = (v, arr)
            self.done += 4
        self.memo = {}
        if set(self.nodes) != {1, 2}:
            raise Lost("the lists of pixels are not found")
        (v1, a1), (v2, a2) = self.nodes[1], self.nodes[2]
        if a1 is a2 or v1 is v2:
            raise Lost("one list for both maps")

    def short(self, o, coords, dims, text):
        """Not every element, or some twice: is that certain?"""
        loops = [(v, self.canon(n)) for v, n in o.loops]
        syms = [sym(f"index {k}") for k in range(len(coords))]
        s = solve(list(zip(syms, coords)), loops) if len(loops) == len(coords) else None
        if s is None or s[1] or not all(self.basic(n) for v, n in loops):
            raise Lost(f"line {o.line}: {text}: not decided")
        raise Bad(o, text, "elements left out")

    def position(self, s, push, v):
        """The number stored minus the position of the element pushed in the same iteration; None if no such number"""
        val = s.val
        p = X.poly_of(val)
        for m in p:
            if len(m) == 1 and m[0][1] == 1 and p[m] == 1:
                t = m[0][0]
                if t.op == "size" and t.a[0] is v:
                    d = X.sub(val, t)
                    at = [o for o in self.ops if o.kind == "__size__" and o.val is t and o.loops == s.loops]
                    if not at:
                        return None
                    after = push.pos < max(o.pos for o in at)
                    return self.canon(X.add(d, ONE) if after else d)
                if t.op == "mu":
                    step = self.step(t, push.guard)
                    if step is None:
                        return None
                    if step is not ONE:
                        raise Bad(s, f"the number of a pixel grows by {show(step)} for every pixel listed", "node number")
                    first = self.start(t)
                    if first is None:
                        return None
                    return self.canon(X.add(X.sub(val, t), first))
        return None

    def step(self, mu, guard):
        r = self.I.mu_init.get(mu)
        if not r or len(r) < 2:
            return None
        nx = r[-1]
        g, n = guard, X.not_(guard)
        if g is TRUE:
            return self.canon(X.sub(nx, mu))
        yes, no = self.under(nx, g, True), self.under(nx, g, False)
        if no is not mu:
            if self.free(X.sub(no, mu)):
                return None
            return None
        return self.canon(X.sub(yes, mu))

    def free(self, t):
        return t.op == "num"

    def under(self, t, g, v):
        t = X.assume(g, t, v)
        if t.op == "poly" or t.op == "ite":
            n = X.not_(g)
            t = X.subst(t, lambda x: X.ite(const(v), x.a[1], x.a[2]) if x.op == "ite" and x.a[0] is g else (
                X.ite(const(not v), x.a[1], x.a[2]) if x.op == "ite" and x.a[0] is n else None))
        return t

    def start(self, mu):
        """what a counter holds when its loops begin"""
        for _ in range(6):
            r = self.I.mu_init.get(mu)
            if not r:
                return None
            t = r[0]
            if t.op != "mu":
                return t
            mu = t
        return None

    # ------------------------------------------------------ listed edges
    def stage_edges(self):
        """The candidate pairs: records with the two numbers, one for every pair."""
        self.edges = {}
        for o in self.ops:
            if o.kind == "__push__" and o.val is not None and o.val.op == "obj" and o.array not in (
                    self.nodes[1][0], self.nodes[2][0]):
                r = X.obj_attrs(o.val)
                f = self.numbers({k: v for k, v in r.items()}, o)
                if not f:
                    continue
                if o.array in self.edges:
                    raise Lost(f"line {o.line}: two places add to {show(o.array)}")
                self.pairs(o, hint={t: f[t][1] for t in f}, what=f"{o.array.a[0]} lists pairs")
                self.edges[o.array] = {t: f[t][0] for t in f}

    def numbers(self, fields, o):
        """{map: (field, pixel)} of the fields that hold the number of a pixel"""
        out = {}
        for k, v in fields.items():
            if v.op != "load":
                continue
            for t in (1, 2):
                if v.a[0] is self.nodes[t][1]:
                    if t in out:
                        raise Bad(o, f"both numbers of a pair are of pixels of map {t}", "pair of one map")
                    out[t] = (k, self.coords(v.a[0], list(v.a[1].a), o))
        if out and len(out) != 2:
            raise Lost(f"line {o.line}: only one number of a pair")
        return out

    # --------------------------------------------------------- the solver
    def stage_rows(self):
        """Every row handed to the solver is a listed pair, or joins a pixel (or nobody) to nobody."""
        csa = [o for o in self.ops if o.kind == "new_CSA"]
        if len(csa) != 1:
            raise Lost("the solver is not called once")
        csa = csa[0]
        A = csa.idx
        data = A[2]
        if callee(data)[0] != "__data__":
            raise Lost("what the solver is given")
        g = data.a[1].a[0]
        n = X.add(N[1], N[2])
        if self.canon(A[0]) is not X.mul(num(2), n):
            self.differ(csa, A[0], X.mul(num(2), n), "the number of nodes given to the solver")
        m = self.canon(A[1])
        self.n, self.rows_m = n, m
        if g.op != "carr" or len(self.I.dims[g]) != 2 or self.I.dims[g][1] is not num(3):
            raise Lost("the solver's table")
        if self.canon(self.I.dims[g][0]) is not m:
            self.differ(csa, self.I.dims[g][0], m, "the number of rows given to the solver")
        ws = [o for o in self.ops if o.array is g and o.kind not in ("__load__", "__new__")]
        off = {0: ZERO, 1: ZERO, 2: ZERO}
        rows = []
        self.table = g
        for o in ws:
            if o.pos > csa.pos:
                raise Lost(f"line {o.line}: the table is written after the solver ran")
            if o.kind == "__update__":
                col, (op_, val) = o.idx[1], o.val.a
                if col.op != "num" or op_ is not const("+") or not self.covers([o.idx[0]], o.loops, [m]) or any(
                        not self.isglobal(x) for x in conj(o.guard)):
                    if col.op == "num" and len(o.loops) == 1 and self.basic(self.canon(o.loops[0][1])):
                        raise Bad(o, "not every row of the solver's table is renumbered", "rows renumbered")
                    raise Lost(f"line {o.line}: the table is changed")
                off[col.a[0]] = X.add(off[col.a[0]], self.canon(val))
            elif o.kind == "__store__" and o.idx[1].op == "num":
                rows.append(o)
            else:
                raise Lost(f"line {o.line}: the table is written")
        groups = {}
        for o in rows:
            groups.setdefault((o.idx[0], tuple(o.loops)), []).append(o)
        self.off = off
        self.groups = groups
        self.choices(csa)
        seen = []
        for (i, loops), os in groups.items():
            self.count_of(i, os, seen)
            left = [o for o in os if o.idx[1] is ZERO]
            right = [o for o in os if o.idx[1] is ONE]
            if len(left) != len(right) or not left:
                raise Lost(f"line {os[0].line}: a row without both its ends")
            for a in left:
                b = [x for x in right if x.guard is a.guard]
                if len(b) != 1:
                    raise Lost(f"line {a.line}: the two ends of a row")
                self.row(a, b[0], csa)
        self.total(seen, m, csa)
        if not self.listed:
            raise Bad(csa, "no listed pair reaches the solver", "pairs reach the solver")

    def choices(self, csa):
        """kOfN writes k of the numbers 0..n-1: there are that many, and room for them"""
        for o in self.ops:
            if o.kind != "kOfN":
                continue
            k, n = self.canon(o.idx[0]), self.canon(o.idx[1])
            a = callee(o.idx[2])
            facts = self.base() + loop_facts([(v, self.canon(x)) for v, x in o.loops]) + [self.canon(x) for x in conj(o.guard)]
            facts = [f for f in facts if self.basic(f)]
            self.need(facts, le(k, n), o, f"{show(k)} numbers are drawn out of {show(n)}", "numbers drawn")
            if a[0] == "__data__" and a[1][0] in self.I.dims:
                d = self.canon(self.I.dims[a[1][0]][0])
                self.need(facts, le(k, d), o, f"{show(k)} numbers are written to an array of {show(d)}", "numbers drawn")

    def differ(self, op, a, b, text):
        a, b = self.canon(a), self.canon(b)
        if self.prover.proves(self.base(), X.cmp_("<=", a, b)) and self.prover.proves(self.base(), X.cmp_("<=", b, a)):
            return
        if self.basic(a) and self.basic(b):
            raise Bad(op, f"{text} is {show(a)}, not {show(b)}", text)
        raise Lost(f"line {op.line}: {text}: not decided")

    def base(self):
        return [le(ZERO, N[1]), le(ZERO, N[2]), le(ZERO, H), le(ZERO, W), le(ZERO, D)]

    def axioms(self, t):
        if t in (N[1], N[2], H, W) or t.op == "size":
            return [le(ZERO, t)]
        if t.op == "load" and t.a[0] in self.rand:
            return [le(ZERO, t), lt(t, self.rand[t.a[0]])] if self.rand[t.a[0]] is not None else [le(ZERO, t)]
        if t.op == "attr" and t.a[0].op == "item":
            v = t.a[0].a[0]
            for k, (w, p) in getattr(self, "nodes", {}).items():
                if v is w and t.a[1] in "xy":
                    return inside(t, W if t.a[1] == "x" else H)
            f = getattr(self, "edges", {}).get(v)
            if f:
                for k in (1, 2):
                    if t.a[1] == f[k]:
                        return inside(t, N[k])
        return []

    def count_of(self, i, os, seen):
        """Rows are numbered by a counter that grows by one with every row."""
        o = os[0]
        if i.op == "mu":
            r = self.I.mu_init.get(i)
            if not r:
                raise Lost(f"line {o.line}: the row written")
            seen.append((i, o, X.sub(r[-1], i)))
            return
        seen.append((i, o, None))

    def total(self, seen, m, csa):
        """The counter ends at the number of rows of the table."""
        spans = []
        for i, o, step in seen:
            loops = [(v, self.canon(n)) for v, n in o.loops]
            if step is None:
                # rows at first + position in the loop
                if len(loops) != 1:
                    raise Lost(f"line {o.line}: the row written")
                v = ivs(loops)[0]
                t = self.canon(i)
                if coef(X.poly_of(t), v) != 1:
                    raise Lost(f"line {o.line}: the row written")
                first = X.sub(t, v)
                spans.append((o, first, X.add(first, loops[0][1])))
                continue
            if step is not ONE:
                if step.op == "num":
                    raise Bad(o, f"the row number grows by {show(step)} with every row", "row number")
                raise Lost(f"line {o.line}: the row number")
            outer = i
            n = None
            for v, k in reversed(loops):
                n = k if n is None else X.mul(n, k)
            if any(x.op == "iv" for x in X.subterms(n)):
                raise Lost(f"line {o.line}: the number of rows")
            first = self.start(i)
            if first is None:
                raise Lost(f"line {o.line}: the first row")
            first = self.canon(first)
            spans.append((o, first, X.add(first, n)))
        at = ZERO
        left = list(spans)
        while left:
            nxt = [s for s in left if self.same(s[1], at)]
            if not nxt:
                o = left[0][0]
                if all(self.basic(s[1]) for s in left) and self.basic(at):
                    raise Bad(o, f"rows of the solver's table are skipped or written twice: rows from {show(left[0][1])} "
                              f"where {show(at)} are written", "rows skipped")
                raise Lost(f"line {o.line}: the first row")
            at = nxt[0][2]
            left.remove(nxt[0])
        self.differ(csa, at, m, "the number of rows written, against the size of the solver's table,")
        self.done += len(spans) + 1

    def same(self, a, b):
        return a is b or (self.prover.proves(self.base(), X.cmp_("<=", a, b))
                          and self.prover.proves(self.base(), X.cmp_("<=", b, a)))

    listed = ()

    def row(self, a, b, csa):
        """One kind of row: left end, right end (after renumbering, as node numbers from 0)."""
        l = X.add(self.canon(a.val), X.sub(self.off[0], ONE))
        r = X.add(self.canon(b.val), X.sub(self.off[1], X.add(self.n, ONE)))
        loops = [(v, self.canon(n)) for v, n in a.loops]
        atoms = [self.canon(x) for x in conj(a.guard)]
        facts = self.base() + loop_facts(loops) + [x for x in atoms if self.basic(x)]
        # the random choices
        rand = {}
        for o in self.ops:
            if o.kind == "kOfN" and o.pos < a.pos and callee(o.idx[2])[0] == "__data__":
                rand[callee(o.idx[2])[1][0]] = self.canon(o.idx[1])
        writes = {o.array for o in self.ops if o.kind in ("__store__", "__update__", "__fill__")}
        self.rand = {k: v for k, v in rand.items() if k not in writes}
        self.prover.memo = {}
        # a listed pair
        for v, f in self.edges.items():
            if l.op == "attr" and r.op == "attr" and l.a[0] is r.a[0] and l.a[0].op == "item" and l.a[0].a[0] is v:
                if (l.a[1], r.a[1]) != (f[1], f[2]):
                    raise Bad(b, "a listed pair reaches the solver with its ends exchanged", "ends exchanged")
                i = l.a[0].a[1].a[0]
                size = [x for x in X.subterms(loops[0][1]) if x.op == "size" and x.a[0] is v] if len(loops) == 1 else []
                if not size or any(not self.isglobal(x) for x in atoms) or not self.covers([i], loops, [size[0]]):
                    if len(loops) == 1 and self.basic(loops[0][1]) and all(self.basic(x) for x in atoms):
                        raise Bad(a, "not every listed pair reaches the solver", "pairs reach the solver")
                    raise Lost(f"line {a.line}: the listed pairs handed to the solver")
                if self.cut(a):
                    raise Lost(f"line {a.line}: a loop that may end early")
                self.listed = (*self.listed, v)
                return
        f = self.numbers({"l": l, "r": r}, a)
        if f:
            if f[1][0] != "l":
                raise Bad(b, "a pair reaches the solver with its ends exchanged", "ends exchanged")
            self.pairs(a, hint={t: f[t][1] for t in f}, what="the solver is given pairs")
            self.listed = (*self.listed, None)
            return
        goals = [("the left end of a row is no node", X.and_(le(ZERO, l), lt(l, self.n))),
                 ("the right end of a row is no node", X.and_(le(ZERO, r), lt(r, self.n))),
                 ("a row that is no listed pair joins two pixels", X.or_(le(N[1], l), le(N[2], r)))]
        for text, goal in goals:
            if self.prover.proves(facts, goal):
                self.done += 1
                continue
            if self.basic(goal) and all(self.basic(x) for x in facts):
                raise Bad(a, f"{text}: ends {show(l)} and {show(r)}", text)
            raise Lost(f"line {a.line}: {text}: not decided")

    # ----------------------------------------------------------- the prices
    def rounded(self, t, o):
        """A price as (scale, quantity): a whole number next to their product"""
        how = None
        if t.op == "int":
            t, how = t.a[0], "down"
        n, a = callee(t)
        if n in ("rint", "nearbyint", "round", "lround", "lrint", "ceil", "floor", "trunc", "llround") and len(a) == 1:
            t, how = a[0], {"ceil": "up", "floor": "down", "trunc": "down"}.get(n, "nearest")
        p = {m: k for m, k in X.poly_of(t).items() if k}
        half = p.pop((), 0)
        if half:
            if how != "down" or half != 0.5:
                return None
            how = "nearest"
        if len(p) != 1:
            return None
        (m, k), = p.items()
        q = num(1)
        for f, e in m:
            for _ in range(e):
                q = X.mul(q, f)
        return k, q, how

    def distance(self, w, p):
        """w is the distance of the pixels p[1] and p[2]: True, False, or None when w is not read"""
        dx, dy = (X.sub(p[1][k], p[2][k]) for k in "xy")
        d2 = X.add(X.mul(dx, dx), X.mul(dy, dy))
        n, a = callee(w)
        if n == "hypot" and len(a) == 2:
            got = X.add(X.mul(a[0], a[0]), X.mul(a[1], a[1]))
        elif n == "sqrt" and len(a) == 1:
            got = a[0]
        else:
            got = X.mul(w, w)
        if got is d2:
            return True
        if self.basic(got):
            return False
        # an integer formula that differs for some offset
        vs = {v for t in (1, 2) for k in "xy" for m in X.poly_of(p[t][k]) for v, _ in m}
        try:
            for a in range(1, 30):
                env = {v: (a * 7 + 11 * i * i * a + 5 * i) % 13 - 6 for i, v in enumerate(sorted(vs, key=show))}
                if amount(got, env) != amount(d2, env):
                    return False
        except KeyError:
            pass
        return None

    def stage_prices(self):
        """A listed pair costs its distance, a row with nobody the outlier cost, and for every pixel there is one
        much dearer row with nobody, so that an assignment exists."""
        OC = self.args["outlierCost"]
        if self.off[2] is not ZERO:
            raise Lost("the prices are changed afterwards")
        scale, plain, dear, seen = {}, [], [], 0
        for (i, loops), os in self.groups.items():
            for a in [o for o in os if o.idx[1] is ZERO]:
                b = [o for o in os if o.idx[1] is ONE and o.guard is a.guard][0]
                mine = set(conj(a.guard))
                ps = [o for o in os if o.idx[1] is num(2) and set(conj(o.guard)) <= mine]
                if not ps and not any(o.idx[1] is num(2) for o in os):
                    raise Bad(a, "a row without a price", "no price")
                if len(ps) != 1:
                    raise Lost(f"line {a.line}: the price of a row")
                o = ps[0]
                v = self.canon(o.val)
                l = X.add(self.canon(a.val), X.sub(self.off[0], ONE))
                r = X.add(self.canon(b.val), X.sub(self.off[1], X.add(self.n, ONE)))
                pair = self.numbers({"l": l, "r": r}, a)
                if l.op == "attr" and l.a[0].op == "item" or pair:
                    k = self.rounded(v, o)
                    if k is None:
                        if self.basic(v):
                            raise Bad(o, f"a pair costs {show(v)}, not its distance", "price of a pair")
                        raise Lost(f"line {o.line}: the price of a pair")
                    k, q, how = k
                    if pair:
                        ok = self.distance(q, {t: pair[t][1] for t in pair})
                    else:
                        rec = [x for x in self.ops if x.kind == "__push__" and x.array is l.a[0].a[0]]
                        if q.op != "attr" or q.a[0] is not l.a[0] or len(rec) != 1:
                            if self.basic(q) or q.op == "attr":
                                raise Bad(o, f"a pair costs {show(q)}, not its distance", "price of a pair")
                            raise Lost(f"line {o.line}: the price of a pair")
                        f = X.obj_attrs(rec[0].val)
                        p = self.numbers({x: y for x, y in f.items()}, rec[0])
                        w = self.canon(f[q.a[1]])
                        if q.a[1] in (p[1][0], p[2][0]):
                            raise Bad(o, f"a pair costs the number of a pixel, not its distance", "price of a pair")
                        ok = self.distance(w, {t: p[t][1] for t in p})
                        o = rec[0] if ok is False else o
                        q = w
                    if ok is None:
                        raise Lost(f"line {o.line}: the price of a pair: {show(q)}")
                    if not ok:
                        raise Bad(o, f"a pair costs {show(q)}, not the distance of its pixels", "price of a pair")
                    if how != "nearest":
                        raise Bad(o, "the price of a pair is its scaled distance rounded " + (how or "nowhere"), "rounding")
                    scale[k] = o
                    seen += 1
                    continue
                rand = any(x.op == "load" and x.a[0] in self.rand for t in (l, r) for x in X.subterms(t))
                (plain if rand else dear).append((o, v, l, r, a))
        if len(scale) != 1:
            raise Lost("the scale of the prices")
        (M, at), = scale.items()
        if M < 10:
            raise Bad(at, f"distances are rounded to 1/{M} of a pixel", "scale")
        base = None
        for o, v, l, r, a in plain:
            k = self.rounded(v, o)
            if k is None and not self.basic(v):
                raise Lost(f"line {o.line}: the price of leaving a pixel unmatched")
            if k is None or k[1] is not OC or k[0] != M:
                raise Bad(o, f"leaving a pixel unmatched costs {show(v)}, where a distance d costs {M} d and the outlier "
                          "cost is " + show(OC), "price of an outlier")
            base = v
        if base is None:
            raise Lost("no row leaves a pixel unmatched")
        own = {}
        for o, v, l, r, a in dear:
            p = X.poly_of(v)
            q = X.poly_of(base)
            (m,), (k0,) = q.keys(), q.values()
            if set(p) != {m}:
                k = self.rounded(v, o)
                if k is None or k[1] is not OC:
                    if self.basic(v) or k is not None:
                        raise Bad(o, f"a row of last resort costs {show(v)}", "price of last resort")
                    raise Lost(f"line {o.line}: the price of a row of last resort")
                f = k[0] / M
            else:
                f = p[m] / k0
            if f < 10:
                raise Bad(o, f"a row of last resort costs only {f} times the outlier cost", "price of last resort")
            lo = [(x, self.canon(n)) for x, n in a.loops]
            for t, (e, other, n) in {1: (l, X.sub(r, N[2]), N[1]), 2: (r, X.sub(l, N[1]), N[2])}.items():
                if e is other and self.covers([e], lo, [n]) and all(self.isglobal(self.canon(x)) for x in conj(a.guard)) \
                        and not self.cut(a):
                    own[t] = o
        for t in (1, 2):
            if t not in own:
                o = dear[0][0] if dear else plain[0][0]
                if all(self.basic(self.canon(n)) for x in dear for _, n in x[4].loops) and all(
                        self.basic(x[2]) and self.basic(x[3]) for x in dear):
                    raise Bad(o, f"not every pixel of map {t} has a row of its own with nobody: an assignment need not exist",
                              "last resort missing")
                raise Lost(f"line {o.line}: the rows of last resort of map {t}")
        self.done += seen + len(plain) + len(dear) + 3

    # -------------------------------------------------------- the total cost
    def stage_cost(self):
        """The cost returned: half its distance for every matched pixel of either map, the outlier cost for the others."""
        OC = self.args["outlierCost"]
        o = self.ops[-1]
        v = self.canon(self.run.value)
        early = X.cmp_("==", ZERO, self.rows_m)
        v = X.subst(v, lambda x: FALSE if x is early or x.op == "cmp" and x.a[0] == "==" and ZERO in x.a[1:]
                    and self.rows_m in x.a[1:] else None)
        loops, acc = [], []
        while True:
            if v.op == "loopgen" and len(v.a[1].a) == 1 and not v.a[3].a[0].a:
                loops.append(v.a[0])
                init = v.a[1].a[0]
                if acc and init is not acc[-1] or not acc and init is not ZERO:
                    raise Lost("the sum does not start at nothing")
                v = v.a[2].a[0].a[0]
                mv = [x for x in X.subterms(v) if x.op == "mv"]
                mv = [x for x in mv if x not in acc]
                lv = sorted(mv, key=lambda x: x.a[0])
                if v.op == "loopgen":
                    if v.a[1].a[0].op != "mv":
                        raise Lost("the sum does not start at nothing")
                    acc.append(v.a[1].a[0])
                elif lv:
                    acc.append(lv[0])
                continue
            break
        if len(loops) != 2 or {*loops} != {W, H} or not acc:
            raise Lost("the cost is not summed over the pixels")
        here = acc[-1]
        reads = {}
        for x in X.subterms(v):
            if x.op == "truth" and x.a[0].op == "load" and x.a[0].a[0] in self.bm.values():
                t = 1 if x.a[0].a[0] is self.bm[1] else 2
                y_, x_ = x.a[0].a[1].a
                reads.setdefault(("E", t), set()).add((x, x_, y_))
            elif x.op == "attr" and x.a[0].op == "load" and x.a[1] in "xy":
                for t in (1, 2):
                    if x.a[0].a[0] is self.found[t].array:
                        x_, y_ = x.a[0].a[1].a
                        reads.setdefault((x.a[1], t), set()).add((x, x_, y_))
        px = {(b, c) for k in reads for _, b, c in reads[k]}
        if len(px) != 1:
            if px and all(self.basic(q) for p in px for q in p):
                raise Bad(o, "the cost mixes different pixels", "cost")
            raise Lost("the pixels whose cost is summed")
        (x_, y_), = px
        if x_.op != "bv" or y_.op != "bv" or x_ is y_:
            raise Lost("the pixels whose cost is summed")
        order = {W: x_, H: y_}
        if order[loops[0]].a[0] == order[loops[1]].a[0] or (order[loops[0]].a[0] < order[loops[1]].a[0]):
            raise Bad(o, "the cost is summed over the transposed image", "cost")
        for e1 in (0, 1):
            for k1 in (0, 1):
                for e2 in (0, 1):
                    for k2 in (0, 1):
                        E, K = {1: e1, 2: e2}, {1: k1, 2: k2}
                        m = {}
                        for (f, t), xs in reads.items():
                            for x, _, _ in xs:
                                m[x] = (TRUE if E[t] else FALSE) if f == "E" else sym(f"partner {f}{t}") if K[t] else num(-1)
                        g = X.subst(v, lambda x: m.get(x))
                        P = {t: {f: sym(f"partner {f}{t}") for f in "xy"} for t in (1, 2)}
                        free = {q for t in (1, 2) for q in P[t].values()}
                        g = X.subst(g, lambda x: FALSE if x.op == "cmp" and x.a[0] in ("==", "<") and (
                            x.a[1] in free and x.a[2] in (num(-1), ZERO) or x.a[0] == "==" and x.a[2] in free
                            and x.a[1] in (num(-1), ZERO)) else None)
                        want = here
                        for t in (1, 2):
                            if E[t]:
                                dx, dy = X.sub(x_, P[t]["x"]), X.sub(y_, P[t]["y"])
                                d2 = X.add(X.mul(dx, dx), X.mul(dy, dy))
                                want = X.add(want, X.mul(num(0.5), mk("native", "sqrt", mk("tuple", d2))) if K[t] else OC)
                        if g is want:
                            continue
                        if self.understood(g):
                            what = " and ".join(f"the pixel is {'a matched' if K[t] else 'an unmatched'} edge pixel of map {t}"
                                                if E[t] else f"no edge pixel of map {t}" for t in (1, 2))
                            raise Bad(o, f"where {what}, the cost grows by {show(X.sub(g, here))}, not "
                                      f"{show(X.sub(want, here))}", "cost")
                        raise Lost("the cost of a pixel: " + show(g))
        self.done += 16

    def understood(self, t):
        return not any(x.op in ("opq", "lost", "undef", "load", "ite", "loopgen", "call") or x.op == "native" and x.a[0] not in (
            "sqrt", "hypot", "abs", "fabs") for x in X.subterms(t))

    # ---------------------------------------------------------- the answer
    def forward(self, t, pos, depth=0):
        """Reads of tables that one loop filled, replaced by what it wrote there."""
        if depth > 4:
            return t

        def fn(x):
            if x.op != "load" or x.a[0].op != "carr" or x.a[0] in self.marks or x.a[0] in [p for v, p in self.nodes.values()]:
                return None
            idx = [self.canon(i) for i in x.a[1].a]
            ws = [o for o in self.ops if o.array is x.a[0] and o.kind not in ("__load__", "__new__") and o.pos < pos]
            hit = []
            for o in ws:
                if o.kind != "__store__":
                    return None
                if any(i.op == "num" and j.op == "num" and i is not j for i, j in zip(o.idx, idx)):
                    continue
                hit.append(o)
            if len(hit) != 1:
                return None
            o = hit[0]
            if any(not self.isglobal(a) for a in conj(o.guard)) or self.cut(o):
                return None
            var = [(i, j) for i, j in zip(o.idx, idx) if i.op != "num"]
            dims = [self.canon(d) for d, i in zip(self.I.dims[x.a[0]], o.idx) if i.op != "num"]
            if not self.covers([i for i, j in var], o.loops, dims):
                return None
            syms = [sym(f"index {k}") for k in range(len(var))]
            s = solve([(a, self.canon(i)) for a, (i, j) in zip(syms, var)], [(v, self.canon(n)) for v, n in o.loops])[0]
            to = {a: j for a, (i, j) in zip(syms, var)}
            y = X.subst(self.canon(o.val), lambda z: s.get(z))
            y = X.subst(y, lambda z: to.get(z))
            return self.forward(y, o.pos, depth + 1)
        return X.subst(t, fn)

    def pixel_of(self, t, op):
        """(map, solver end) when the record or field pair is the pixel of a node"""
        if t.op == "attr" and t.a[0].op == "item":
            for k, (v, p) in self.nodes.items():
                if t.a[0].a[0] is v:
                    return k, t.a[0].a[1].a[0], t.a[1]
        return None

    def end(self, t, op):
        """0 or 1: which end of the solver's answer the node number is, and the answer"""
        for m in X.poly_of(t):
            for f, e in m:
                if callee(f)[0] == "__out__":
                    call, k = callee(f)[1]
                    want = X.sub(f, ONE) if k is ZERO else X.sub(f, X.add(self.n, ONE))
                    if k not in (ZERO, ONE):
                        raise Bad(op, "a cost is read as a node", "answer read")
                    if t is not want:
                        self.differ(op, t, want, "the node read from the answer")
                    return k.a[0], call
        raise Lost(f"line {op.line}: the node read is not the solver's")

    def stage_answer(self):
        """A matched pair of the answer is recorded for both of its pixels."""
        found, every = {}, []
        for o in self.ops:
            if o.kind != "__store__" or len(o.idx) != 2:
                continue
            idx = [self.pixel_of(self.forward(self.canon(i), o.pos), o) for i in o.idx]
            if None in idx:
                continue
            q = self.coords(o.array, o.idx, o)
            px = {k: self.pixel_of(self.forward(t, o.pos), o) for k, t in q.items()}
            t, node = px["x"][0], px["x"][1]
            if any(p[0] != t or p[1] is not node for p in px.values()):
                raise Lost(f"line {o.line}: a pixel put together from two")
            if px["x"][2] != "x" or px["y"][2] != "y":
                raise Bad(o, f"{name(o.array)} is written at the transposed pixel", "transposed")
            val = self.recorded(o)
            if val is None:
                raise Lost(f"line {o.line}: what is recorded for a match")
            u, other = val
            if u == t:
                raise Bad(o, f"a pixel of map {t} is recorded as matched to a pixel of its own map", "own map")
            k, call = self.end(node, o)
            k2, call2 = self.end(other, o)
            if call is not call2:
                raise Lost(f"line {o.line}: two answers")
            if k != t - 1 or k2 != u - 1:
                raise Bad(o, "the two ends of an answer are exchanged", "ends exchanged")
            I, J = (node, other) if t == 1 else (other, node)
            atoms = [self.forward(self.canon(a), o.pos) for a in conj(o.guard)]
            facts = self.base() + [a for a in atoms]
            for x, n in ((I, N[1]), (J, N[2])):
                if not self.prover.proves(facts, lt(x, n)):
                    if all(self.basic(f) for f in facts):
                        raise Bad(o, f"a node that stands for no pixel is read as one: {show(lt(x, n))} is not ensured",
                                  "outlier read as a pixel")
                    raise Lost(f"line {o.line}: which answers are matches")
            both = self.base() + [lt(I, N[1]), lt(J, N[2]), le(ZERO, I), le(ZERO, J)]
            for a in atoms:
                if self.prover.proves(both, a) or self.isglobal(a) and self.nonempty(a, both):
                    continue
                if self.basic(a):
                    raise Bad(o, f"a match is only recorded for {name(o.array)} where {show(a)}", "match not recorded")
                raise Lost(f"line {o.line}: which matches are recorded")
            i = callee(call)
            if i[0] != "CSA_edge" or len(o.loops) != 1 or not self.covers([self.canon(i[1][1])], o.loops, [self.n]):
                if i[0] == "CSA_edge" and len(o.loops) == 1 and self.basic(self.canon(o.loops[0][1])):
                    raise Bad(o, "not every pair of the answer is read", "answer read")
                raise Lost(f"line {o.line}: the answers read")
            if self.cut(o):
                b = [b for b in self.ops if b.kind == "__break__" and o.loops[:len(b.loops)] == b.loops][0]
                raise Bad(b, "the loop over the answer ends early", "answer read") if all(
                    self.basic(self.forward(self.canon(a), b.pos)) for a in conj(b.guard)) else Lost("a loop that ends early")
            every.append(o)
            if t in found:
                if found[t].array is o.array:
                    raise Lost(f"line {o.line}: matches of map {t} are recorded twice")
                if self.final(found[t], t) >= self.final(o, t):
                    continue
            found[t] = o
        for t in (1, 2):
            if t not in found:
                if found:
                    raise Bad(found[3 - t], f"matches are recorded for map {3 - t} only", "recorded one way")
                raise Lost("the matches recorded are not found")
        self.found = found
        self.tables = [o.array for o in every]
        self.done += 8

    def nonempty(self, a, facts):
        """The early exit for an empty problem"""
        return a.op == "not" and a.a[0].op == "cmp" and a.a[0].a[0] == "==" and (
            {a.a[0].a[1], a.a[0].a[2]} == {ZERO, self.rows_m}) or a is lt(ZERO, self.rows_m)

    def recorded(self, o):
        """(map, node) of the pixel recorded"""
        if o.val.op == "obj":
            r = X.obj_attrs(o.val)
            if set(r) != {"x", "y"}:
                return None
            ps = {k: self.pixel_of(self.forward(self.canon(v), o.pos), o) for k, v in r.items()}
            if None in ps.values():
                return None
            if ps["x"][:2] != ps["y"][:2]:
                return None
            if (ps["x"][2], ps["y"][2]) != ("x", "y"):
                raise Bad(o, f"{name(o.array)} records the transposed pixel", "transposed")
            return ps["x"][:2]
        p = X.poly_of(self.forward(self.canon(o.val), o.pos))
        px = None
        for m in p:
            for f, e in m:
                q = self.pixel_of(f, o)
                if q:
                    px = q[:2] if px in (None, q[:2]) else False
        if not px:
            return None
        v = self.nodes[px[0]][0]
        it = mk("item", v, mk("tuple", px[1]), num(0))
        t = X.subst(self.forward(self.canon(o.val), o.pos), lambda x: sym("partner " + x.a[1]) if self.pixel_of(x, o) else None)
        want = X.add(X.mul(sym("partner x"), H), sym("partner y"), ONE)
        if t is not want:
            self.differ(o, t, want, "the number recorded for a partner")
        return px

    def final(self, o, t):
        """2 where the record is the output itself, 1 where the output is filled from it, else 0"""
        out = self.I.whole.get(self.m[t])
        if o.array is out:
            return 2
        return 1 if any(w.array is out and w.kind == "__store__" and X.contains(
            w.val, lambda x: x.op == "load" and x.a[0] is o.array) for w in self.ops) else 0

    def stage_output(self):
        """The outputs hold the partner's number, column by column from 1, and 0 where there is none."""
        for t in (1, 2):
            out = self.I.whole.get(self.m[t])
            if out is None:
                raise Lost(f"m{t} is not set up")
            new = [o for o in self.ops if o.kind == "__new__" and o.array is out][0]
            if [self.canon(d) for d in self.I.dims[out]] != [H, W]:
                raise Bad(new, f"m{t} is {tuple(show(x) for x in self.I.dims[out])}", "output size")
            ws = [o for o in self.ops if o.array is out and o.kind not in ("__load__", "__new__")]
            store = self.found[t]
            if store.array is out:
                if ws != [store]:
                    raise Lost(f"m{t} is written elsewhere too")
                continue
            q = store.array
            if len(ws) != 1 or ws[0].kind != "__store__":
                if not ws:
                    raise Bad(new, f"m{t} is never filled", "output filled")
                raise Lost(f"m{t} is written in several places")
            o = ws[0]
            if q in (f.array for k, f in self.found.items() if k != t):
                raise Lost("one table for both maps")
            # the table of partners starts empty
            before = [w for w in self.ops if w.array is q and w.kind not in ("__load__", "__new__") and w is not store]
            start = None
            for w in before:
                r = X.obj_attrs(w.val) if w.val is not None and w.val.op == "obj" else {}
                if w.pos > store.pos or not self.everywhere(w) and w.kind != "__fill__" or {k: v for k, v in r.items()} != {
                        "x": num(-1), "y": num(-1)}:
                    if w.pos < store.pos and r and all(v.op == "num" for v in r.values()) and not self.everywhere(w):
                        self.short(w, [self.canon(i) for i in w.idx], [self.canon(d) for d in self.I.dims[q]],
                                   f"{q.a[0]} is not cleared everywhere")
                    if w.pos < store.pos and r and all(v.op == "num" for v in r.values()):
                        raise Bad(w, f"{q.a[0]} starts with the partner ({show(r['x'])}, {show(r['y'])})", "starts empty")
                    raise Lost(f"line {w.line}: {show(q)} is written")
                start = w
            if start is None:
                raise Bad(store, f"{q.a[0]} is never cleared", "starts empty")
            at = self.coords(out, o.idx, o)
            loads = [x for x in X.subterms(self.canon(o.val)) if x.op == "load"]
            other = [x for x in loads if x.a[0] is not q]
            if other and all(x.a[0] in (f.array for f in self.found.values()) for x in other):
                raise Bad(o, f"m{t} is filled from the partners of map {3 - t}", "partner table")
            if other or not loads:
                raise Lost(f"line {o.line}: what m{t} is filled with")
            for x in loads:
                c = self.coords(q, list(x.a[1].a), o)
                if any(c[k] is not at[k] for k in "xy"):
                    raise Bad(o, f"m{t} at ({show(at['x'])}, {show(at['y'])}) is filled from the partner of "
                              f"({show(c['x'])}, {show(c['y'])})", "pixel read")
            px, py = sym("partner x"), sym("partner y")
            conv = lambda y: X.subst(y, lambda x: {"x": px, "y": py}.get(x.a[1]) if x.op == "attr" and x.a[0] in loads
                                     else None)
            self.differ(o, conv(self.canon(o.val)), X.add(X.mul(px, H), py, ONE), f"the number recorded in m{t}")
            if not self.covers([at["x"], at["y"]], o.loops, [W, H]) or self.cut(o):
                self.short(o, [at["x"], at["y"]], [W, H], f"m{t} is not filled everywhere")
            atoms = [conv(self.canon(a)) for a in conj(o.guard)]
            e = self.edge(t, at)
            none = self.base() + [X.cmp_("==", px, num(-1)), X.cmp_("==", py, num(-1))]
            if not self.prover.proves(none + atoms, FALSE):
                if all(self.basic(a) for a in atoms):
                    raise Bad(o, f"m{t} records a partner for pixels that have none", "partner without a match")
                raise Lost(f"line {o.line}: when m{t} is filled")
            some = self.base() + inside(px, W) + inside(py, H) + [e]
            for a in atoms:
                if self.prover.proves(some, a) or self.isglobal(a) and self.nonempty(a, some):
                    continue
                if self.test(a) and self.test(a)[0] in self.marks and self.marks[self.test(a)[0]][0] == t:
                    c = self.coords(self.test(a)[0], self.test(a)[1], o)
                    if all(c[k] is at[k] for k in "xy"):
                        continue
                if self.basic(a):
                    raise Bad(o, f"m{t} leaves matches out: only where {show(a)}", "match left out")
                raise Lost(f"line {o.line}: when m{t} is filled")
            self.done += 5

    # ------------------------------------------------------------- bounds
    def stage_bounds(self):
        """Every element read or written of an array over the image exists."""
        n = 0
        for o in self.ops:
            if o.kind not in ("__load__", "__store__", "__update__") or o.array is None:
                continue
            a = o.array
            if a in self.bm.values():
                dims = [H, W]
            elif a.op == "carr":
                dims = [self.canon(d) for d in self.I.dims[a]]
            else:
                continue
            facts = self.base() + loop_facts([(v, self.canon(k)) for v, k in o.loops])
            facts += [self.canon(x) for x in conj(o.guard)]
            for i, d in zip(o.idx, dims):
                i = self.canon(i)
                if any(x.op == "mu" for x in X.subterms(i)):
                    continue  # row numbers: stage_rows
                facts2 = [f for f in facts if self.basic(f)]
                for f in inside(i, d):
                    if self.prover.proves(facts2, f):
                        n += 1
                        continue
                    if self.basic(f) and len(facts2) == len(facts):
                        raise Bad(o, f"{name(a)} is accessed outside its bounds: {show(f)} is not ensured", "out of bounds")
                    raise Lost(f"line {o.line}: bounds of {show(a)}: not decided")
        self.done += n
        return n


def name(a):
    return str(a.a[0])


def amount(t, env):
    """Value of an integer formula; KeyError when it is not one."""
    if t in env:
        return env[t]
    if t.op == "num":
        return t.a[0]
    if t.op == "poly" or t.op == "mono":
        r = 0
        for m, k in X.poly_of(t).items():
            for f, e in m:
                if e < 0 or f is t:
                    raise KeyError(t)
                k = k * amount(f, env) ** e
            r += k
        return r
    n, a = callee(t) if t.op != "abs" else ("abs", t.a)
    f = {"abs": abs, "fabs": abs, "max": max, "min": min, "std::abs": abs, "fmax": max, "fmin": min}.get(
        str(n).replace("builtins.", "")) if n else None
    if f is None:
        raise KeyError(t)
    return f(*[amount(x, env) for x in a])


def finish(c, title, fn):
    """Runs one stage: its outcome as an obligation."""
    try:
        r = fn()
        c.ok(title, r if isinstance(r, str) else "")
        return True
    except Bad as e:
        c.violate(title, e.op.file, e.op.line, title, e.text, key=e.key)
    except Lost as e:
        c.undecided(title, str(e))
    return False


def C20(c):
    try:
        M = Matcher(c)
    except Lost as e:
        c.undecided("the matcher", str(e))
        return
    stages = [("pixels marked: exactly those with an edge pixel of the other map within the tolerance", M.stage_marks),
              ("every marked pixel has its own node", M.stage_nodes),
              ("pairs listed: exactly the pairs of edge pixels within the tolerance", M.stage_edges),
              ("the solver's rows are the listed pairs and pairs with nobody", M.stage_rows),
              ("matches are recorded for both pixels", M.stage_answer),
              ("outputs: the partner, or 0", M.stage_output)]
    for title, fn in stages:
        if not finish(c, title, fn):
            break
    finish(c, "reads and writes inside the images", M.stage_bounds)
    containers.layout(c)
    containers.draw(c)


def entry(c):
    """correspond_pixels: the prices it hands on, and what it gives back"""
    from . import small
    P = "pyEdgeEval._lib.correspond_pixels"
    h, w = S("h", "int"), S("w", "int")
    md, oc = S("max_dist", "float"), S("outlier_cost", "float")
    n = small.arg_count(c, P)
    g, ev = small.native_run(c, P, lambda a, b: [a, b, md, oc][:n], mk("tuple", h, w), mk("tuple", h, w))
    X.SHAPES.clear()
    wh = small.where(c, P)
    ev = [e for e in ev if e.name == "matchEdgeMaps"]
    if not ev or n < 4:
        c.undecided("correspond_pixels: native call", "no call of matchEdgeMaps found")
        return
    diag = mk("call", mk("ext", "numpy.sqrt"), mk("tuple", X.add(X.mul(h, h), X.mul(w, w))), mk("kw"))
    for e in ev:
        loc = (e.file, e.line) if getattr(e, "file", None) else wh
        A = list(e.args["args"].a)
        c.compare("correspond_pixels: outlier cost", X.subst(A[3], small.nofloat), X.mul(X.mul(oc, md), diag),
                  "an unmatched pixel costs outlier_cost times the tolerance in pixels", loc)
        for what, bad in (("an outlier cost of 1", {oc: num(1)}), ("an outlier cost of 1/2", {oc: num(0.5)}),
                          ("a tolerance of 0", {md: num(0)}), ("a negative tolerance", {md: num(-0.01)})):
            left = X.subst(X.subst(e.guard, small.nofloat), lambda x: bad.get(x))
            if left is FALSE:
                c.ok(f"correspond_pixels: {what} refused")
            elif any(x.op in UNKNOWN_OPS for x in X.subterms(left)):
                c.undecided(f"correspond_pixels: {what} refused", show(left)[:200])
            else:
                c.violate(f"correspond_pixels: {what} refused", *loc,
                          "an unmatched pixel costs more than any pair within the tolerance", f"{what} is accepted")
    v = g.value
    for k, want in ((2, None), (3, X.mul(X.mul(oc, md), diag))):
        x = X.subst(X.index(v, num(k)), small.nofloat)
        if want is None:
            name_ = "correspond_pixels: cost returned"
            if x.op == "native" and x.a[0] == "matchEdgeMaps":
                c.ok(name_)
            elif any(y.op in UNKNOWN_OPS for y in X.subterms(x)):
                c.undecided(name_, show(x)[:200])
            else:
                c.violate(name_, *wh, "the cost of the match is returned", f"{X.pretty(x)[:200]} is returned as its cost")
            continue
        c.compare("correspond_pixels: outlier cost returned", x, want,
                  "the outlier cost in use is returned", wh)


def C38(c):
    entry(c)
    try:
        M = Matcher(c)
    except Lost as e:
        c.undecided("the matcher", str(e))
        return
    try:
        for f in (M.stage_marks, M.stage_nodes, M.stage_edges, M.stage_rows):
            f()
    except (Lost, Bad) as e:
        c.undecided("the rows of the solver", str(e))
        return
    finish(c, "prices of the solver's rows", M.stage_prices)
    try:
        M.stage_answer()
    except (Lost, Bad) as e:
        c.undecided("the matches recorded", str(e))
        return
    finish(c, "the cost of the match", M.stage_cost)
    containers.layout(c)
    containers.draw(c)


# ------------------------------------------------------------------ suppression
QX, QY, QD, R, SB, MM = sym("the pixel's column"), sym("the pixel's row"), sym("the offset"), sym("r"), sym("s"), sym("m")
HALF = [X.cmp_("<=", num(2), W), X.cmp_("<=", num(2), H)]


class Piece:
    """One write of the output: where, what, when."""

    def __init__(self, op, idx, val, atoms, loops, split=()):
        self.op, self.idx, self.val, self.atoms, self.loops, self.split = op, idx, val, atoms, loops, split


class Suppress(Source):
    reals = ("m",)

    def __init__(self, c):
        self.o, self.e, self.a = S("out"), S("edge"), S("ori")
        Source.__init__(self, c, BENMS, "benms", dict(out=self.o, edge=self.e, ori=self.a, r=R, s=SB, m=MM))
        self.out = self.I.whole.get(self.o)
        self.forward = {}
        self.done = 0

    def basic(self, t):
        def known(x):
            return callee(x)[0] in ("cos", "sin", "max", "min", "fmax", "fmin", "abs", "int", "floor", "ceil", "rint")
        return all(x.op in ("poly", "mono", "num", "sym", "cmp", "not", "and", "or", "ite", "bool", "truth", "tuple", "kw",
                            "int", "floordiv", "ext", "iv", "carr") or x.op in ("native", "call") and known(x)
                   or x.op == "load" and x.a[0] in (self.e, self.a, self.out) for x in X.subterms(t))

    def canon(self, t):
        def fn(x):
            if x.op == "native" and x.a[0] == "__dim__" and x.a[1].a[0] in (self.o, self.e, self.a):
                return H if x.a[1].a[1].a[0] == 0 else W
            return self.forward.get(x)
        return X.subst(t, fn, self.memo)

    def equal(self, facts, a, b):
        return a is b or self.prover.proves(list(facts), le(a, b)) and self.prover.proves(list(facts), le(b, a))

    # ---------------------------------------------------------------- pieces
    def pieces(self):
        if self.out is None:
            raise Lost("the output is not set up")
        new = [o for o in self.ops if o.array is self.out and o.kind in ("__new__", "__copy__")][0]
        self.new = new
        if [self.canon(d) for d in self.I.dims[self.out]] != [H, W]:
            raise Bad(new, "the output is " + " by ".join(show(self.canon(x)) for x in self.I.dims[self.out]), "output size")
        if conj(new.guard):
            raise Lost(f"line {new.line}: the output is set up conditionally")
        self.base, self.zero, self.fade = [], [], []
        writes = [o for o in self.ops if o.array is self.out and o.kind not in ("__load__", "__new__")]
        # a read right after the pixel's own store gives what was stored
        for o in writes:
            if o.kind == "__store__" and len(o.idx) == 2:
                n = sum(1 for w in writes if w.pos <= o.pos and w.kind != "__copy__")
                idx = mk("tuple", *o.idx)
                for x in self.ops:
                    if x.kind == "__load__" and x.val is mk("load", self.out, idx, num(n)) and x.pos > o.pos and \
                            x.loops[:len(o.loops)] == o.loops and set(conj(o.guard)) <= set(conj(x.guard)):
                        self.forward[x.val] = X.subst(o.val, lambda t: None)
        self.memo = {}
        for o in writes:
            if o.kind == "__copy__":
                if o.val is not self.e:
                    raise Lost(f"line {o.line}: the output starts as a copy of {show(o.val)}")
                self.base.append(Piece(o, None, None, [], []))
                continue
            if o.kind not in ("__store__", "__update__") or len(o.idx) != 2:
                raise Lost(f"line {o.line}: {o.kind}")
            idx = [self.canon(i) for i in o.idx]
            atoms = [self.canon(a) for a in conj(o.guard)]
            loops = [(v, self.canon(n)) for v, n in o.loops]
            if o.kind == "__update__":
                k, f = o.val.a[0].a[0], self.canon(o.val.a[1])
                if k not in ("*", "/"):
                    raise Bad(o, f"a strength is changed by {k} {show(f)}", "strength changed")
                self.fade.append(Piece(o, idx, f if k == "*" else X.inv(f), atoms, loops))
                continue
            own = [x for x in X.subterms(o.val) if x.op == "load" and x.a[0] is self.out and list(x.a[1].a) == o.idx
                   and x not in self.forward]
            if own:
                f = X.div(self.canon(o.val), self.canon(own[0])) if len(own) == 1 else None
                if f is None or X.contains(f, lambda x: x is self.canon(own[0])):
                    raise Lost(f"line {o.line}: {show(o.val)}")
                self.fade.append(Piece(o, idx, f, atoms, loops))
                continue
            for val, more in self.cases(self.canon(o.val)):
                p = Piece(o, idx, val, atoms + more, loops, more)
                if val in (ZERO, num(0.0)):
                    self.zero.append(p)
                elif val is self.strength(idx):
                    self.base.append(p)
                elif self.basic(val):
                    raise Bad(o, f"a pixel is given {show(val)}, neither its own strength nor 0", "value given")
                else:
                    raise Lost(f"line {o.line}: a pixel is given {show(val)}")
        if not self.base:
            raise Bad(new, "no pixel ever gets its own strength", "strengths copied")

    def cases(self, v):
        if v.op == "ite":
            c, a, b = v.a
            return [(x, conj(c) + m) for x, m in self.cases(a)] + [(x, conj(X.not_(c)) + m) for x, m in self.cases(b)]
        return [(v, [])]

    def strength(self, idx):
        return mk("load", self.e, mk("tuple", *idx), num(0))

    # ---------------------------------------------------------------- stages
    def stage_base(self):
        """Every pixel starts with its own strength."""
        if len(self.base) != 1:
            raise Lost(f"line {self.base[1].op.line}: strengths are copied in two places")
        b = self.base[0]
        later = [p for p in self.zero + self.fade if p.op is not b.op]
        if any(p.op.pos < b.op.pos for p in later):
            p = [p for p in later if p.op.pos < b.op.pos][0]
            if p.loops[:1] == b.loops[:1] and p.loops:
                raise Lost(f"line {p.op.line}: written before the strength is copied")
            raise Bad(b.op, "strengths are copied over what was suppressed or faded before", "copied late")
        if b.idx is None:
            return
        for p in self.fade:
            if p.loops and b.loops and p.loops[0] == b.loops[0]:
                raise Lost(f"line {p.op.line}: fading and copying in one loop")
        own = [a for a in b.atoms if a not in b.split]
        if own or b.split and not any(
                p.op is b.op and X.and_(*p.split) is X.not_(X.and_(*b.split)) for p in self.zero):
            if self.basic(X.and_(*b.atoms)):
                raise Bad(b.op, f"strengths are copied only where {show(X.and_(*b.atoms))}", "strengths copied")
            raise Lost(f"line {b.op.line}: where strengths are copied")
        if not self.covers(b.idx, b.loops, [H, W]):
            if all(self.basic(n) for v, n in b.loops):
                raise Bad(b.op, "not every pixel starts with its own strength", "strengths copied")
            raise Lost(f"line {b.op.line}: which pixels are copied")
        self.nobreak(b, [(QY, b.idx[0]), (QX, b.idx[1])], b.loops, HALF + inside(QX, W) + inside(QY, H),
                     "strengths are copied")
        self.done += 3

    def nobreak(self, p, coords, loops, full, what):
        s = solve(coords, loops)
        if s is None or s[1]:
            raise Lost(f"line {p.op.line}: the loops do not run over the pixels")
        self.breaks(p.op, s[0], full, what)
        return s[0]

    def stage_zero(self):
        """Suppressed: exactly where an interpolated strength along the pixel's own normal is larger."""
        if not self.zero:
            raise Bad(self.new, "nothing is ever suppressed", "suppression")
        sets = []
        for p in self.zero:
            for atoms, loops in self.alternatives(p):
                sets.append(self.one(p, atoms, loops))
        full = HALF + inside(QX, W) + inside(QY, H) + [le(X.neg(R), QD), le(QD, R)]
        reach = X.or_(*[X.and_(*s) for s in sets])
        for side in (le(QD, num(-1)), le(ONE, QD)):
            if not self.prover.proves(full + [side], reach):
                if self.basic(reach):
                    raise Bad(self.zero[0].op, "not every offset from -r to r along the normal is compared with, for every "
                              "pixel", "offsets")
                raise Lost(f"line {self.zero[0].op.line}: the offsets compared with")
        self.done += 2

    def alternatives(self, p):
        """The write's condition as alternatives, existential conditions as further loops."""
        todo, out, fresh = [(list(p.atoms), [], list(p.loops))], [], 9000
        while todo:
            left, got, loops = todo.pop()
            if not left:
                out.append((got, loops))
                continue
            a, left = left[0], left[1:]
            if a.op == "exists":
                fresh += 1
                todo.append((conj(X.instantiate(a.a[1], mk("iv", fresh))) + left, got, loops + [(fresh, a.a[0])]))
            elif a.op == "and":
                todo.append((list(a.a) + left, got, loops))
            elif a.op == "or" and X.contains(a, lambda x: x.op == "load" and x.a[0] in (self.e, self.out)):
                todo += [([x] + left, got, loops) for x in a.a]
            else:
                todo.append((left, got + [a], loops))
        return out

    def one(self, p, atoms, loops):
        o = p.op
        y, x = p.idx
        own = self.strength(p.idx)
        cmps, rest = [], []
        for a in atoms:
            ls = [t for t in X.subterms(a) if t.op == "load" and t.a[0] in (self.e, self.out)]
            if not ls:
                rest.append(a)
            elif a is X.not_(X.cmp_("==", own, ZERO)):
                continue  # nothing to suppress there
            else:
                cmps.append(a)
        if not cmps and self.basic(X.and_(*atoms)):
            raise Bad(o, f"a pixel is suppressed where {show(X.and_(*atoms))}, without comparing", "condition")
        if len(cmps) > 1:
            odd = [a for a in cmps if not self.trig(a)]
            if odd and self.basic(odd[0]):
                raise Bad(o, f"a pixel is suppressed only where {show(odd[0])}", "condition")
            raise Lost(f"line {o.line}: when a pixel is suppressed")
        if not cmps or cmps[0].op != "cmp" or cmps[0].a[0] not in ("<", "<="):
            raise Lost(f"line {o.line}: when a pixel is suppressed")
        cmp = cmps[0]
        sure = self.basic(cmp)

        def wrong(text, key):
            return Bad(o, text, key) if sure else Lost(f"line {o.line}: {text}: not decided")
        diff = X.poly_of(X.sub(cmp.a[2], cmp.a[1]))
        mine = {m: k for m, k in diff.items() if any(f is own for f, e in m)}
        want = X.poly_of(X.mul(num(-1), X.mul(MM, own)))
        around = [t for t in X.subterms(cmp) if t.op == "load" and t.a[0] in (self.e, self.out, self.a) and t is not own
                  and t not in self.angles(cmp)]
        if mine != want:
            raise wrong(f"the strength compared is not the pixel's own times m, but where {show(cmp)}", "own strength")
        if any(t.a[0] is not self.e for t in around):
            t = [t for t in around if t.a[0] is not self.e][0]
            raise wrong(f"compared with {show(t.a[0])} instead of the given strengths", "map compared")
        rest_poly = X.from_poly({m: k for m, k in diff.items() if m not in mine})
        facts = HALF + [self.canon(f) for f in loop_facts(loops)] + rest
        pos = []
        for k in (0, 1):
            first = None
            vals = sorted({t.a[1].a[k] for t in around}, key=str)
            for v in vals:
                if all(w is v or X.sub(w, v) is ONE for w in vals):
                    first = v
            if first is None or len(vals) != 2:
                raise wrong("the strength compared with is not interpolated between neighbouring pixels: " + ", ".join(
                    show(v) for v in vals), "neighbours")
            n, a = callee(first)
            if n not in ("int", "floor", "__trunc__") or len(a) != 1:
                raise wrong(f"the neighbours start at {show(first)}", "neighbours")
            if callee(a[0])[0] in ("floor", "int"):
                a = callee(a[0])[1]
            pos.append((first, a[0]))
        (y0, cy), (x0, cx) = pos
        fx, fy = X.sub(cx, x0), X.sub(cy, y0)
        at = lambda dy, dx: self.strength([X.add(y0, num(dy)), X.add(x0, num(dx))])
        inter = ZERO
        for dy in (0, 1):
            for dx in (0, 1):
                wx = fx if dx else X.sub(ONE, fx)
                wy = fy if dy else X.sub(ONE, fy)
                inter = X.add(inter, X.mul(at(dy, dx), X.mul(wx, wy)))
        if rest_poly is not inter:
            raise wrong("the strength compared with is not the bilinear interpolation between the four neighbours", "weights")
        if cmp.a[0] != "<":
            raise wrong("a pixel is suppressed where the other strength is only equal", "strictly larger")
        # where along the normal
        d = None
        for fn, c, v, n, nm in (("cos", cx, x, W, "column"), ("sin", cy, y, H, "row")):
            ang = mk("load", self.a, mk("tuple", y, x), num(0))
            trig = [t for t in X.subterms(c) if callee(t)[0] in ("cos", "sin")]
            if not trig or any(callee(t)[0] != fn for t in trig):
                raise wrong(f"the {nm} compared at does not move with the {'cosine' if fn == 'cos' else 'sine'} of the "
                            "orientation", "normal")
            if any(callee(t)[1] != [ang] for t in trig):
                raise wrong("the orientation used is not the pixel's own", "own orientation")
            t = trig[0]
            ds = set()
            for q in X.subterms(c):
                if q.op in ("poly", "mono"):
                    pd = X.poly_of(q)
                    dd = {tuple(f for f in m if f[0] is not t): k for m, k in pd.items() if (t, 1) in m}
                    if dd:
                        ds.add(X.from_poly(dd))
            if len(ds) != 1 or any(callee(z)[0] in ("cos", "sin") for z in X.subterms(list(ds)[0])):
                raise wrong(f"the {nm} compared at is not on the pixel's normal", "normal")
            dk = ds.pop()
            if d is not None and dk is not d:
                raise wrong(f"the column moves by {show(d)} but the row by {show(dk)} along the normal", "normal")
            d = dk
            u = X.add(v, X.mul(d, t))
            top = X.sub(n, num(1.01))
            inn = facts + [le(ZERO, u), le(u, top)]
            if not self.equal(HALF + inn, c, u):
                raise wrong(f"the {nm} compared at is {show(c)}, not {show(u)}", "point on the normal")
            lo, hi = HALF + [lt(u, ZERO)], HALF + [lt(top, u)]
            if not self.equal(facts + lo, c, ZERO):
                raise wrong(f"a {nm} before the image is not moved to the border", "clamped")
            if not (self.prover.proves(facts + hi, le(top, c)) and self.prover.proves(facts + hi, lt(c, X.sub(n, ONE)))):
                raise wrong(f"a {nm} beyond the image is not moved to the border", "clamped")
            self.done += 3
        # for which pixels and offsets
        s = solve([(QY, y), (QX, x), (QD, d)], loops)
        if s is None or s[1]:
            if sure and s is None and any(coef(X.poly_of(d), v) not in (1, -1, 0) for v in ivs(loops)):
                raise wrong(f"the offsets compared with are {show(d)}", "offsets")
            raise Lost(f"line {o.line}: the loops do not run over pixels and offsets")
        sol = s[0]
        back = lambda t: X.subst(t, lambda z: sol.get(z))
        code = [back(f) for f in rest + [self.canon(f) for f in loop_facts(loops)]]
        have = HALF + code
        for f in inside(QX, W) + inside(QY, H) + [le(X.neg(R), QD), le(QD, R)]:
            self.need(have, f, o, f"a pixel is compared outside the offsets from -r to r: {show(f)} is not ensured",
                      "offsets")
        self.need(have + [X.cmp_("==", QD, ZERO)], FALSE, o, "a pixel is compared with itself", "offsets")
        full = HALF + inside(QX, W) + inside(QY, H) + [le(X.neg(R), QD), le(QD, R)]
        if loops == p.loops:
            self.breaks(o, sol, full, "pixels are compared")
        else:
            self.nobreak(p, [(QY, y), (QX, x)], p.loops, full, "pixels are compared")
        self.done += 8
        return code

    def trig(self, a):
        return [t for t in X.subterms(a) if callee(t)[0] in ("cos", "sin")]

    def angles(self, a):
        return {z for t in self.trig(a) for z in X.subterms(t) if z.op == "load"}

    # ------------------------------------------------------------------ fade
    def border(self, p):
        """The term that is the width of the faded border, min(s, W//2, H//2)."""
        half = [mk("floordiv", d, num(2)) for d in (W, H)]
        for t in [n for v, n in p.loops] + p.atoms + [p.val]:
            for x in X.subterms(t):
                if x.op in ("ite",) or callee(x)[0] in ("min", "fmin"):
                    if X.contains(x, lambda z: z.op == "iv"):
                        continue
                    if all(self.prover.proves(HALF, le(x, b)) for b in [SB] + half) and self.prover.proves(
                            HALF, X.or_(*[le(b, x) for b in [SB] + half])):
                        return x
        return None

    def stage_fade(self):
        """Near the borders, and only there, strengths fall to zero linearly."""
        T_ = sym("the border's width")
        sides = {"left": QX, "right": X.sub(X.sub(W, ONE), QX), "upper": QY, "lower": X.sub(X.sub(H, ONE), QY)}
        found = {}
        for p in self.fade:
            o = p.op
            b = self.border(p)
            sure = all(self.basic(t) for t in [n for v, n in p.loops] + p.atoms + [p.val])
            if b is None:
                if sure:
                    raise Bad(o, "the width of the faded border is not s, limited to half the width and half the height",
                              "border width")
                raise Lost(f"line {o.line}: the width of the faded border")
            sub = lambda t: X.subst(t, lambda x: T_ if x is b else None)
            loops = [(v, sub(n)) for v, n in p.loops]
            s = solve([(QY, sub(p.idx[0])), (QX, sub(p.idx[1]))], loops)
            if s is None or s[1]:
                raise Lost(f"line {o.line}: the loops do not run over pixels")
            back = lambda t: X.subst(t, lambda z: s[0].get(z))
            code = [back(sub(a)) for a in p.atoms] + [back(f) for f in loop_facts(loops)]
            known = HALF + [le(X.mul(num(2), T_), W), le(X.mul(num(2), T_), H), le(T_, SB)]
            f = back(sub(p.val))
            hit = [k for k, d in sides.items() if f is X.div(d, T_)]
            if not hit:
                if sure:
                    raise Bad(o, f"a strength is multiplied by {show(f)}, which is not the distance to a border over the "
                              "border's width", "factor")
                raise Lost(f"line {o.line}: the factor {show(f)}")
            k = hit[0]
            want = inside(QX, W) + inside(QY, H) + [lt(sides[k], T_)]
            for g, h, t in [(want, x, "leaves pixels out") for x in code] + [(code, x, "reaches other pixels") for x in want]:
                if not self.prover.proves(known + list(g), h):
                    if sure:
                        raise Bad(o, f"the fading of the {k} border {t}: {show(h)}", "pixels faded")
                    raise Lost(f"line {o.line}: the pixels of the {k} border")
            if k in found:
                raise Bad(o, f"the {k} border is faded twice", "faded twice")
            found[k] = o
            self.nobreak(Piece(o, p.idx, p.val, [], []), [(QY, sub(p.idx[0])), (QX, sub(p.idx[1]))], loops, known + want,
                         f"the {k} border is faded")
            self.done += len(want) + len(code)
        for k in sides:
            if k not in found:
                raise Bad(self.fade[-1].op if self.fade else self.new, f"the {k} border is not faded", "border left out")

    # ---------------------------------------------------------------- bounds
    def stage_bounds(self):
        """No element outside the images is read or written."""
        n = 0
        for o in self.ops:
            if o.kind not in ("__load__", "__store__", "__update__") or o.array is None:
                continue
            if o.array not in (self.e, self.a, self.out):
                raise Lost(f"line {o.line}: {show(o.array)}")
            loops = [(v, self.canon(k)) for v, k in o.loops]
            facts = HALF + loop_facts(loops)
            full = facts + [self.canon(x) for x in conj(o.guard)]
            for i, d in zip(o.idx, [H, W]):
                for f in inside(self.canon(i), d):
                    few = [x for x in full if not X.contains(x, lambda z: z.op == "load")]
                    if self.prover.proves(few, f):
                        n += 1
                        continue
                    self.need(full, f, o, f"{name(o.array)} is accessed outside the image: {show(f)} is not ensured",
                              "out of bounds")
                    n += 1
        self.done += n
        return f"{n} indices"


def C29(c):
    try:
        M = Suppress(c)
    except Lost as e:
        c.undecided("the suppression", str(e))
        return
    if finish(c, "the output starts with the image's size and only takes strengths, zeros and faded strengths", M.pieces):
        finish(c, "every pixel starts with its own strength", M.stage_base)
        finish(c, "suppressed exactly where a strength along the pixel's own normal is larger", M.stage_zero)
        finish(c, "borders: strengths fall to zero linearly", M.stage_fade)
    if M.out is not None:
        finish(c, "reads and writes inside the images", M.stage_bounds)
    containers.layout(c, arrays=False)
