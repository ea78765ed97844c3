"""The arrays of the native code: where their elements lie, and the numbers drawn for the matcher."""
from .. import terms as X
from ..cpp import Unit
from ..heap import Heap, Mem, Place, State, le, lt
from ..linear import Prover
from ..native import Bad, Lost
from ..terms import T, mk, num

MATCH, MATRIX, KOFN = (f"pyEdgeEval/_lib/src/{n}.cc" for n in ("match", "Matrix", "kofn"))
ZERO, ONE = num(0), num(1)


def sym(n):
    return mk("sym", n)


def show(t):
    return X.pretty(t)


class Arrays:
    """One class, used only through its public methods."""

    def __init__(self, heap, rec, shape, order):
        self.h, self.rec, self.shape, self.order = heap, rec, shape, order
        self.n = 0

    def where(self, d):
        return self.h.at(self.h.body[d["id"]])

    def method(self, name, types, const=None):
        out = []
        for d in self.h.methods(self.rec, name):
            t = [(p.get("type") or {}).get("qualType", "") for p in self.h.params(d)]
            if len(t) == len(types) and all(w in a for a, w in zip(t, types)):
                out.append(d)
        return out

    def ctor(self, types):
        c = [d for d in self.h.methods(self.rec, self.rec["name"], "CXXConstructorDecl")]
        for d in c:
            t = [(p.get("type") or {}).get("qualType", "") for p in self.h.params(d)]
            need = [p for p in self.h.params(d) if not p.get("init")]
            if len(need) <= len(types) <= len(t) and all(w in a for a, w in zip(t, types)):
                return d
        return None

    def only(self, states, d, facts, what):
        """the one way through that is possible, or all of them"""
        out = []
        for s in states:
            if self.h.prover.proves(facts + s.facts, lt(ONE, ZERO)):
                continue
            if s.flow == "throw":
                raise Bad(self.where(d), f"{what}: an exception for arguments that are in range", "refused")
            out.append(s)
        return out

    def equal(self, a, b, facts):
        if a is b:
            return True
        p = self.h.prover
        if isinstance(a, T) and isinstance(b, T):
            if p.proves(facts, le(a, b)) and p.proves(facts, le(b, a)):
                return True
            # products under equalities of their factors
            for f in facts:
                if f.op == "cmp" and f.a[0] == "==":
                    x, y = f.a[1], f.a[2]
                    for u, v in ((x, y), (y, x)):
                        if u.op == "sym":
                            sub = lambda t, u=u, v=v: X.subst(t, lambda z: v if z is u else None)
                            if sub(a) is sub(b):
                                return True
            eqs = {}
            for f in facts:
                if f.op == "cmp" and f.a[0] == "==":
                    for u, v in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                        if u.op == "sym" and u not in eqs and v.op == "sym":
                            eqs[u] = min(u, v, key=lambda z: z.a[0])
            g = lambda t: X.subst(t, lambda z: eqs.get(z) if eqs.get(z) is not z else None)
            return g(a) is g(b)
        return False

    def made(self, dims, facts, this="this", st=None):
        d = self.ctor(["int"] * len(dims))
        if d is None:
            raise Lost(f"{self.rec['name']}: constructor with {len(dims)} sizes")
        return d, self.only(self.h.call(d["id"], this, dims, st or self.blank(facts)), d, facts, "construction")

    def blank(self, facts):
        s = State()
        s.facts = list(facts)
        return s

    def place(self, dims, idx):
        if len(dims) == 1:
            return idx[0]
        return X.add(X.mul(idx[0], dims[1]), idx[1]) if self.order == "rows" else X.add(X.mul(idx[1], dims[0]), idx[0])

    def check_elements(self, states, dims, facts, what, by=None):
        """element (i, j) lies at its own place, inside what was allocated"""
        idx = [sym("i"), sym("j")][:len(dims)]
        facts = facts + [f for i, n in zip(idx, dims) for f in (le(ZERO, i), lt(i, n))]
        total = dims[0] if len(dims) == 1 else X.mul(*dims)
        mems = []
        for d in self.method("operator()", ["int"] * len(dims)):
            for s0 in states:
                for s in self.only(self.h.call(d["id"], "this", idx, s0), d, facts, "access"):
                    r = s.ret
                    if not (isinstance(r, tuple) and r[0] == "elem"):
                        raise Lost(f"{what}: access returns {r}")
                    m = s.mem[r[1]]
                    want = self.place(dims, idx)
                    if not self.equal(r[2], want, facts + s.facts):
                        raise Bad(self.where(d), f"{what}: element ({', '.join(x.a[0] for x in idx)}) is element {show(r[2])} of "
                                  f"the storage, not {show(want)}", "place")
                    if m.freed:
                        raise Bad(self.where(d), f"{what}: the storage has been released", "released")
                    self.room(m, total, facts + s.facts, d, what)
                    mems.append((s0, r[1]))
                    self.n += 1
        return mems

    def room(self, m, total, facts, d, what):
        if m.count is None:
            raise Lost(f"{what}: size of the storage")
        if self.equal(m.count, total, facts) or self.h.prover.proves(facts, le(total, m.count)):
            return
        raise Bad(self.where(d), f"{what}: room for {show(m.count)} elements where {show(total)} are needed", "room")

    def covered(self, s, mem, dims, facts, val, d, what):
        """every element of the storage has been given the value last"""
        m = s.mem[mem]
        total = dims[0] if len(dims) == 1 else X.mul(*dims)
        if not m.writes:
            if m.fill is val:
                return
            raise Bad(self.where(d), f"{what}: elements are left " + ("undefined" if m.fill is None else show(m.fill)), "left out")
        i, v, loops, ln = m.writes[-1]
        got = v(loops, i) if callable(v) else v
        want = val(loops, i) if callable(val) else val
        if got is not want:
            raise Bad(Place(self.h.file, ln) if ln else self.where(d), f"{what}: elements become {show(got)}, not {show(want)}",
                      "value")
        if len(loops) == 1:
            k, lo, hi = loops[0]
            if i is k and self.h.prover.proves(facts, le(lo, ZERO)) and (
                    self.equal(hi, total, facts) or self.h.prover.proves(facts, le(total, hi))):
                return
            if i is k:
                raise Bad(Place(self.h.file, ln), f"{what}: only elements {show(lo)} to {show(hi)} (not included) of {show(total)}",
                          "left out")
        if len(loops) == 2 and len(dims) == 2:
            (k, a, b), (l, c, e) = loops
            for p, q, pd, qd in ((k, l, (a, b), (c, e)), (l, k, (c, e), (a, b))):
                if i is self.place(dims, [p, q]):
                    if all(self.h.prover.proves(facts, le(x[0], ZERO)) and self.h.prover.proves(facts, le(n, x[1]))
                           for x, n in ((pd, dims[0]), (qd, dims[1]))):
                        return
                    raise Bad(Place(self.h.file, ln), f"{what}: not every row and column", "left out")
        raise Lost(f"{what}: elements written: {show(i)}")

    def scalar(self, name, types, args, states, want, facts, what):
        for d in self.method(name, types):
            for s0 in states:
                for s in self.only(self.h.call(d["id"], "this", args, s0), d, facts, what):
                    r = self.h.rv(s, s.ret, {})
                    if not isinstance(r, T):
                        raise Lost(f"{what}: {r}")
                    if not self.equal(r, want, facts + s.facts):
                        raise Bad(self.where(d), f"{what} is {show(r)}, not {show(want)}", name)
                    self.n += 1


def template(heap, rec, rank):
    """Array1D, Array2D as the matcher uses them"""
    A = Arrays(heap, rec, rank, "rows")
    dims = [sym("d0"), sym("d1")][:rank]
    facts = [le(ONE, d) for d in dims]
    d, states = A.made(dims, facts)
    what = f"{rec['name']}"
    mems = A.check_elements(states, dims, facts, what)
    for k, n in enumerate(dims):
        A.scalar("size", ["int"] if rank > 1 else [], [num(k)] if rank > 1 else [], states, n, facts, f"{what}: size {k}")
    for f in A.method("data", []):
        for s0 in states:
            for s in A.only(heap.call(f["id"], "this", [], s0), f, facts, what):
                r = heap.rv(s, s.ret, {})
                if not (isinstance(r, tuple) and r[0] == "ptr"):
                    raise Lost(f"{what}: data() is {r}")
                if r[2] is not ZERO or any(m != r[1] for t, m in mems if t is s0):
                    raise Bad(A.where(f), f"{what}: data() is not where the first element lies", "data")
                A.n += 1
                mems.append((s0, r[1]))
    v = sym("value")
    for f in A.method("init", ["&"]) or A.method("init", [""]):
        for s0 in states:
            for s in A.only(heap.call(f["id"], "this", [v], s0), f, facts, what):
                for m in {m for t, m in mems if t is s0} or set(s.mem):
                    A.covered(s, m, dims, facts + s.facts, v, f, f"{what}: initialisation")
                    A.n += 1
    new = [sym("e0"), sym("e1")][:rank]
    more = facts + [le(ONE, e) for e in new]
    for f in A.method("resize", ["int"] * rank):
        for s0 in states:
            s1 = s0.fork()
            s1.facts += more
            A.check_elements(A.only(heap.call(f["id"], "this", new, s1), f, more, what), new, more, f"{what} resized")
    return A.n


def matrix(heap, rec):
    A = Arrays(heap, rec, 2, "columns")
    dims = [sym("rows"), sym("cols")]
    facts = [le(ZERO, d) for d in dims]
    d, states = A.made(dims, facts)
    mems = A.check_elements(states, dims, facts, "Matrix")
    for s in states:
        for m in {m for t, m in mems if t is s}:
            A.covered(s, m, dims, facts + s.facts, ZERO, d, "Matrix(rows, cols)")
            A.n += 1

    def shape(states, dims, facts, what):
        A.scalar("nrows", [], [], states, dims[0], facts, f"{what}: number of rows")
        A.scalar("ncols", [], [], states, dims[1], facts, f"{what}: number of columns")

    def pointer(states, facts, what):
        out = {}
        for f in A.method("data", []):
            for s0 in states:
                for s in A.only(heap.call(f["id"], "this", [], s0), f, facts, what):
                    r = heap.rv(s, s.ret, {})
                    if not (isinstance(r, tuple) and r[0] == "ptr"):
                        raise Lost(f"{what}: data() is {r}")
                    if r[2] is not ZERO:
                        raise Bad(A.where(f), f"{what}: data() is not the first element", "data")
                    out[id(s0)] = r[1]
                    A.n += 1
        return out

    shape(states, dims, facts, "Matrix")
    ptr = pointer(states, facts, "Matrix")
    for s0, m in mems:
        if ptr.get(id(s0)) not in (None, m):
            raise Bad(A.where(d), "Matrix: data() is not where the elements lie", "data")
    # by one index
    i = sym("i")
    within = facts + [le(ZERO, i), lt(i, X.mul(*dims))]
    for f in A.method("operator()", ["int"]):
        for s0 in states:
            s1 = s0.fork()
            s1.facts += within
            for s in A.only(heap.call(f["id"], "this", [i], s1), f, within, "Matrix: access by one index"):
                if not (isinstance(s.ret, tuple) and s.ret[0] == "elem"):
                    raise Lost("access by one index")
                if s.ret[2] is not i:
                    raise Bad(A.where(f), f"Matrix: element i is element {show(s.ret[2])}", "place")
                A.n += 1
    # an empty one
    e = A.ctor([])
    if e is not None:
        es = A.only(heap.call(e["id"], "this", [], A.blank([])), e, [], "Matrix()")
        shape(es, [ZERO, ZERO], [], "Matrix()")
    # another size
    new = [sym("new_rows"), sym("new_cols")]
    more = facts + [le(ZERO, x) for x in new]
    for f in [f for f in heap.methods(rec, "resize")]:
        for s0 in states:
            s1 = s0.fork()
            s1.facts += more
            out = A.only(heap.call(f["id"], "this", new, s1), f, more, "Matrix resized")
            A.check_elements(out, new, more, "Matrix resized")
            shape(out, new, more, "Matrix resized")
            p = pointer(out, more, "Matrix resized")
            for s in out:
                A.covered(s, p[id(s)], new, more + s.facts, ZERO, f, "Matrix resized")
    # copies
    other = [sym("that_rows"), sym("that_cols")]
    more = facts + [le(ZERO, x) for x in other]
    copies = []
    for what, f in (("assignment", next(iter(A.method("operator=", ["Matrix"])), None)), ("copy", A.ctor(["Matrix"]))):
        if f is None:
            continue
        base = [s.fork() for s in states] if what == "assignment" else [A.blank(facts)]
        if what == "assignment" and e is not None:
            base += [s.fork() for s in es]
        for b in base:
            b.facts += more
            _, ts = A.made(other, more, "that", b)
            for t in ts:
                src = {m for m, x in t.mem.items() if not x.freed and t.fields and any(
                    k[0] == "that" and isinstance(v, tuple) and v[0] == "ptr" and v[1] == m for k, v in t.fields.items())}
                if len(src) != 1:
                    raise Lost("storage of a matrix")
                src = src.pop()
                t.mem[src].fill = None
                t.mem[src].writes = []
                out = A.only(heap.call(f["id"], "this", [("obj", "that")], t), f, more, f"Matrix: {what}")
                A.check_elements(out, other, more, f"Matrix: {what}")
                shape(out, other, more, f"Matrix: {what}")
                p = pointer(out, more, f"Matrix: {what}")
                for s in out:
                    m = p.get(id(s))
                    if m is None:
                        raise Lost(what)
                    if m == src:
                        raise Bad(A.where(f), f"Matrix: after {what} both share their elements", "shared")
                    A.covered(s, m, other, more + s.facts,
                              lambda loops, i: mk("load", mk("sym", src), i), f, f"Matrix: {what}")
                    A.n += 1
    for f in A.method("operator=", ["double"]):
        v = sym("value")
        for s0 in states:
            for s in A.only(heap.call(f["id"], "this", [v], s0), f, facts, "Matrix: constant"):
                p = pointer([s], facts, "Matrix")
                want = v
                if A.equal(v, ZERO, s.facts):
                    want = s.mem[p[id(s)]].writes[-1][1] if s.mem[p[id(s)]].writes else v
                    if want is not ZERO and want is not v:
                        want = ZERO
                A.covered(s, p[id(s)], dims, facts + s.facts, want, f, "Matrix: constant")
                A.n += 1
    return A.n


def sizes(rank):
    return {1: "Array1D", 2: "Array2D"}[rank]


def layout(c, arrays=True):
    """Obligations on every array class the native code uses."""
    def stage(title, file, fn):
        try:
            n = fn()
            if not n:
                raise Lost("no element is ever accessed")
            c.ok(title, f"{n} facts")
        except Bad as e:
            c.violate(title, e.op.file, e.op.line, "every element has its own place", e.text, key=e.key)
        except Lost as e:
            c.undecided(title, str(e))
    n = 0
    h = Heap(Unit(c.ix.repo, MATCH), "pyEdgeEval/_lib/include/Array.hh") if arrays else None
    for rec in h.recs if arrays else ():
        for rank in (1, 2):
            if rec.get("kind") == "ClassTemplateSpecializationDecl" and rec.get("name") == sizes(rank) and h.methods(
                    rec, rec["name"], "CXXConstructorDecl"):
                arg = next((y for y in rec.get("inner", []) if y.get("kind") == "TemplateArgument"), {})
                t = (arg.get("type") or {}).get("qualType", "?")
                stage(f"{rec['name']}<{t}>: elements, sizes, initialisation", h.file, lambda: template(h, rec, rank))
                n += 1
    h2 = Heap(Unit(c.ix.repo, MATRIX), MATRIX)
    for rec in h2.recs:
        if rec.get("name") == "Matrix" and rec.get("kind") == "CXXRecordDecl":
            stage("Matrix: elements, sizes, copies, zeros", MATRIX, lambda: matrix(h2, rec))
            n += 1
    if n < 2 and arrays or not n:
        c.undecided("array classes", f"{n} found")


# ---------------------------------------------------------------- drawing k of n
def cancel(f):
    """a <= b with (c*q)/q in it: c"""
    if f.op != "cmp":
        return f

    def go(t):
        if t.op not in ("poly", "mono"):
            return t
        p = X.poly_of(t)
        for q in {b for m in p for b, e in m if e == -1}:
            over = {m: k for m, k in p.items() if any(b is q and e == -1 for b, e in m)}
            top = X.add(*[X.from_poly({tuple(z for z in m if not (z[0] is q and z[1] == -1)): k}) for m, k in over.items()])
            for c in (1, -1):
                if X.sub(top, X.mul(num(c), q)) is ZERO:
                    return X.add(num(c), X.from_poly({m: k for m, k in p.items() if m not in over}))
        return t
    return X.cmp_(f.a[0], go(f.a[1]), go(f.a[2]))


class Draw(Heap):
    """Functions (k, n, values): each is shown to write k growing numbers of 0..n-1, given that those it calls do."""

    def __init__(self, unit, file):
        Heap.__init__(self, unit, file)
        self.top = None
        self.facts0 = []

    def quotient(self, a, b):
        if b.op != "num" or b.a[0] <= 0:
            raise Lost("integer division")
        q = self.fresh("q")
        self.extra += [le(X.mul(b, q), a), lt(a, X.add(X.mul(b, q), b))]
        return q

    def fresh(self, n):
        self.count += 1
        return sym(f"{n}{self.count}")

    def assign(self, s, l, v, x):
        if isinstance(l, tuple) and l[0] == "elem":
            s.mem[l[1]].writes.append(("store", l[2], v, self.at(x)))
        else:
            Heap.assign(self, s, l, v, x)

    def rv(self, s, v, x):
        if isinstance(v, tuple) and v[0] == "elem":
            return mk("load", sym(v[1]), v[2])
        return Heap.rv(self, s, v, x)

    def ref(self, x, s, this):
        if x["kind"] == "DeclRefExpr":
            d = x.get("referencedDecl") or {}
            if "Random" in (d.get("type") or {}).get("qualType", ""):
                return [(s, ("obj", "Random"))]
        return Heap.ref(self, x, s, this)

    def method(self, x, s, this):
        callee = self.skip(x["inner"][0])
        n = callee.get("name")
        if x["kind"] == "CXXMemberCallExpr" and n in ("fp", "i32"):
            out = []
            for q, v in self.vals(x["inner"][1:], s, this):
                r = self.fresh("r")
                if n == "fp" and not v:
                    q.facts += [le(ZERO, r), lt(r, ONE)]
                    self.real.add(r)
                elif n == "i32" and len(v) == 2:
                    self.need(q.facts + self.extra, le(*v), x, "a number is drawn from an empty range")
                    q.facts += [le(v[0], r), le(r, v[1])]
                else:
                    self.lost(x, n)
                out.append((q, r))
            return out
        return Heap.method(self, x, s, this)

    def uniform(self, rec):
        """i32(a, b) lies in a..b, given that fp() lies in 0..1"""
        for d in self.methods(rec, "i32"):
            if len(self.params(d)) != 2:
                continue
            self.extra, self.real = [], set()
            self.prover = Prover(integer=lambda t: t.op == "sym" and t not in self.real)
            a, b = sym("a"), sym("b")
            s = State()
            s.facts = [le(a, b)]
            for e in self.call(d["id"], "Random", [a, b], s):
                r = e.ret
                while isinstance(r, T) and r.op == "fn" and r.a[0] in ("trunc", "floor") and not (
                        r.a[0] == "trunc" and r.a[1].op != "fn"):
                    r = r.a[1]
                x = [z for z in X.subterms(r) if z in self.real] if isinstance(r, T) else []
                if len(set(x)) != 1 or r is e.ret:
                    raise Lost("i32: " + (show(r) if isinstance(r, T) else str(r)))
                lo, hi = (X.subst(r, lambda z, v=v: num(v) if z is x[0] else None) for v in (0, 1))
                if X.sub(r, X.add(lo, X.mul(x[0], X.sub(hi, lo)))) is not ZERO:
                    raise Lost("i32: " + show(r))
                if not (self.prover.proves(e.facts, le(a, lo)) and self.prover.proves(e.facts, le(lo, hi))
                        and self.prover.proves(e.facts, le(hi, X.add(b, ONE)))):
                    raise Bad(self.at(d), f"a number drawn from a..b lies in {show(lo)} to {show(hi)} (not included)", "range")
        for d in self.methods(rec, "fp"):
            if not self.params(d) and "rand48" not in str(self.body[d["id"]]):
                raise Lost("fp()")

    def need(self, facts, goal, x, text):
        if not self.holds(facts, goal):
            raise Bad(self.at(x), f"{text}: {show(goal)} is not ensured", "draw")

    def holds(self, facts, goal):
        """proven, or proven for the one case that is left"""
        if self.prover.proves(facts, goal):
            return True
        if not (goal.op == "cmp" and goal.a[0] in ("<=", "<")):
            return False
        a, b = goal.a[1], goal.a[2]
        tight = X.sub(a, b) if goal.a[0] == "<" else X.sub(X.sub(a, b), ONE)  # negated: tight >= 0
        if not self.prover.proves(facts, le(tight, ZERO)):
            return False
        # then tight == 0: one number in terms of the others
        p = X.poly_of(tight)
        for m, k in p.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym" and abs(k) == 1 and m[0][0] not in self.real and not any(
                    m2 != m and any(f is m[0][0] for f, _ in m2) for m2 in p):
                u = m[0][0]
                v = X.sub(u, X.mul(num(1 / k) if k not in (1, -1) else num(k), tight))
                new = [cancel(X.subst(f, lambda z: v if z is u else None)) for f in facts]
                if any(f is X.FALSE for f in new) or self.prover.proves(new, lt(ONE, ZERO)):
                    return True
        return False

    def function(self, x, s, this):
        f = self.skip(x["inner"][0])
        ref = f.get("referencedDecl") or {}
        if ref.get("name") in ("log", "log2", "sqrt", "ceil", "floor", "pow"):
            out = []
            for q, v in self.vals(x["inner"][1:], s, this):
                out.append((q, mk("fn", ref["name"], *v)))
            return out
        if ref.get("name") in ("sort", "stable_sort"):
            # puts in order, repeats stay
            return [(q, None) for q, _ in self.vals(x["inner"][1:3], s, this)]
        if ref.get("id") in self.body and self.signature(self.body[ref["id"]]):
            out = []
            for q, v in self.vals(x["inner"][1:], s, this):
                k, n, p = v
                self.called.add(self.body[ref["id"]]["id"])
                facts = q.facts + self.extra
                self.need(facts, le(ZERO, k), x, "how many are drawn")
                self.need(facts, le(k, n), x, "more are drawn than there are")
                if not (isinstance(p, tuple) and p[0] == "ptr"):
                    self.lost(x, "where to")
                q.mem[p[1]].writes.append(("seg", p[2], X.add(p[2], k), ZERO, n, self.at(x)))
                out.append((q, None))
            return out
        return Heap.function(self, x, s, this)

    def signature(self, d):
        t = [(p.get("type") or {}).get("qualType", "") for p in self.params(d)]
        return t == ["int", "int", "int *"]

    # ------------------------------------------------------------- loops
    def changed(self, x, s, out):
        if x.get("kind") in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and (
                x.get("opcode", "").endswith("=") and x["opcode"] not in ("==", "<=", ">=", "!=") or x.get("opcode") in ("++", "--")):
            y = self.skip(x["inner"][0])
            if y.get("kind") == "DeclRefExpr" and (y.get("referencedDecl") or {}).get("id") in s.vars:
                out.add(y["referencedDecl"]["id"])
        for y in x.get("inner", []):
            self.changed(y, s, out)
        return out

    def loop(self, x, s, this):
        vid, v, lo, hi, body = self.header(x, s, this)
        if not self.prover.proves(s.facts + self.extra, le(lo, hi)):
            out = self.under(s, lt(hi, lo), True)
            for q in self.under(s, le(lo, hi), True):
                out += self.loop(x, q, this)
            return out
        ids = sorted(self.changed(body, s, set()))
        start = {i: s.vars[i] for i in ids}
        if any(not isinstance(z, T) for z in start.values()) or vid in ids:
            self.lost(x, "what changes")
        c = {i: self.fresh("c") for i in ids}
        done, left = X.sub(v, lo), X.sub(hi, v)
        inv = []
        nums = [z for i, z in s.vars.items() if isinstance(z, T) and i not in ids] + [
            X.sub(a, b) for a in s.vars.values() for b in s.vars.values() if isinstance(a, T) and isinstance(b, T) and a is not b
            and a.op == b.op == "sym"]
        for i in ids:
            inv += [(le(start[i], c[i]), c[i]), (le(X.sub(c[i], start[i]), done), c[i])]
            for z in nums:
                inv += [(le(c[i], z), c[i]), (le(X.sub(z, c[i]), left), c[i]),
                        (le(X.sub(done, X.sub(c[i], start[i])), z), c[i])]
        for i in ids:
            for j in ids:
                if i < j:
                    inv.append((X.cmp_("==", X.add(X.sub(c[i], start[i]), X.sub(c[j], start[j])), done), c[i]))
            inv.append((X.cmp_("==", X.sub(c[i], start[i]), done), c[i]))
        inv = list(dict.fromkeys(f for f, _ in inv if f.op == "cmp"))

        def at(f, vals, i):
            return X.subst(f, lambda z: i if z is v else vals.get(z))

        def true_of(facts, f):
            if f is X.TRUE:
                return True
            if f.op != "cmp":
                return False
            if f.a[0] == "==":
                return self.holds(facts, le(f.a[1], f.a[2])) and self.holds(facts, le(f.a[2], f.a[1]))
            return self.holds(facts, f)
        first = {c[i]: start[i] for i in ids}
        inv = [f for f in inv if true_of(s.facts + self.extra, at(f, first, lo))]
        known = {z for z in s.vars.values() if isinstance(z, T)}
        while True:
            q = s.fork()
            n0 = {k: len(m.writes) for k, m in q.mem.items()}
            q.vars[vid] = v
            q.vars.update({i: c[i] for i in ids})
            q.facts += inv + [le(lo, v), lt(v, hi)]
            ends = self.st(body, q, this)
            if any(e.flow for e in ends):
                self.lost(x, "a way out of the loop")
            keep = []
            for f in inv:
                if all(true_of(e.facts + self.extra, at(f, {c[i]: e.vars[i] for i in ids}, X.add(v, ONE))) for e in ends):
                    keep.append(f)
            if keep == inv:
                break
            inv = keep
        out = s.fork()
        end = {i: self.fresh("e") for i in ids}
        out.vars.update(end)
        out.facts += [at(f, {c[i]: end[i] for i in ids}, hi) for f in inv]
        for tag in n0:
            ws = [(e, e.mem[tag].writes[n0[tag]:]) for e in ends]
            if not any(w for _, w in ws):
                continue
            if any(len(w) > 1 or w and w[0][0] != "store" for _, w in ws):
                raise Lost(f"line {self.at(x).line}: what the loop writes")
            some = [(e, w[0]) for e, w in ws if w]
            idx, val, at_ = {w[1] for _, w in some}, {w[2] for _, w in some}, some[0][1][3]
            if len(idx) != 1 or len(val) != 1:
                raise Lost(f"line {self.at(x).line}: what the loop writes")
            idx, val = idx.pop(), val.pop()
            free = lambda t: not X.contains(t, lambda z: z is v or z in c.values())
            off = X.sub(idx, v)
            if free(off) and len(some) == len(ends):
                d = X.sub(val, mk("load", sym(tag), idx))
                if free(d):
                    out.mem[tag].writes.append(("shift", X.add(lo, off), X.add(hi, off), d, at_))
                    continue
                d = X.sub(val, v)
                if free(d):
                    out.mem[tag].writes.append(("seg", X.add(lo, off), X.add(hi, off), X.add(lo, d), X.add(hi, d), at_))
                    continue
            d = X.sub(val, v)
            who = [i for i in ids if idx is c[i]]
            if free(d) and who:
                i = who[0]
                if all(e.vars[i] is (X.add(c[i], ONE) if w else c[i]) for e, w in ws):
                    out.mem[tag].writes.append(("seg", start[i], end[i], X.add(lo, d), X.add(hi, d), at_))
                    continue
                raise Bad(at_, "a number is written without moving on to the next place, or the other way round", "draw")
            if free(off) and val.op == "sym" and val.a[0].startswith("r") and val not in known:
                out.mem[tag].writes.append(("indep", at_))
                continue
            raise Lost(f"line {self.at(x).line}: what the loop writes: {show(val)} at {show(idx)}")
        return [out]

    # ------------------------------------------------------------ contract
    def prove(self, d):
        self.extra, self.real = [], set()
        self.prover = Prover(integer=lambda t: t.op == "sym" and t not in self.real or t.op == "load")
        k, n = sym("k"), sym("n")
        s = State()
        s.mem["values"] = Mem(k, None, "values")
        s.facts = [le(ZERO, k), le(k, n)]
        count = 0
        for e in self.call(d["id"], None, [k, n, ("ptr", "values", ZERO)], s):
            facts = e.facts + self.extra
            if self.prover.proves(facts, lt(ONE, ZERO)):
                continue
            if e.flow:
                raise Bad(self.at(d), "left by an exception", "draw")
            self.post(d, e.mem["values"].writes, k, n, facts)
            count += 1
        return count

    def post(self, d, writes, k, n, facts):
        segs = []
        P = self.prover.proves
        for w in writes:
            if w[0] == "store":
                segs.append((w[1], X.add(w[1], ONE), w[2], X.add(w[2], ONE), w[3]))
            elif w[0] == "indep":
                raise Bad(w[1], "the numbers are drawn independently of each other: one may be drawn twice", "draw")
            elif w[0] == "seg":
                segs.append(w[1:])
            else:
                _, a, b, c, at = w
                new = []
                for s in segs:
                    if P(facts, le(a, s[0])) and P(facts, le(s[1], b)):
                        new.append((s[0], s[1], X.add(s[2], c), X.add(s[3], c), s[4]))
                    elif P(facts, le(s[1], a)) or P(facts, le(b, s[0])):
                        new.append(s)
                    elif P(facts, le(s[1], s[0])):
                        pass
                    else:
                        raise Bad(at, f"numbers {show(a)} to {show(b)} are moved up, which are not those of one half", "draw")
                segs = new
        cur, low = ZERO, ZERO
        segs = [s for s in segs if not P(facts, le(s[1], s[0]))]
        while not (P(facts, le(cur, k)) and P(facts, le(k, cur))):
            nxt = [s for s in segs if P(facts, le(s[0], cur)) and P(facts, le(cur, s[0]))]
            if not nxt:
                at = segs[0][4] if segs else self.at(d)
                raise Bad(at, f"place {show(cur)} of the {show(k)} numbers is not filled", "draw")
            s = nxt[0]
            segs.remove(s)
            if not P(facts, le(low, s[2])):
                raise Bad(s[4], f"a number may be drawn twice, or out of order: {show(low)} <= {show(s[2])} is not ensured", "draw")
            cur, low = s[1], s[3]
        if not P(facts, le(low, n)):
            raise Bad(self.at(d), f"a number may be drawn that is not below n: {show(low)} <= n is not ensured", "draw")
        for s in segs:
            raise Bad(s[4], "more than k numbers are written", "draw")


def draw(c):
    """kOfN writes k different numbers of 0..n-1, whichever way it goes"""
    title = "kOfN: k different numbers below n"
    try:
        D = Draw(Unit(c.ix.repo, KOFN), KOFN)
        D.uniform(next(r for r in D.recs if r.get("name") == "Random"))
        top = [d for d in D.body.values() if d.get("name") == "kOfN" and D.signature(d)]
        if not top:
            raise Lost("kOfN not found")
        todo, seen, n = [top[0]], set(), 0
        D.called = set()
        while todo:
            d = todo.pop()
            if d["id"] in seen:
                continue
            seen.add(d["id"])
            n += D.prove(d)
            todo += [D.body[i] for i in D.called if i not in seen]
        c.ok(title, f"{len(seen)} functions, {n} paths")
    except Bad as e:
        c.violate(title, e.op.file, e.op.line, "k different numbers are drawn out of n", e.text, key=e.key)
    except Lost as e:
        c.undecided(title, str(e))


def C40(c):
    layout(c)
    draw(c)
    return "array classes as used by the matcher and the suppression; functions that draw k of n numbers, by induction"
