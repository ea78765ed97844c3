"""Abstract interpretation of small C++ methods over raw memory: what they allocate, where their elements lie, what they write.

No loop is unrolled and nothing is executed: a counted loop is one write with a bound variable, a condition splits the
state, and every index is a polynomial in the arguments."""
import copy

from . import terms as X
from .linear import Prover
from .native import Bad, Lost
from .terms import FALSE, T, TRUE, mk, num

SIZES = {"double": 8, "int": 4, "unsigned int": 4, "float": 4, "bool": 1, "char": 1, "unsigned char": 1, "long": 8,
         "unsigned long": 8, "short": 2}


def le(a, b):
    return X.cmp_("<=", a, b)


def lt(a, b):
    return X.cmp_("<", a, b)


class Place:
    def __init__(self, file, line):
        self.file, self.line = file, line


class Mem:
    def __init__(self, count, fill, tag):
        self.count, self.fill, self.tag, self.freed = count, fill, tag, False
        self.writes = []  # (index, value, loops, line)


class State:
    def __init__(self):
        self.vars, self.fields, self.mem, self.facts = {}, {}, {}, []
        self.ret = None
        self.flow = None

    def fork(self):
        s = State()
        s.vars = dict(self.vars)
        s.fields = dict(self.fields)
        s.mem = {k: copy.copy(m) for k, m in self.mem.items()}
        for m in s.mem.values():
            m.writes = list(m.writes)
        s.facts = list(self.facts)
        s.ret, s.flow = self.ret, self.flow
        return s


class Heap:
    def __init__(self, unit, file):
        self.u, self.file = unit, file
        self.decl, self.body, self.recs = {}, {}, []
        for d in unit.own:
            self.collect(d, None)
        for d in list(self.decl.values()):
            p = d.get("previousDecl")
            if p and self.has_body(d):
                self.body[p] = d
            if self.has_body(d):
                self.body[d["id"]] = d
        self.count = 0
        self.prover = Prover(integer=lambda t: True)
        self.depth = 0

    @staticmethod
    def has_body(d):
        return any(y.get("kind") == "CompoundStmt" for y in d.get("inner", []))

    def collect(self, d, rec):
        k = d.get("kind")
        if k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "FunctionDecl"):
            self.decl[d["id"]] = d
            if rec is not None:
                d["rec"] = rec
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            if d.get("completeDefinition") or any(y.get("kind") == "FieldDecl" for y in d.get("inner", [])):
                self.recs.append(d)
            for y in d.get("inner", []):
                self.collect(y, d)
        elif k in ("NamespaceDecl", "LinkageSpecDecl"):
            for y in d.get("inner", []):
                self.collect(y, rec)
        elif k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            for y in d.get("inner", []):
                if y.get("kind") == "ClassTemplateSpecializationDecl" or k == "FunctionTemplateDecl":
                    self.collect(y, rec)

    def line(self, x):
        todo = [x]
        while todo:
            y = todo.pop(0)
            for k in (y.get("range") or {}).get("begin"), y.get("loc"):
                if k and k.get("at"):
                    return k["at"][1] or 0
            todo += y.get("inner", [])
        return 0

    def at(self, x):
        for k in (x.get("range") or {}).get("begin"), x.get("loc"):
            if k and k.get("at"):
                f, n = k["at"]
                i = f.find("pyEdgeEval/")
                return Place(f[i:] if i >= 0 else self.file, n)
        return Place(self.file, 0)

    def lost(self, x, why=""):
        raise Lost(f"line {self.at(x).line}: {x.get('kind')} {why}".strip())

    # ------------------------------------------------------------- running
    def methods(self, rec, name, kind=None):
        out = []
        for y in rec.get("inner", []):
            if y.get("name") == name and (kind is None or y.get("kind") == kind) and y["id"] in self.body and not y.get("isImplicit"):
                out.append(y)
        return out

    def params(self, d):
        return [y for y in d.get("inner", []) if y.get("kind") == "ParmVarDecl"]

    def call(self, did, this, args, st, x=None):
        """[state] after the call; .ret is the value, .flow 'throw' when it was left by an exception"""
        d = self.body.get(did)
        if d is None:
            self.lost(x or {}, "no body for " + str((self.decl.get(did) or {}).get("name")))
        self.depth += 1
        if self.depth > 12:
            raise Lost(f"{d.get('name')}: recursion")
        try:
            ps = self.params(d)
            args = list(args)
            first = self.params(self.decl.get(did) or d)
            while len(args) < len(ps):
                k = len(args)
                dv = next((y for q in (ps[k], first[k] if k < len(first) else ps[k]) for y in q.get("inner", [])
                           if y.get("kind") not in ("FullComment",)), None)
                if dv is None:
                    raise Lost(f"{d.get('name')}: argument {k}")
                args.append(self.val(dv, st, this))
            saved = st.vars
            st = st.fork()
            st.vars = dict(saved)
            for p, a in zip(ps, args):
                st.vars[p["id"]] = a
            st.ret, st.flow = None, None
            states = [st]
            if d.get("kind") == "CXXConstructorDecl":
                for y in d.get("inner", []):
                    if y.get("kind") == "CXXCtorInitializer":
                        f = y.get("anyInit") or {}
                        v = (y.get("inner") or [None])[0]
                        if f.get("kind") != "FieldDecl" or v is None:
                            self.lost(y, "initialiser")
                        nxt = []
                        for s in states:
                            for s2, val in self.vals([v], s, this):
                                s2.fields[(this, f["name"])] = val[0]
                                nxt.append(s2)
                        states = nxt
            out = []
            body = next(y for y in d["inner"] if y.get("kind") == "CompoundStmt")
            for s in states:
                out += self.st(body, s, this)
            for s in out:
                if s.flow not in (None, "return", "throw"):
                    raise Lost("flow " + str(s.flow))
                if s.flow == "return":
                    s.flow = None
                s.vars = dict(saved)
            return out
        finally:
            self.depth -= 1

    # ---------------------------------------------------------- statements
    def st(self, x, s, this):
        k = x["kind"]
        if s.flow:
            return [s]
        inner = x.get("inner", [])
        if k == "CompoundStmt":
            ss = [s]
            for y in inner:
                ss = [z for q in ss for z in self.st(y, q, this)]
            return ss
        if k in ("NullStmt",):
            return [s]
        if k == "DeclStmt":
            ss = [s]
            for d in inner:
                if d.get("kind") != "VarDecl":
                    continue
                nxt = []
                for q in ss:
                    init = [y for y in d.get("inner", []) if not y.get("kind", "").endswith("Comment")]
                    if not init:
                        q.vars[d["id"]] = None
                        nxt.append(q)
                        continue
                    ref = (d.get("type") or {}).get("qualType", "").rstrip().endswith("&")
                    for q2, v in (self.vals if not ref else self.refs)([init[-1]], q, this):
                        q2.vars[d["id"]] = v[0]
                        nxt.append(q2)
                ss = nxt
            return ss
        if k == "ReturnStmt":
            if not inner:
                s.flow = "return"
                return [s]
            out = []
            for q, v in self.refs(inner[:1], s, this):
                q.ret, q.flow = v[0], q.flow or "return"
                out.append(q)
            return out
        if k == "IfStmt":
            if x.get("hasInit") or x.get("hasVar"):
                self.lost(x)
            out = []
            for q, c in self.vals(inner[:1], s, this):
                for v, y in ((True, inner[1]), (False, inner[2] if len(inner) > 2 else None)):
                    for r in self.under(q, c[0], v):
                        out += self.st(y, r, this) if y is not None else [r]
            return out
        if k == "SwitchStmt":
            return self.switch(x, s, this)
        if k == "BreakStmt":
            s.flow = "break"
            return [s]
        if k == "ForStmt":
            return self.loop(x, s, this)
        if k in ("ExprWithCleanups", "ParenExpr") and (x.get("type") or {}).get("qualType") == "void" and len(inner) == 1:
            return self.st(inner[0], s, this)
        if k == "CXXStaticCastExpr" and x.get("castKind") == "ToVoid":
            return [s]
        if k == "CXXThrowExpr":
            s.flow = "throw"
            return [s]
        return [q for q, _ in self.refs([x], s, this)]

    def under(self, s, c, want):
        c = X.truth(c) if isinstance(c, T) else self.lost({}, "condition")
        if not want:
            c = X.not_(c)
        if c is FALSE:
            return []
        if c is TRUE:
            return [s.fork()]
        out = []
        for alt in (c.a if c.op == "or" else [c]):
            if self.prover.proves(s.facts, X.not_(alt)):
                continue
            q = s.fork()
            q.facts += list(alt.a) if alt.op == "and" else [alt]
            out.append(q)
        return out

    def switch(self, x, s, this):
        inner = x["inner"]
        out = []
        for q, v in self.vals(inner[:1], s, this):
            sel = v[0]
            if not (isinstance(sel, tuple) and sel[0] == "enum"):
                self.lost(x, "switch over " + str(sel))
            flat = []

            def open_(y):
                if y["kind"] in ("CaseStmt", "DefaultStmt"):
                    ys = y.get("inner", [])
                    flat.append(("label", ys[0] if y["kind"] == "CaseStmt" else None))
                    open_(ys[-1])
                else:
                    flat.append(("st", y))
            for y in inner[1].get("inner", []):
                open_(y)
            start = None
            for i, (t, y) in enumerate(flat):
                if t == "label" and y is not None:
                    if self.val(y, q, this) == sel:
                        start = i
                        break
            if start is None:
                start = next((i for i, (t, y) in enumerate(flat) if t == "label" and y is None), len(flat))
            ss = [q]
            for t, y in flat[start:]:
                if t == "st":
                    ss = [z for r in ss for z in self.st(y, r, this)]
            for r in ss:
                if r.flow == "break":
                    r.flow = None
            out += ss
        return out

    def loop(self, x, s, this):
        """for (T i = a; i < b; i++): the body once, for a variable between a and b"""
        vid, v, lo, hi, body = self.header(x, s, this)
        q = s.fork()
        n0 = {k: len(m.writes) for k, m in q.mem.items()}
        q.vars[vid] = v
        q.facts += [le(lo, v), lt(v, hi)]
        before_v, before_f = dict(q.vars), dict(q.fields)
        ends = self.st(body, q, this)
        ends = [e for e in ends if e.flow != "throw"]
        if len(ends) != 1 or ends[0].flow or ends[0].fields != before_f or any(
                ends[0].vars.get(k) is not w for k, w in before_v.items()) or set(ends[0].mem) != set(n0):
            self.lost(x, "a loop that does more than write elements")
        e = ends[0]
        out = s.fork()
        for k, m in e.mem.items():
            for idx, val, loops, ln in m.writes[n0[k]:]:
                out.mem[k].writes.append((idx, val, [(v, lo, hi)] + loops, ln))
        return [out]

    def header(self, x, s, this):
        """(variable, its symbol, first value, first value beyond, body) of a counted loop"""
        init, _, cond, inc, body = (list(x["inner"]) + [{}] * 5)[:5]
        ds = init.get("inner", []) if init.get("kind") == "DeclStmt" else []
        if len(ds) != 1 or not ds[0].get("inner"):
            self.lost(x)
        vid = ds[0]["id"]
        lo = self.val(ds[0]["inner"][-1], s, this)
        up = self.skip(inc)
        if not (up.get("kind") == "UnaryOperator" and up.get("opcode") == "++" and self.is_var(up["inner"][0], vid)
                or up.get("kind") == "CompoundAssignOperator" and up.get("opcode") == "+=" and self.is_var(up["inner"][0], vid)
                and self.val(up["inner"][1], s, this) is num(1)):
            self.lost(x, "step")
        self.count += 1
        v = mk("sym", f"k{self.count}")
        t = s.fork()
        t.vars[vid] = v
        t.facts.append(le(lo, v))
        c = self.skip(cond)
        if c.get("kind") == "BinaryOperator" and c.get("opcode") == "!=" and self.is_var(c["inner"][0], vid):
            hi = self.val(c["inner"][1], t, this)
        else:
            c = self.val(cond, t, this)
            if not (isinstance(c, T) and c.op == "cmp" and c.a[0] in ("<", "<=")):
                self.lost(x, "bound")
            hi = X.add(X.sub(c.a[2], c.a[1]), v, num(1 if c.a[0] == "<=" else 0))
        if not isinstance(hi, T) or X.contains(hi, lambda z: z is v):
            self.lost(x, "bound")
        return vid, v, lo, hi, body

    def natural(self, v, facts):
        """at least 0: proven, or a product of such"""
        if self.prover.proves(facts, le(num(0), v)):
            return True
        if v.op in ("poly", "mono"):
            return all(k >= 0 and all(e > 0 and self.prover.proves(facts, le(num(0), f)) for f, e in m)
                       for m, k in X.poly_of(v).items())
        return False

    def skip(self, x):
        while x.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
                                "CXXBindTemporaryExpr", "ConstantExpr") and len(x.get("inner", [])) == 1:
            x = x["inner"][0]
        return x

    def is_var(self, x, vid):
        x = self.skip(x)
        return x.get("kind") == "DeclRefExpr" and (x.get("referencedDecl") or {}).get("id") == vid

    # --------------------------------------------------------- expressions
    def val(self, x, s, this):
        r = self.vals([x], s, this)
        if len(r) != 1 or r[0][0].flow:
            self.lost(x, "more than one outcome")
        q, v = r[0]
        if q is not s:
            s.mem, s.fields, s.vars = q.mem, q.fields, q.vars
        return v[0]

    def vals(self, xs, s, this):
        return [(q, [self.rv(q, v, x) for v, x in zip(vs, xs)]) for q, vs in self.refs(xs, s, this)]

    def rv(self, s, v, x):
        """value stored at an lvalue"""
        if isinstance(v, tuple) and v[0] == "var":
            r = s.vars.get(v[1])
            if r is None:
                raise Bad(self.at(x), "a variable is read before it is set", "uninitialised")
            return r
        if isinstance(v, tuple) and v[0] == "field":
            r = s.fields.get(v[1:])
            if r is None and isinstance(v[2], tuple):
                whole = s.fields.get((v[1], v[2][0]))
                r = whole
            if r is None:
                raise Bad(self.at(x), f"{v[2]} is read before it is set", "uninitialised")
            return r
        if isinstance(v, tuple) and v[0] == "elem":
            _, m, i = v
            M = s.mem[m]
            if not M.writes and M.fill is not None:
                return M.fill
            return mk("load", mk("sym", m), i)
        return v

    def refs(self, xs, s, this):
        out = [(s, [])]
        for x in xs:
            nxt = []
            for q, vs in out:
                if q.flow:
                    nxt.append((q, vs + [None]))
                    continue
                for r, v in self.ref(x, q, this):
                    nxt.append((r, vs + [v]))
            out = nxt
        return out

    def one(self, x, s, this, fn):
        out = []
        for q, vs in self.vals(x.get("inner", []), s, this):
            out.append((q, None if q.flow else fn(*vs)))
        return out

    def elem(self, p, i, x):
        if not (isinstance(p, tuple) and p[0] == "ptr"):
            self.lost(x, "base of an index")
        return ("elem", p[1], X.add(p[2], i))

    def ref(self, x, s, this):
        """[(state, value or lvalue)]"""
        k = x["kind"]
        inner = x.get("inner", [])
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
                 "CXXDefaultArgExpr", "FullExpr"):
            if not inner:
                self.lost(x)
            return self.ref(inner[0], s, this)
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
            ck = x.get("castKind")
            if ck in ("LValueToRValue",):
                return [(q, v[0]) for q, v in self.vals(inner[:1], s, this)]
            if ck in ("NoOp", "ArrayToPointerDecay", "FunctionToPointerDecay", "UncheckedDerivedToBase", "BuiltinFnToFnPtr"):
                return self.ref(inner[0], s, this)
            if ck == "BitCast":
                t = (x.get("type") or {}).get("qualType", "").replace("const ", "").rstrip("* ").strip()
                out = self.vals(inner[:1], s, this)
                for q, v in out:
                    if isinstance(v[0], tuple) and v[0][0] == "ptr" and q.mem[v[0][1]].count is None and t in SIZES:
                        m = q.mem[v[0][1]]
                        m.count = X.div(m.bytes, num(SIZES[t]))
                return [(q, v[0]) for q, v in out]
            if ck in ("NullToPointer", "IntegralToBoolean", "IntegralToFloating", "PointerToBoolean"):
                return [(q, v[0]) for q, v in self.vals(inner[:1], s, this)]
            if ck == "IntegralCast":
                t = (x.get("type") or {}).get("qualType", "")
                f = (inner[0].get("type") or {}).get("qualType", "")

                def conv(v):
                    if isinstance(v, T) and "unsigned" in t and "unsigned" not in f and not v.op == "num" and \
                            not self.natural(v, s.facts):
                        return mk("unsigned", v)
                    return v
                return [(q, None if q.flow else conv(v[0])) for q, v in self.vals(inner[:1], s, this)]
            if ck == "FloatingToIntegral":
                return [(q, None if q.flow else mk("fn", "trunc", v[0])) for q, v in self.vals(inner[:1], s, this)]
            self.lost(x, str(ck))
        if k == "IntegerLiteral":
            return [(s, num(int(x["value"])))]
        if k == "FloatingLiteral":
            return [(s, num(float(x["value"])))]
        if k == "CXXBoolLiteralExpr":
            return [(s, TRUE if x.get("value") else FALSE)]
        if k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"):
            return [(s, ("null",))]
        if k == "CXXThisExpr":
            return [(s, ("obj", this))]
        if k == "DeclRefExpr":
            d = x.get("referencedDecl") or {}
            if d.get("kind") == "EnumConstantDecl":
                return [(s, ("enum", d.get("name")))]
            if d["id"] in s.vars:
                v = s.vars[d["id"]]
                if isinstance(v, tuple) and v[0] in ("elem", "obj", "field", "var"):
                    return [(s, v)]
                return [(s, ("var", d["id"]))]
            self.lost(x, str(d.get("name")))
        if k == "MemberExpr":
            out = []
            for q, v in self.refs(inner[:1], s, this):
                v = v[0]
                if not (isinstance(v, tuple) and v[0] == "obj"):
                    self.lost(x, "member of " + str(v))
                out.append((q, ("field", v[1], x["name"])))
            return out
        if k == "ArraySubscriptExpr":
            out = []
            for q, (b, i) in self.refs(inner, s, this):
                i = self.rv(q, i, inner[1])
                if isinstance(b, tuple) and b[0] == "field":
                    b2 = q.fields.get(b[1:])
                    if b2 is not None and isinstance(b2, tuple) and b2[0] == "ptr":
                        b = b2
                    elif i.op == "num":
                        out.append((q, ("field", b[1], (b[2], int(i.a[0])))))
                        continue
                elif isinstance(b, tuple) and b[0] == "var":
                    b = self.rv(q, b, x)
                out.append((q, self.elem(b, i, x)))
            return out
        if k == "UnaryOperator":
            return self.unary(x, s, this)
        if k == "BinaryOperator":
            return self.binary(x, s, this)
        if k == "CompoundAssignOperator":
            op = x["opcode"][:-1]
            out = []
            for q, (l, r) in self.refs(inner, s, this):
                new = self.arith(op, self.rv(q, l, inner[0]), self.rv(q, r, inner[1]), x)
                self.assign(q, l, new, x)
                out.append((q, l))
            return out
        if k == "ConditionalOperator":
            out = []
            for q, c in self.vals(inner[:1], s, this):
                for v, y in ((True, inner[1]), (False, inner[2])):
                    for r in self.under(q, c[0], v):
                        out += self.ref(y, r, this)
            return out
        if k == "UnaryExprOrTypeTraitExpr":
            t = (x.get("argType") or (inner[0].get("type") if inner else {}) or {}).get("qualType", "")
            t = t.replace("const ", "").strip()
            return [(s, num(SIZES[t]) if t in SIZES else mk("sym", "sizeof " + t))]
        if k == "CXXNewExpr":
            if not x.get("isArray"):
                self.lost(x, "new")
            out = []
            for q, v in self.vals(inner[:1], s, this):
                zero = any(y.get("kind") in ("ImplicitValueInitExpr", "InitListExpr") or y.get("initStyle") for y in inner[1:]) \
                    or x.get("initStyle") in ("call", "list")
                out.append((q, self.alloc(q, v[0], num(0) if zero else None, x)))
            return out
        if k == "CXXDeleteExpr":
            return self.one(x, s, this, lambda p: self.free(s, p, x))
        if k == "CXXThrowExpr":
            s.flow = "throw"
            return [(s, None)]
        if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self.method(x, s, this)
        if k == "CallExpr":
            return self.function(x, s, this)
        self.lost(x)

    def unary(self, x, s, this):
        op, inner = x.get("opcode"), x["inner"]
        out = []
        for q, (v,) in self.refs(inner, s, this):
            if op in ("++", "--"):
                old = self.rv(q, v, x)
                self.assign(q, v, X.add(old, num(1 if op == "++" else -1)), x)
                out.append((q, old if x.get("isPostfix") else v))
            elif op == "*":
                if isinstance(v, tuple) and v[0] in ("var", "field"):
                    v = self.rv(q, v, x)
                if v[0] == "obj":
                    out.append((q, v))
                else:
                    out.append((q, self.elem(v, num(0), x)))
            elif op == "&":
                if isinstance(v, tuple) and v[0] == "elem":
                    out.append((q, ("ptr", v[1], v[2])))
                elif isinstance(v, tuple) and v[0] == "obj":
                    out.append((q, v))
                else:
                    self.lost(x, "&")
            elif op == "-":
                out.append((q, X.neg(self.rv(q, v, x))))
            elif op == "!":
                v = self.rv(q, v, x)
                if not isinstance(v, T):
                    self.lost(x, "!")
                out.append((q, X.not_(X.truth(v))))
            else:
                self.lost(x, str(op))
        return out

    def arith(self, op, a, b, x):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if op in ("+", "-") and isinstance(a, tuple) and a[0] == "ptr" and isinstance(b, T):
                return ("ptr", a[1], X.add(a[2], b if op == "+" else X.neg(b)))
            if op == "+" and isinstance(b, tuple) and b[0] == "ptr" and isinstance(a, T):
                return ("ptr", b[1], X.add(b[2], a))
            self.lost(x, f"pointer {op}")
        if not isinstance(a, T) or not isinstance(b, T):
            self.lost(x, op)
        if any(t.op == "unsigned" for t in (a, b)):
            self.lost(x, "unsigned arithmetic")
        if op == "+":
            return X.add(a, b)
        if op == "-":
            return X.sub(a, b)
        if op == "*":
            return X.mul(a, b)
        if op == "/":
            t = (x.get("type") or {}).get("qualType", "")
            return X.div(a, b) if t in ("double", "float") or self.divides(a, b) else self.quotient(a, b)
        self.lost(x, op)

    def quotient(self, a, b):
        return mk("quot", a, b)

    @staticmethod
    def divides(a, b):
        q = X.div(a, b)
        return q.op == "sym" or q.op == "num" and q.a[0] == int(q.a[0])

    def binary(self, x, s, this):
        op, inner = x["opcode"], x["inner"]
        if op == "=":
            out = []
            for q, (r, l) in self.refs([inner[1], inner[0]], s, this):
                if q.flow:
                    out.append((q, None))
                    continue
                self.assign(q, l, self.rv(q, r, inner[1]), x)
                out.append((q, l))
            return out
        if op == ",":
            return [(q, v[1]) for q, v in self.refs(inner, s, this)]
        if op in ("&&", "||"):
            out = []
            for q, a in self.vals(inner[:1], s, this):
                for r, b in self.vals(inner[1:], q, this):
                    f = X.and_ if op == "&&" else X.or_
                    out.append((r, f(X.truth(a[0]), X.truth(b[0]))))
            return out
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return [(q, None if q.flow else self.compare(op, a, b, x)) for q, (a, b) in
                    [(q, v if len(v) == 2 else (None, None)) for q, v in self.vals(inner, s, this)]]
        return [(q, None if q.flow else self.arith(op, v[0], v[1], x)) for q, v in self.vals(inner, s, this)]

    def compare(self, op, a, b, x):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, tuple) and op in ("==", "!="):
                if {a[0], b[0]} <= {"ptr", "null"} and a[0] != b[0]:
                    return FALSE if op == "==" else TRUE
                if a[0] == b[0] == "obj":
                    return (TRUE if a == b else FALSE) if op == "==" else (FALSE if a == b else TRUE)
                if a[0] == b[0] == "enum":
                    return TRUE if (a == b) == (op == "==") else FALSE
            self.lost(x, "comparison of pointers")
        if op in (">", ">="):
            a, b, op = b, a, "<" if op == ">" else "<="
        # as unsigned, a negative number is larger than any size
        ua, ub = a.op == "unsigned", b.op == "unsigned"
        pa, pb = (a.a[0] if ua else a), (b.a[0] if ub else b)
        z = num(0)
        if op in ("==", "!="):
            return X.cmp_(op, pa, pb)
        c = X.cmp_(op, pa, pb)
        if ua and ub:
            self.lost(x, "comparison of two unsigned numbers")
        if ua:
            return X.and_(le(z, pa), c)
        if ub:
            return X.or_(lt(pb, z), c)
        return c

    def assign(self, s, l, v, x):
        if isinstance(l, tuple) and l[0] == "var":
            s.vars[l[1]] = v
        elif isinstance(l, tuple) and l[0] == "field":
            s.fields[l[1:]] = v
        elif isinstance(l, tuple) and l[0] == "elem":
            m = s.mem[l[1]]
            if m.freed:
                raise Bad(self.at(x), "freed memory is written", "use after free")
            m.writes.append((l[2], v, [], self.at(x).line))
        else:
            self.lost(x, "assignment")

    def alloc(self, s, n, fill, x):
        self.count += 1
        tag = f"m{self.count}"
        s.mem[tag] = Mem(n, fill, tag)
        return ("ptr", tag, num(0))

    def free(self, s, p, x):
        if isinstance(p, tuple) and p[0] == "null":
            return None
        if not (isinstance(p, tuple) and p[0] == "ptr"):
            self.lost(x, "free")
        if s.mem[p[1]].freed:
            raise Bad(self.at(x), "memory is freed twice", "double free")
        s.mem[p[1]].freed = True
        return None

    def method(self, x, s, this):
        inner = x["inner"]
        if x["kind"] == "CXXMemberCallExpr":
            callee = self.skip(inner[0])
            if callee.get("kind") != "MemberExpr":
                self.lost(x, "callee")
            did, recv, args = callee.get("referencedMemberDecl"), callee["inner"][0], inner[1:]
        else:
            f = self.skip(inner[0])
            did, recv, args = (f.get("referencedDecl") or {}).get("id"), inner[1], inner[2:]
        out = []
        for q, vs in self.refs([recv] + args, s, this):
            if q.flow:
                out.append((q, None))
                continue
            o = vs[0]
            if not (isinstance(o, tuple) and o[0] == "obj"):
                self.lost(x, "receiver")
            for r in self.call(did, o[1], self.pass_(did, vs[1:], args, q), q, x):
                v, r.ret = r.ret, None
                out.append((r, v))
        return out

    def pass_(self, did, vs, args, s):
        d = self.body.get(did) or self.decl.get(did)
        ps = self.params(d) if d else []
        out = []
        for k, (v, a) in enumerate(zip(vs, args)):
            t = (ps[k].get("type") or {}).get("qualType", "") if k < len(ps) else ""
            const = t.startswith("const ")
            if t.rstrip().endswith("&") and not const and isinstance(v, tuple):
                out.append(v)
            else:
                out.append(self.rv(s, v, a))
        return out

    def function(self, x, s, this):
        inner = x["inner"]
        f = self.skip(inner[0])
        ref = f.get("referencedDecl") or {}
        n, did, args = ref.get("name"), ref.get("id"), inner[1:]
        out = []
        for q, vs in self.refs(args, s, this):
            if q.flow:
                out.append((q, None))
                continue
            if did in self.body:
                for r in self.call(did, None, self.pass_(did, vs, args, q), q, x):
                    v, r.ret = r.ret, None
                    out.append((r, v))
                continue
            v = [self.rv(q, a, b) for a, b in zip(vs, args)]
            if n in ("max", "min") and len(v) == 2:
                a, b = v
                for c, w in ((le(a, b), b if n == "max" else a), (lt(b, a), a if n == "max" else b)):
                    for r in self.under(q, c, True):
                        out.append((r, w))
            elif n in ("malloc", "calloc"):
                out.append((q, self.bytes(q, v, n, x)))
            elif n == "free":
                out.append((q, self.free(q, v[0], x)))
            elif n == "memset":
                p, b, nb = v
                if b is not num(0):
                    self.lost(x, "memset")
                self.span(q, p, X.div(nb, num(self.width(args[0], x))), num(0), x)
                out.append((q, p))
            elif n in ("memcpy", "memmove"):
                p, src, nb = v
                self.span(q, p, X.div(nb, num(self.width(args[0], x))), src, x)
                out.append((q, p))
            elif n == "fill_n":
                self.span(q, v[0], v[1], v[2], x)
                out.append((q, v[0]))
            elif n == "fill":
                self.span(q, v[0], self.between(v[0], v[1], x), v[2], x)
                out.append((q, None))
            elif n == "copy":
                self.span(q, v[2], self.between(v[0], v[1], x), v[0], x)
                out.append((q, None))
            elif n == "copy_n":
                self.span(q, v[2], v[1], v[0], x)
                out.append((q, None))
            else:
                self.lost(x, str(n))
        return out

    def between(self, a, b, x):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "ptr" and a[1] == b[1]):
            self.lost(x, "range")
        return X.sub(b[2], a[2])

    def width(self, a, x):
        while a.get("kind") in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
            t = (a.get("type") or {}).get("qualType", "")
            a = a["inner"][0]
        t = (a.get("type") or {}).get("qualType", "").replace("const ", "").replace("*", "").strip()
        if t not in SIZES:
            self.lost(x, "element size")
        return SIZES[t]

    def bytes(self, s, v, n, x):
        total = v[0] if n == "malloc" else X.mul(v[0], v[1])
        p = self.alloc(s, None, num(0) if n == "calloc" else None, x)
        s.mem[p[1]].bytes = total
        return p

    def span(self, s, p, n, v, x):
        """elements p[0..n) := v, or := v[0..n) when v points somewhere"""
        if not (isinstance(p, tuple) and p[0] == "ptr"):
            self.lost(x, "destination")
        self.count += 1
        k = mk("sym", f"k{self.count}")
        if isinstance(v, tuple):
            if v[0] != "ptr":
                self.lost(x, "source")
            v = mk("load", mk("sym", v[1]), X.add(v[2], k))
        m = s.mem[p[1]]
        if m.freed:
            raise Bad(self.at(x), "freed memory is written", "use after free")
        m.writes.append((X.add(p[2], k), v, [(k, num(0), n)], self.at(x).line))
