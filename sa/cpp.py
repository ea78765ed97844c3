"""C++ sources as modules the interpreter reads: clang's typed syntax tree, rewritten statement by statement.

Arrays and matrices stay abstract: `A(i, j)` is `__load__(A, i, j)`, an assignment to it `__store__`, `op=` an
`__update__`; vectors are lists; records are objects.  Whatever has no faithful rewriting raises Untranslated.
"""
import ast
import json
import os
import subprocess

from .index import AnalysisError, Module

INC = "pyEdgeEval/_lib/include"
ARRAYS = ("Matrix", "Array1D", "Array2D", "Array3D")
SCALARS = ("int", "double", "float", "bool", "unsigned int", "long", "unsigned long", "short", "char", "size_t",
           "long long", "unsigned char")
EXTERN = ["__load__", "__store__", "__update__", "__array__", "__trunc__", "__div__", "__push__", "__uninit__", "__fill__",
          "__data__", "__dim__", "__out__", "__resize__", "__vector__", "__size__", "__item__", "__put__"]


class Untranslated(Exception):
    pass


def parse(repo, rel):
    """The declarations of one translation unit that stand in the repository's own files."""
    cmd = ["clang++", "-std=c++17", "-w", "-DNDEBUG", "-I", os.path.join(repo, INC), "-fsyntax-only",
           "-Xclang", "-ast-dump=json", os.path.join(repo, rel)]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode or not p.stdout:
        raise AnalysisError(f"{rel}: clang: {p.stderr.strip()[:400]}")
    d = json.loads(p.stdout)
    cur = ["", 0]
    root = os.path.realpath(repo) + os.sep

    def place(x):
        # clang leaves a file or line out when it is that of the location printed before
        if "file" in x:
            cur[0] = x["file"]
        if "line" in x:
            cur[1] = x["line"]
        x["at"] = (cur[0], cur[1])

    def loc(x):
        if "offset" in x:
            place(x)
        for k in ("spellingLoc", "expansionLoc"):
            if k in x:
                loc(x[k])
                x.setdefault("at", x[k].get("at"))
                if k == "expansionLoc":
                    x["at"] = x[k].get("at")

    def walk(x):
        for k, v in x.items():
            if k == "loc":
                loc(v)
            elif k == "range":
                loc(v["begin"])
                loc(v["end"])
            elif k == "inner":
                for y in v:
                    if y:
                        walk(y)
            elif isinstance(v, dict) and ("loc" in v or "range" in v):
                walk(v)
    walk(d)
    own = []
    for x in d["inner"]:
        at = x.get("loc", {}).get("at") or x.get("range", {}).get("begin", {}).get("at")
        if at and at[0] and os.path.realpath(at[0]).startswith(root):
            own.append(x)
    return own


def qt(x):
    t = x.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or ""


def bare(t):
    t = t.replace("const ", "").replace("struct ", "").replace("class ", "").strip()
    while t.endswith(("&", "*", " ", "const")):
        t = t[:-1].rstrip() if not t.endswith("const") else t[:-5].rstrip()
    return t


def is_array(t):
    return bare(t).split("<")[0] in ARRAYS


def is_vector(t):
    return bare(t).startswith(("std::vector<", "vector<"))


def is_int(t):
    return bare(t) in ("int", "unsigned int", "long", "unsigned long", "short", "bool", "char", "size_t", "long long",
                       "unsigned long long", "unsigned char", "std::vector::size_type")


def line_of(x):
    at = x.get("range", {}).get("begin", {}).get("at") or x.get("loc", {}).get("at")
    return at[1] if at else 0


PASS = {"ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr",
        "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr", "CXXConstCastExpr"}


def strip(x):
    while x["kind"] in PASS or x["kind"] == "ImplicitCastExpr" and x.get("castKind") in (
            "LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay"):
        if not x.get("inner"):
            return x
        x = x["inner"][0]
    return x


class Unit:
    """One C++ file: text of the Python module that says the same, with its line table."""

    def __init__(self, repo, rel):
        self.repo, self.rel = repo, rel
        self.own = parse(repo, rel)
        self.lines, self.at = [], []
        self.fns, self.recs, self.globals = {}, {}, {}
        self.named = {}
        self.done = set()
        self.names = {}
        self.queue = []
        for d in self.own:
            self.collect(d)

    def collect(self, d):
        k = d.get("kind")
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
            self.fns[d["id"]] = d
            if any(y.get("kind") == "CompoundStmt" for y in d.get("inner", [])):
                self.named.setdefault(d.get("name"), []).append(d)
                if d.get("previousDecl"):
                    self.fns[d["previousDecl"]] = d
        elif k in ("NamespaceDecl", "LinkageSpecDecl"):
            for y in d.get("inner", []):
                self.collect(y)
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            self.recs[d["id"]] = d
            self.recs[d.get("name")] = self.recs.get(d.get("name")) or d
            for y in d.get("inner", []):
                if y.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl"):
                    y["of"] = d.get("name")
                    self.collect(y)
        elif k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            for y in d.get("inner", []):
                if y.get("kind") in ("ClassTemplateSpecializationDecl",) or k == "FunctionTemplateDecl":
                    self.collect(y)
        elif k == "VarDecl":
            self.globals[d["id"]] = d

    # -- text
    def put(self, ind, text, node):
        self.lines.append("    " * ind + text)
        self.at.append(node if isinstance(node, int) else line_of(node))

    def body_of(self, d):
        for y in d.get("inner", []):
            if y.get("kind") == "CompoundStmt":
                return y
        return None

    def fn_name(self, d):
        if d["id"] not in self.names:
            n = d.get("name", "fn")
            n = "".join(c if c.isalnum() or c == "_" else f"_{ord(c)}" for c in n)
            if d.get("of"):
                n = f"{d['of']}_{n}"
            while n in self.names.values() or n in EXTERN:
                n += "_"
            self.names[d["id"]] = n
            self.queue.append(d)
        return self.names[d["id"]]

    def module(self, name, roots):
        for g in self.globals.values():
            init = [y for y in g.get("inner", []) if y.get("kind", "").endswith(("Expr", "Literal"))]
            if init and bare(qt(g)) in SCALARS and "const" in qt(g):
                f = Fn(self, None)
                try:
                    self.put(0, f"{g['name']} = {f.ex(init[-1])}", g)
                except Untranslated:
                    pass
        for r in roots:
            ds = self.named.get(r, [])
            if len(ds) != 1:
                raise AnalysisError(f"{self.rel}: {len(ds)} definitions of {r}")
            self.fn_name(ds[0])
        recs = set()
        while self.queue:
            d = self.queue.pop(0)
            Fn(self, d).define()
            for r in sorted(self.used_recs - recs):
                recs.add(r)
                self.put(0, f"class R_{r}:", 0)
                self.put(1, "pass", 0)
        src = "\n".join(self.lines) + "\n"
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Untranslated(f"{self.rel}: {e}")
        for n in ast.walk(tree):
            n._sa_file = self.rel
            for k in ("lineno", "end_lineno"):
                if getattr(n, k, None):
                    setattr(n, k, self.at[min(getattr(n, k), len(self.at)) - 1])
        cinfo = {"extern": {n: [] for n in EXTERN + sorted(self.externs)}, "ctypes": {}, "cfuncs": {}}
        self.src = src
        return Module(name, os.path.join(self.repo, self.rel), self.rel, src, tree, cinfo)

    used_recs = frozenset()
    externs = frozenset()


class Fn:
    def __init__(self, unit, d):
        self.u, self.d = unit, d
        self.scopes = [{}]
        self.used = set()
        self.refs = []
        self.tmp = 0
        self.aliases = {}
        self.this = None
        self.pre = None

    def lost(self, x, why=""):
        raise Untranslated(f"{self.u.rel}:{line_of(x)}: {x.get('kind')} {why}")

    def declare(self, d):
        n = d.get("name") or f"_p{len(self.used)}"
        import keyword
        if keyword.iskeyword(n) or n in ("len", "range", "min", "max", "abs", "int", "float", "bool"):
            n += "_"
        out = n
        active = {v for s in self.scopes for v in s.values()}
        while out in active:
            out += "_"
        self.scopes[-1][d["id"]] = out
        self.used.add(out)
        return out

    def var(self, d, x):
        for s in reversed(self.scopes):
            if d["id"] in s:
                return s[d["id"]]
        if d["id"] in self.u.globals:
            return d["name"]
        self.lost(x, f"variable {d.get('name')}")

    def by_ref(self, p):
        t = qt(p)
        return t.endswith("&") and "const" not in t and bare(t) in SCALARS

    def define(self):
        d, u = self.d, self.u
        body = u.body_of(d)
        ps = [y for y in d.get("inner", []) if y.get("kind") == "ParmVarDecl"]
        names = [self.declare(p) for p in ps]
        self.refs = [n for n, p in zip(names, ps) if self.by_ref(p)]
        ctor = d["kind"] == "CXXConstructorDecl"
        method = d["kind"] == "CXXMethodDecl" and d.get("storageClass") != "static"
        self.this = "this" if ctor or method else None
        if body is None:
            self.lost(d, f"{d.get('name')} has no body")
        u.put(0, f"def {u.names[d['id']]}({', '.join((['this'] if method else []) + names)}):", d)
        if ctor:
            u.put(1, f"this = {self.rec(d['of'])}()", d)
            for y in d.get("inner", []):
                if y.get("kind") == "CXXCtorInitializer" and y.get("anyInit"):
                    u.put(1, f"this.{y['anyInit']['name']} = {self.ex(y['inner'][0])}", d)
        self.ctor = ctor
        n = len(u.lines)
        self.block(body, 1)
        if ctor:
            u.put(1, "return this", d)
        elif self.refs:
            u.put(1, f"return (None, {', '.join(self.refs)})", d)
        elif len(u.lines) == n:
            u.put(1, "pass", d)

    def rec(self, name):
        self.u.used_recs = set(self.u.used_recs) | {name}
        return f"R_{name}"

    # -- statements
    def block(self, s, ind):
        self.scopes.append({})
        if s["kind"] == "CompoundStmt":
            for y in s.get("inner", []):
                self.st(y, ind)
        else:
            self.st(s, ind)
        self.scopes.pop()

    def suite(self, s, ind):
        n = len(self.u.lines)
        if s:
            self.block(s, ind)
        if len(self.u.lines) == n:
            self.u.put(ind, "pass", s or 0)

    def flush(self, x, ind, go):
        """Text of an expression, after what its side effects need."""
        keep, self.pre = self.pre, []
        post_keep, self.post = getattr(self, "post", []), []
        t = go()
        for p in self.pre:
            self.u.put(ind, p, x)
        post = self.post
        self.pre, self.post = keep, post_keep
        return t, post

    def emit(self, x, ind, go, form="{}"):
        t, post = self.flush(x, ind, go)
        if t is not None:
            self.u.put(ind, form.format(t) if form != "{}" else t, x)
        for p in post:
            self.u.put(ind, p, x)

    def st(self, s, ind):
        k = s["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(s, ind)
        return self.expr_stmt(s, ind)

    def s_CompoundStmt(self, s, ind):
        self.block(s, ind)

    def s_NullStmt(self, s, ind):
        pass

    def s_DeclStmt(self, s, ind):
        for d in s.get("inner", []):
            if d["kind"] in ("TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDecl", "UsingDirectiveDecl"):
                continue
            if d["kind"] != "VarDecl":
                self.lost(d)
            self.local(d, ind)

    def local(self, d, ind):
        init = [y for y in d.get("inner", []) if "Attr" not in y.get("kind", "Attr") and "Type" not in y["kind"]]
        t = qt(d)
        if d.get("storageClass") == "static":
            self.lost(d, "static local")
        if not init:
            n = self.declare(d)
            self.u.put(ind, f"{n} = __uninit__()" if bare(t) in SCALARS else f"{n} = {self.fresh(d, t, [])}", d)
            return
        e = init[-1]
        lam = strip(e)
        if lam["kind"] == "LambdaExpr":
            return self.lambda_(d, lam, ind)
        if t.endswith("&") and bare(t) in SCALARS:
            x = strip(e)
            if "const" not in t or x["kind"] == "CXXOperatorCallExpr":
                return self.emit(d, ind, lambda: self.alias(d, x))
        if t.endswith("&") and "const" not in t and bare(t).split("::")[-1] in self.u.recs and \
                strip(e)["kind"] == "CXXOperatorCallExpr":
            self.lost(d, "reference to an element")
        x = strip(e)
        if x["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (is_array(t) or is_vector(t)) and not (
                t.endswith("&")):
            def go():
                args = [self.ex(y) for y in x.get("inner", []) if strip(y)["kind"] != "CXXDefaultArgExpr"]
                if x.get("inner") and len(args) == 1 and bare(qt(strip(x["inner"][0]))) == bare(t):
                    return args[0]
                n = self.declare(d)
                return f"{n} = {self.fresh(d, t, args, n)}"
            return self.emit(d, ind, go)

        def go():
            v = self.val(e)
            return f"{self.declare(d)} = {v}"
        self.emit(d, ind, go)

    def alias(self, d, x):
        """Another name for a variable or an element: its indices keep the values they have here."""
        while x["kind"] == "BinaryOperator" and x["opcode"] == "=":
            t = self.assign(x, x["inner"][0], x["inner"][1])
            if t is not None:
                self.pre.append(t)
            x = strip(x["inner"][0])
        lv = self.lval(x)
        if lv[0] == "elem":
            pins = []
            for i in lv[2]:
                pins.append(self.name_tmp())
                self.pre.append(f"{pins[-1]} = {i}")
            lv = ("elem", lv[1], pins)
        elif lv[0] != "var":
            self.lost(d, "reference")
        self.aliases[d["id"]] = lv
        return None

    def fresh(self, d, t, args, name=None):
        """A new object of a class type, given constructor arguments as text."""
        b = bare(t)
        if is_array(t):
            return f"__array__({(name or d.get('name', '?'))!r}, {b!r}, {', '.join(args)})" if args else \
                f"__array__({(name or d.get('name', '?'))!r}, {b!r})"
        if is_vector(t):
            return f"__vector__({', '.join([repr(name or d.get('name', '?')), repr(b)] + args)})"
        r = b.split("::")[-1].split("<")[0]
        if r in self.u.recs and not args:
            return f"{self.rec(r)}()"
        self.u.externs = set(self.u.externs) | {"new_" + r}
        return f"new_{r}({', '.join(args)})"

    def lambda_(self, d, lam, ind):
        op = None
        for y in lam.get("inner", []):
            if y["kind"] == "CXXRecordDecl":
                for z in y.get("inner", []):
                    if z["kind"] == "CXXMethodDecl" and z.get("name") == "operator()":
                        op = z
        body = self.u.body_of(op) if op else None
        if body is None:
            self.lost(lam)
        n = self.declare(d)
        self.scopes.append({})
        ps = [y for y in op.get("inner", []) if y.get("kind") == "ParmVarDecl"]
        if any(self.by_ref(p) for p in ps):
            self.lost(lam, "reference parameter")
        names = [self.declare(p) for p in ps]
        self.u.put(ind, f"def {n}({', '.join(names)}):", d)
        outer = set()
        for s in self.scopes[:-1]:
            outer |= set(s.values())
        mark = len(self.u.lines)
        keep = self.refs, getattr(self, "ctor", False)
        self.refs, self.ctor = [], False
        self.suite(body, ind + 1)
        self.refs, self.ctor = keep
        self.scopes.pop()
        tree = ast.parse("def f():\n" + "\n".join(" " + x for x in self.u.lines[mark:]) + "\n")
        sets = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} & outer
        if sets:
            at = self.u.at[mark - 1]
            self.u.lines.insert(mark, "    " * (ind + 1) + "nonlocal " + ", ".join(sorted(sets)))
            self.u.at.insert(mark, at)

    def s_ReturnStmt(self, s, ind):
        e = s.get("inner")
        if getattr(self, "ctor", False):
            self.u.put(ind, "return this", s)
        elif self.refs:
            self.emit(s, ind, lambda: f"return ({self.val(e[0]) if e else 'None'}, {', '.join(self.refs)})")
        elif not e:
            self.u.put(ind, "return", s)
        else:
            self.emit(s, ind, lambda: f"return {self.val(e[0])}")

    def s_IfStmt(self, s, ind):
        parts = [y for y in s["inner"] if y]
        if s.get("hasInit") or s.get("hasVar"):
            self.scopes.append({})
            self.st(parts.pop(0), ind)
        c = parts[0]
        t, post = self.flush(c, ind, lambda: self.cond(c))
        if post:
            self.lost(s, "side effect in a condition")
        self.u.put(ind, f"if {t}:", s)
        self.suite(parts[1], ind + 1)
        if len(parts) > 2:
            self.u.put(ind, "else:", parts[2])
            self.suite(parts[2], ind + 1)
        if s.get("hasInit") or s.get("hasVar"):
            self.scopes.pop()

    def s_BreakStmt(self, s, ind):
        self.u.put(ind, "break", s)

    def s_ContinueStmt(self, s, ind):
        if self.incs and self.incs[-1]:
            self.incs[-1](ind)
        self.u.put(ind, "continue", s)

    incs = ()

    def assigns(self, x, ids, name):
        """Does a subtree change a variable (or call anything that could)?"""
        k = x.get("kind")
        inner = [y for y in x.get("inner", []) if y]
        if k in ("BinaryOperator",) and x.get("opcode") == "=" or k == "CompoundAssignOperator" or (
                k == "UnaryOperator" and x.get("opcode") in ("++", "--", "&")):
            t = strip(inner[0])
            if t["kind"] == "DeclRefExpr" and t["referencedDecl"]["id"] in ids:
                return True
        if k == "CallExpr":
            for y in inner[1:]:
                t = y
                while t["kind"] in PASS:
                    t = t["inner"][0]
                if t["kind"] == "DeclRefExpr" and t["referencedDecl"]["id"] in ids and not any(
                        z.get("type", {}).get("qualType", "").startswith("const ") for z in (y, t)):
                    return True     # passed by reference
        if k == "CXXMemberCallExpr" and strip(inner[0])["kind"] == "MemberExpr":
            me = strip(inner[0])
            t = strip(me["inner"][0])
            if t["kind"] == "DeclRefExpr" and t["referencedDecl"]["id"] in ids and me.get("name") in (
                    "push_back", "emplace_back", "resize", "clear", "pop_back", "erase", "insert", "swap", "assign"):
                return True
        return any(self.assigns(y, ids, name) for y in inner)

    def vars_in(self, x, out=None):
        out = set() if out is None else out
        if x.get("kind") == "DeclRefExpr":
            out.add(x["referencedDecl"]["id"])
        for y in x.get("inner", []):
            if y:
                self.vars_in(y, out)
        return out

    def counted(self, v, cond, inc, body):
        """(operator, bound, step) of a loop that counts one variable towards a fixed bound."""
        c = strip(cond)
        if c["kind"] != "BinaryOperator" or c["opcode"] not in ("<", "<=", ">", ">=", "!="):
            return None
        a, b = c["inner"]
        op = c["opcode"]
        if self.is_var(b, v) and not self.is_var(a, v):
            a, b = b, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        if not self.is_var(a, v) or not is_int(qt(strip(a))):
            return None
        step = self.step(inc, v)
        if step is None or v in self.vars_in(b):
            return None
        if not is_int(qt(b)):
            return None
        if self.assigns(body, self.vars_in(b) | {v}, None):
            return None
        if op == "!=" and abs(step) != 1:
            return None
        if step > 0 and op in ("<", "<=", "!=") or step < 0 and op in (">", ">=", "!="):
            return op, b, step
        return None

    def is_var(self, x, v):
        x = strip(x)
        while x["kind"] == "ImplicitCastExpr" and x.get("castKind") == "IntegralCast":
            x = strip(x["inner"][0])
        return x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] == v

    def step(self, inc, v):
        x = strip(inc)
        if x["kind"] == "UnaryOperator" and x["opcode"] in ("++", "--") and self.is_var(x["inner"][0], v):
            return 1 if x["opcode"] == "++" else -1
        if x["kind"] == "CompoundAssignOperator" and x["opcode"] in ("+=", "-=") and self.is_var(x["inner"][0], v):
            y = strip(x["inner"][1])
            if y["kind"] == "IntegerLiteral" and int(y["value"]) >= 1:
                return int(y["value"]) * (1 if x["opcode"] == "+=" else -1)
        if x["kind"] == "BinaryOperator" and x["opcode"] == "=" and self.is_var(x["inner"][0], v):
            y = strip(x["inner"][1])
            if y["kind"] == "BinaryOperator" and y["opcode"] in ("+", "-") and self.is_var(y["inner"][0], v):
                z = strip(y["inner"][1])
                if z["kind"] == "IntegerLiteral" and int(z["value"]) == 1:
                    return 1 if y["opcode"] == "+" else -1
        return None

    def rng(self, name, start, op, bound, step):
        if step > 0:
            more = f", {step}" if step > 1 else ""
            return f"range({start}, {bound}{' + 1' if op == '<=' else ''}{more})"
        if step < -1:
            return f"range({start}, {bound}{' - 1' if op == '>=' else ''}, {step})"
        lo = bound if op == ">=" else f"({bound}) + 1"
        return f"reversed(range({lo}, ({start}) + 1))"

    def s_ForStmt(self, s, ind):
        init, cv, cond, inc, body = (s["inner"] + [{}] * 5)[:5]
        if cv:
            self.lost(s, "declaration in a condition")
        self.scopes.append({})
        if init and init.get("kind") == "DeclStmt" and len(init["inner"]) == 1 and cond and inc:
            d = init["inner"][0]
            got = self.counted(d["id"], cond, inc, body)
            if got and d.get("inner"):
                op, b, step = got
                t, post = self.flush(s, ind, lambda: (self.val(d["inner"][-1]), self.ex(b)))
                if post:
                    self.lost(s, "side effect")
                n = self.declare(d)
                self.u.put(ind, f"for {n} in {self.rng(n, t[0], op, t[1], step)}:", s)
                self.incs = list(self.incs) + [None]
                self.suite(body, ind + 1)
                self.incs.pop()
                self.scopes.pop()
                return
        # a variable set before: for (x = 0; ...)
        if init:
            self.st(init, ind)
        self.while_(s, cond, inc, body, ind)
        self.scopes.pop()

    def while_(self, s, cond, inc, body, ind):
        # while (v < bound) { ...; v++; }
        parts = [y for y in body.get("inner", []) if y] if body.get("kind") == "CompoundStmt" else [body]
        rest, step = parts, inc
        if not inc and parts:
            rest, step = parts[:-1], parts[-1]
        if cond and step and not (not inc and self.jumps(rest)):
            c = strip(cond)
            if c["kind"] == "BinaryOperator":
                for side in c["inner"]:
                    x = strip(side)
                    while x["kind"] == "ImplicitCastExpr":
                        x = strip(x["inner"][0])
                    if x["kind"] != "DeclRefExpr":
                        continue
                    v = x["referencedDecl"]["id"]
                    blk = {"kind": "CompoundStmt", "inner": rest}
                    got = self.counted(v, cond, step, blk)
                    if got is None or abs(got[2]) != 1 or self.breaks(rest):
                        continue
                    op, b, k = got
                    n = self.var(x["referencedDecl"], x)
                    t, post = self.flush(s, ind, lambda: self.ex(b))
                    if post:
                        break
                    w = n + "_turn"
                    self.u.put(ind, f"for {w} in {self.rng(n, n, op, t, k)}:", s)
                    # the counter itself: visible in the body, and after the loop at its bound
                    keep = self.scopes
                    self.scopes = [dict(z) for z in keep]
                    for z in self.scopes:
                        if v in z:
                            z[v] = w
                    self.incs = list(self.incs) + [None]
                    self.suite(blk, ind + 1)
                    self.incs.pop()
                    self.scopes = keep
                    end = {"<": t, "<=": f"({t}) + 1", "!=": t, ">": t, ">=": f"({t}) - 1"}[op]
                    self.u.put(ind, f"{n} = {'max' if k > 0 else 'min'}({n}, {end})", s)
                    return
        t, post = self.flush(s, ind, lambda: self.cond(cond) if cond else "True")
        if post or self.pre:
            self.lost(s, "side effect in a condition")
        self.u.put(ind, f"while {t}:", s)
        if inc:
            self.incs = list(self.incs) + [lambda i: self.st(inc, i)]
        else:
            self.incs = list(self.incs) + [None]
        self.suite(body, ind + 1)
        if inc:
            self.st(inc, ind + 1)
        self.incs.pop()

    def jumps(self, xs):
        """A `continue` of this loop."""
        for x in xs:
            if x.get("kind") == "ContinueStmt":
                return True
            if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                continue
            if self.jumps([y for y in x.get("inner", []) if y]):
                return True
        return False

    def breaks(self, xs):
        for x in xs:
            if x.get("kind") in ("BreakStmt", "ReturnStmt"):
                return True
            if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt"):
                if self.returns([y for y in x.get("inner", []) if y]):
                    return True
                continue
            if self.breaks([y for y in x.get("inner", []) if y]):
                return True
        return False

    def returns(self, xs):
        return any(x.get("kind") == "ReturnStmt" or self.returns([y for y in x.get("inner", []) if y]) for x in xs)

    def s_WhileStmt(self, s, ind):
        parts = [y for y in s["inner"] if y]
        if len(parts) != 2:
            self.lost(s)
        self.while_(s, parts[0], None, parts[1], ind)

    def s_DoStmt(self, s, ind):
        self.lost(s)

    def s_CXXForRangeStmt(self, s, ind):
        # range declaration, loop variable, body
        rng = var = None
        for y in s["inner"][:-1]:
            if y and y["kind"] == "DeclStmt":
                d = y["inner"][0]
                if d.get("name", "").startswith("__range"):
                    rng = [z for z in d["inner"] if z][-1]
                elif not d.get("name", "").startswith("__"):
                    var = d
        if rng is None or var is None:
            self.lost(s)
        if qt(var).endswith("&") and "const" not in qt(var):
            self.lost(s, "writable loop variable")
        self.scopes.append({})
        t, post = self.flush(s, ind, lambda: self.ex(rng))
        n = self.declare(var)
        if not is_vector(qt(rng)):
            self.lost(s, "range")
        k = self.name_tmp()
        self.u.put(ind, f"for {k} in range(0, __size__({t})):", s)
        self.u.put(ind + 1, f"{n} = __item__({t}, {k})", s)
        self.incs = list(self.incs) + [None]
        self.suite(s["inner"][-1], ind + 1)
        self.incs.pop()
        self.scopes.pop()

    def expr_stmt(self, s, ind):
        def go():
            x = s
            while x["kind"] in PASS or x["kind"].endswith("CastExpr") and x.get("castKind") in ("ToVoid", "NoOp"):
                x = x["inner"][0]
            k = x["kind"]
            if k in ("IntegerLiteral", "CXXNullPtrLiteralExpr"):
                return None
            if k == "BinaryOperator" and x["opcode"] == ",":
                for y in x["inner"]:
                    self.expr_stmt(y, ind)
                return None
            if k == "BinaryOperator" and x["opcode"] == "=":
                return self.assign(x, x["inner"][0], x["inner"][1])
            if k == "CompoundAssignOperator":
                return self.update(x)
            if k == "UnaryOperator" and x["opcode"] in ("++", "--"):
                return self.set(x, x["inner"][0], "+" if x["opcode"] == "++" else "-", "1")
            if k == "CXXOperatorCallExpr":
                ops = x["inner"]
                name = self.callee(ops[0]).get("name", "")
                if name == "operator=":
                    return self.assign(x, ops[1], ops[2])
                if name in ("operator+=", "operator-=", "operator*=", "operator/="):
                    self.lost(x)
            if k == "ConditionalOperator" and bare(qt(x)) == "void":
                return None if self.quiet(x) else self.lost(x)
            return self.ex(x)
        self.emit(s, ind, go)

    def quiet(self, x):
        """assert(): nothing but a check."""
        return any(y.get("kind") == "CallExpr" and self.callee(y["inner"][0]).get("name") in (
            "__assert_fail", "abort", "__assert") for y in x["inner"] if y)

    def lval(self, x):
        """('var', name) | ('elem', array, indices) | ('item', list, index) | ('field', object, name)"""
        while x["kind"] in PASS or x["kind"] == "ImplicitCastExpr" and x.get("castKind") == "NoOp":
            x = x["inner"][0]
        k = x["kind"]
        if k == "DeclRefExpr":
            if x["referencedDecl"]["id"] in self.aliases:
                return self.aliases[x["referencedDecl"]["id"]]
            return "var", self.var(x["referencedDecl"], x)
        if k == "MemberExpr":
            return "field", self.ex(x["inner"][0]), x["name"]
        if k == "CXXOperatorCallExpr":
            n = self.callee(x["inner"][0]).get("name")
            if n == "operator()" and is_array(qt(x["inner"][1])):
                return "elem", self.ex(x["inner"][1]), [self.ex(y) for y in x["inner"][2:]]
            if n == "operator[]" and is_vector(qt(x["inner"][1])):
                return "item", self.ex(x["inner"][1]), self.ex(x["inner"][2])
        if k == "CXXMemberCallExpr":
            me = strip(x["inner"][0])
            if me["kind"] == "MemberExpr" and me["name"] == "at" and is_vector(qt(me["inner"][0])):
                return "item", self.ex(me["inner"][0]), self.ex(x["inner"][1])
        self.lost(x, "as a target")

    def assign(self, x, to, v):
        lv = self.lval(to)
        y = strip(v)
        if y["kind"] == "BinaryOperator" and y["opcode"] == "=":
            # a = b = v
            t = self.name_tmp()
            keep = self.assign(y, y["inner"][0], y["inner"][1])
            self.pre.append(keep)
            value = self.ex(y["inner"][0])
            return self.store(x, lv, value)
        if lv[0] == "var" and is_array(qt(to)):
            if y["kind"] in ("CXXTemporaryObjectExpr", "CXXConstructExpr", "CXXFunctionalCastExpr"):
                args = [self.ex(z) for z in y.get("inner", []) if strip(z)["kind"] != "CXXDefaultArgExpr"]
                return f"__store__({lv[1]}, {self.fresh({}, qt(y), args, '?')})"
            return f"__store__({lv[1]}, {self.ex(v)})"
        return self.store(x, lv, self.val(v))

    def name_tmp(self):
        self.tmp += 1
        return f"_t{self.tmp}"

    def store(self, x, lv, value):
        if lv[0] == "var":
            return f"{lv[1]} = {value}"
        if lv[0] == "field":
            return f"{lv[1]}.{lv[2]} = {value}"
        if lv[0] == "item":
            return f"__put__({lv[1]}, {lv[2]}, {value})"
        return f"__store__({lv[1]}, {', '.join(lv[2])}, {value})"

    def update(self, x):
        op = x["opcode"][:-1]
        t, v = x["inner"]
        to_int = bare(qt(x)) not in ("double", "float")
        calc = (x.get("computeResultType") or {}).get("qualType", "")
        return self.set(x, t, op, self.ex(v), trunc=to_int and calc in ("double", "float"),
                        idiv=calc not in ("double", "float"))

    def set(self, x, t, op, v, trunc=False, idiv=True):
        lv = self.lval(t)
        if op not in ("+", "-", "*", "/", "%", "&", "|"):
            self.lost(x, op)
        if lv[0] == "elem":
            if trunc or op in ("%", "&", "|") or (op == "/" and idiv):
                self.lost(x)
            return f"__update__({lv[1]}, {', '.join(lv[2])}, {op!r}, {v})"
        cur = lv[1] if lv[0] == "var" else f"{lv[1]}.{lv[2]}" if lv[0] == "field" else \
            f"__item__({lv[1]}, {lv[2]})"
        if op == "/":
            e = f"{cur} // ({v})" if idiv and not trunc else f"{cur} / ({v})"
        elif op in ("&", "|"):
            e = f"({cur}) {'and' if op == '&' else 'or'} ({v})"
            if bare(qt(t)) != "bool":
                self.lost(x, op)
        else:
            if lv[0] == "var" and op in ("+", "-") and not trunc:
                return f"{cur} {op}= {v}"
            e = f"{cur} {op} ({v})"
        return self.store(x, lv, f"int({e})" if trunc else e)

    # -- expressions
    def callee(self, x):
        x = strip(x)
        if x["kind"] == "DeclRefExpr":
            return x["referencedDecl"]
        return {}

    def cond(self, x):
        return self.ex(x)

    def val(self, x):
        """An expression whose value is kept: records are copied."""
        y = strip(x)
        r = bare(qt(y)).split("::")[-1].split("<")[0]
        if y["kind"] in ("CXXConstructExpr",) and len(y.get("inner", [])) == 1:
            z = strip(y["inner"][0])
            if bare(qt(z)) == bare(qt(y)) and r in self.u.recs and not is_array(qt(y)):
                return self.copy(z, r)
        if r in self.u.recs and not is_array(qt(y)) and y["kind"] in ("DeclRefExpr", "CXXOperatorCallExpr", "MemberExpr"):
            return self.copy(y, r)
        return self.ex(x)

    def copy(self, z, r):
        if z["kind"] in ("CXXTemporaryObjectExpr", "CXXConstructExpr", "CallExpr", "CXXMemberCallExpr", "InitListExpr",
                         "CXXFunctionalCastExpr"):
            return self.ex(z)
        fields = self.fields(r)
        t = self.name_tmp()
        if self.pre is None:
            self.lost(z)
        self.pre.append(f"{t} = {self.rec(r)}()")
        for f in fields:
            self.pre.append(f"{t}.{f} = ({self.ex(z)}).{f}")
        return t

    def fields(self, r):
        d = self.u.recs[r]
        out = [y["name"] for y in d.get("inner", []) if y.get("kind") == "FieldDecl" and y.get("name")]
        if not out:
            for x in self.u.recs.values():
                if x.get("name") == r:
                    out = out or [y["name"] for y in x.get("inner", []) if y.get("kind") == "FieldDecl"]
        return out

    def ex(self, x):
        m = getattr(self, "e_" + x["kind"], None)
        if m is not None:
            return m(x)
        if x["kind"] in PASS and x.get("inner"):
            t = self.ex(x["inner"][0])
            return f"({t})" if x["kind"] == "ParenExpr" else t
        self.lost(x)

    def e_IntegerLiteral(self, x):
        return x["value"]

    def e_FloatingLiteral(self, x):
        v = float(x["value"])
        return repr(v) if v != int(v) or abs(v) > 1e15 else f"{int(v)}.0"

    def e_CXXBoolLiteralExpr(self, x):
        return "True" if x["value"] else "False"

    def e_CXXNullPtrLiteralExpr(self, x):
        return "None"

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CharacterLiteral(self, x):
        return str(x["value"])

    def e_StringLiteral(self, x):
        try:
            return repr(json.loads(x["value"]))
        except ValueError:
            return repr(x["value"])

    def e_SourceLocExpr(self, x):
        return "0"

    def e_PredefinedExpr(self, x):
        return "''"

    def e_CXXDefaultArgExpr(self, x):
        return "None"

    def e_CXXThisExpr(self, x):
        return "this"

    def e_DeclRefExpr(self, x):
        d = x["referencedDecl"]
        if d.get("id") in self.aliases:
            lv = self.aliases[d["id"]]
            return lv[1] if lv[0] == "var" else f"__load__({lv[1]}, {', '.join(lv[2])})"
        if d["kind"] in ("VarDecl", "ParmVarDecl"):
            if d["id"] not in self.u.globals and not any(d["id"] in s for s in self.scopes):
                self.u.externs = set(self.u.externs) | {"g_" + d["name"]}
                return "g_" + d["name"]
            return self.var(d, x)
        if d["kind"] == "FunctionDecl":
            return self.function(d)
        if d["kind"] == "EnumConstantDecl":
            self.u.externs = set(self.u.externs) | {"k_" + d["name"]}
            return "k_" + d["name"]
        self.lost(x, d["kind"])

    def function(self, d):
        f = self.u.fns.get(d["id"])
        if f is not None and self.u.body_of(f) is not None:
            return self.u.fn_name(f)
        n = d["name"]
        n = {"fabs": "abs", "min": "min", "max": "max"}.get(n, n)
        if n in ("min", "max", "abs"):
            return n
        self.u.externs = set(self.u.externs) | {n}
        return n

    def e_ImplicitCastExpr(self, x):
        k = x.get("castKind")
        t = self.ex(x["inner"][0])
        if k in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "IntegralToFloating",
                 "FloatingCast", "IntegralCast", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase",
                 "UncheckedDerivedToBase", "NullToPointer", "ToVoid", "BitCast", "ConstructorConversion"):
            return t
        if k in ("IntegralToBoolean", "FloatingToBoolean"):
            return f"bool({t})"
        if k == "FloatingToIntegral":
            return f"int({t})"
        self.lost(x, k)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_ImplicitCastExpr

    def e_CXXFunctionalCastExpr(self, x):
        if x.get("castKind") in ("ConstructorConversion", "NoOp"):
            return self.ex(x["inner"][0])
        return self.e_ImplicitCastExpr(x)

    def e_ParenExpr(self, x):
        return f"({self.ex(x['inner'][0])})"

    def e_UnaryOperator(self, x):
        op = x["opcode"]
        y = x["inner"][0]
        if op == "-":
            return f"(-{self.ex(y)})"
        if op == "+":
            return self.ex(y)
        if op == "!":
            return f"(not {self.ex(y)})"
        if op == "*" and strip(y)["kind"] == "CXXThisExpr":
            return "this"
        if op == "__extension__":
            return self.ex(y)
        if op in ("++", "--") and self.pre is not None:
            text = self.set(x, y, "+" if op == "++" else "-", "1")
            if x.get("isPostfix"):
                self.post.append(text)
            else:
                self.pre.append(text)
            return self.ex(y)
        self.lost(x, op)

    def e_BinaryOperator(self, x):
        op = x["opcode"]
        a, b = x["inner"]
        if op in ("&&", "||"):
            return f"({self.ex(a)} {'and' if op == '&&' else 'or'} {self.ex(b)})"
        if op == "/":
            return f"({self.ex(a)} {'//' if is_int(qt(x)) else '/'} {self.ex(b)})"
        if op in ("+", "-", "*", "%", "<", ">", "<=", ">=", "==", "!="):
            return f"({self.ex(a)} {op} {self.ex(b)})"
        if op in ("&", "|") and bare(qt(strip(a))) == "bool" == bare(qt(strip(b))):
            return f"({self.ex(a)} {'and' if op == '&' else 'or'} {self.ex(b)})"
        if op == "=" and self.pre is not None:
            self.pre.append(self.assign(x, a, b))
            return self.ex(a)
        self.lost(x, op)

    def e_ConditionalOperator(self, x):
        c, a, b = x["inner"]
        n = len(self.pre) if self.pre is not None else 0
        t = f"({self.ex(a)} if {self.ex(c)} else {self.ex(b)})"
        if self.pre is not None and len(self.pre) != n:
            self.lost(x, "side effect")
        return t

    def e_MemberExpr(self, x):
        return f"({self.ex(x['inner'][0])}).{x['name']}"

    def e_InitListExpr(self, x):
        r = bare(qt(x)).split("::")[-1].split("<")[0]
        if r in self.u.recs and self.pre is not None:
            t = self.name_tmp()
            vals = [self.ex(y) for y in x.get("inner", [])]
            self.pre.append(f"{t} = {self.rec(r)}()")
            for f, v in zip(self.fields(r), vals):
                self.pre.append(f"{t}.{f} = {v}")
            return t
        if len(x.get("inner", [])) == 1 and bare(qt(x)) in SCALARS:
            return self.ex(x["inner"][0])
        if is_vector(qt(x)):
            self.lost(x, "list of values")
        self.lost(x)

    def e_CXXConstructExpr(self, x):
        t = qt(x)
        inner = [y for y in x.get("inner", []) if strip(y)["kind"] != "CXXDefaultArgExpr"]
        if len(inner) == 1 and bare(qt(strip(inner[0]))) == bare(t):
            return self.ex(inner[0])
        if is_array(t) or is_vector(t):
            return self.fresh(x, t, [self.ex(y) for y in inner], "?")
        r = bare(t).split("::")[-1].split("<")[0]
        if r in self.u.recs:
            # the constructor of that many parameters
            want = ((x.get("ctorType") or {}).get("qualType", ""))
            for f in self.u.fns.values():
                if f["kind"] == "CXXConstructorDecl" and f.get("of") == r and self.u.body_of(f) is not None and \
                        not f.get("isImplicit"):
                    ps = [y for y in f.get("inner", []) if y.get("kind") == "ParmVarDecl"]
                    if len(ps) == len(inner) and (not want or qt(f) == want or len(ps) > 1):
                        return f"{self.u.fn_name(f)}({', '.join(self.val(y) for y in inner)})"
            if not inner:
                return f"{self.rec(r)}()"
        return self.fresh(x, t, [self.ex(y) for y in inner])

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def args(self, call, ys):
        return [self.val(y) if not is_array(qt(y)) else self.ex(y) for y in ys]

    def e_CallExpr(self, x):
        f, *ys = x["inner"]
        d = self.callee(f)
        ys = [y for y in ys if strip(y)["kind"] != "CXXDefaultArgExpr"]
        if d.get("name") in ("printf", "fprintf", "fflush", "puts", "__assert_fail"):
            return "None"
        own = self.u.fns.get(d.get("id"))
        if own is not None and self.u.body_of(own) is not None:
            ps = [y for y in own.get("inner", []) if y.get("kind") == "ParmVarDecl"]
            refs = [k for k, p in enumerate(ps) if self.by_ref(p)]
            name = self.u.fn_name(own)
            if refs:
                if self.pre is None:
                    self.lost(x)
                outs, back = [], []
                for k in refs:
                    lv = self.lval(ys[k])
                    if lv[0] == "var":
                        outs.append(lv[1])
                        continue
                    outs.append(self.name_tmp())
                    back.append(self.store(x, lv, outs[-1]))
                t = self.name_tmp()
                self.pre.append(f"({t}, {', '.join(outs)}) = {name}({', '.join(self.args(x, ys))})")
                self.pre += back
                return t
            return f"{name}({', '.join(self.args(x, ys))})"
        if d.get("kind") == "VarDecl" or not d:
            return f"{self.ex(f)}({', '.join(self.args(x, ys))})"
        name = self.function(d)
        return self.outs(x, name, [], ys)

    def outs(self, x, name, first, ys):
        """A call of a function defined elsewhere; what it takes by reference it sets."""
        args, outs = list(first), []
        for y in ys:
            z = y
            while z["kind"] in PASS:
                z = z["inner"][0]
            if z["kind"] in ("DeclRefExpr",) and bare(qt(z)) in SCALARS and "const" not in qt(z) and \
                    z.get("valueCategory") == "lvalue" and name not in ("min", "max", "abs"):
                outs.append(self.var(z["referencedDecl"], z))
            else:
                args.append(self.ex(y))
        text = f"{name}({', '.join(args)})"
        if not outs:
            return text
        if self.pre is None:
            self.lost(x)
        t = self.name_tmp()
        self.pre.append(f"{t} = {text}")
        for k, o in enumerate(outs):
            self.pre.append(f"{o} = __out__({t}, {k})")
        return t

    def e_CXXMemberCallExpr(self, x):
        me = strip(x["inner"][0])
        ys = [y for y in x["inner"][1:] if strip(y)["kind"] != "CXXDefaultArgExpr"]
        if me["kind"] != "MemberExpr":
            self.lost(x)
        o, n = me["inner"][0], me["name"]
        t = qt(strip(o))
        if is_array(t):
            a = self.ex(o)
            if n in ("nrows", "ncols"):
                return f"__dim__({a}, {0 if n == 'nrows' else 1})"
            if n == "size" and len(ys) == 1:
                return f"__dim__({a}, {self.ex(ys[0])})"
            if n == "size" and bare(t).startswith("Array1D"):
                return f"__dim__({a}, 0)"
            if n == "data":
                return f"__data__({a})"
            if n == "init":
                return f"__fill__({a}, {self.val(ys[0])})"
            if n == "resize":
                return f"__resize__({', '.join([a] + [self.ex(y) for y in ys])})"
            self.lost(x, n)
        if is_vector(t):
            a = self.ex(o)
            if n in ("push_back", "emplace_back"):
                if n == "emplace_back":
                    self.lost(x, n)
                v = self.val(ys[0])
                return f"__push__({a}, {v})"
            if n == "size":
                return f"__size__({a})"
            if n == "empty":
                return f"(__size__({a}) == 0)"
            if n in ("reserve", "shrink_to_fit"):
                return "None"
            if n == "at":
                return f"__item__({a}, {self.ex(ys[0])})"
            if n == "back":
                return f"__item__({a}, __size__({a}) - 1)"
            self.lost(x, n)
        r = bare(t).split("::")[-1].split("<")[0]
        own = self.u.fns.get(me.get("referencedMemberDecl"))
        if own is not None and self.u.body_of(own) is not None and own.get("of") == r and r != "CSA":
            if any(self.by_ref(p) for p in own.get("inner", []) if p.get("kind") == "ParmVarDecl"):
                self.lost(x, "reference parameter")
            return f"{self.u.fn_name(own)}({', '.join([self.ex(o)] + self.args(x, ys))})"
        self.u.externs = set(self.u.externs) | {f"{r}_{n}"}
        return self.outs(x, f"{r}_{n}", [self.ex(o)], ys)

    def e_CXXOperatorCallExpr(self, x):
        ops = x["inner"]
        d = self.callee(ops[0])
        n = d.get("name", "")
        t = qt(strip(ops[1]))
        if n == "operator()" and is_array(t):
            return f"__load__({', '.join(self.ex(y) for y in ops[1:])})"
        if n == "operator[]" and is_vector(t):
            return f"__item__({self.ex(ops[1])}, {self.ex(ops[2])})"
        if n == "operator()":
            return f"{self.ex(ops[1])}({', '.join(self.args(x, ops[2:]))})"
        own = self.u.fns.get(d.get("id"))
        if own is not None and self.u.body_of(own) is not None:
            m = own["kind"] == "CXXMethodDecl"
            return f"{self.u.fn_name(own)}({', '.join(self.args(x, ops[1:]))})"
        self.lost(x, n)


def load(ix, rel, name, roots):
    """Adds a module for the C++ file, with the functions named (and what they call)."""
    u = Unit(ix.repo, rel)
    m = u.module(name, roots)
    ix.modules[name] = m
    ix._res_cache = {}
    return u
